"""Abstract device descriptions (the values of the TLA+ specification), their rendering as SVD
files, and the projection of SVD files back to abstract values.

Optional values are lists of length 0 or 1, as in the specification; 64 bit integers are four
16 bit limbs, most significant first."""
import json
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

NOPROPS = {"sz": [], "ac": [], "pr": [], "rv": [], "rm": []}


KEEP_EMPTY = False    # keep lists of fields that are there but empty


def w(v):
    v &= (1 << 64) - 1
    return [(v >> 48) & 0xFFFF, (v >> 32) & 0xFFFF, (v >> 16) & 0xFFFF, v & 0xFFFF]


def unw(l):
    return (l[0] << 48) | (l[1] << 32) | (l[2] << 16) | l[3]


def props(sz=None, ac=None, pr=None, rv=None, rm=None):
    return {"sz": opt(sz), "ac": opt(ac), "pr": opt(pr),
            "rv": [] if rv is None else [w(rv)], "rm": [] if rm is None else [w(rm)]}


def opt(x):
    return [] if x is None else [x]


def dim(n, inc, ix=None, nm=None, ai=None):
    return [{"n": n, "inc": inc, "ix": opt(ix), "nm": opt(nm), "ai": opt(ai)}]


def field(n, off, wd, d=None, dim=(), ac=None, mwv=None, wc=None, ra=None, evs=(), df=None):
    return {"n": n, "dim": list(dim), "d": opt(d), "off": off, "w": wd, "ac": opt(ac),
            "mwv": opt(mwv), "wc": opt(wc), "ra": opt(ra), "evs": list(evs), "df": opt(df)}


def wc_range(a, b):
    return {"k": "range", "min": w(a), "max": w(b)}


def evs(vals, n=None, us=None, df=None):
    return {"n": opt(n), "us": opt(us), "df": opt(df), "vals": vals}


def ev(n, v, d=None, default=None):
    return {"n": n, "d": opt(d), "v": [] if v is None else [w(v)], "def": opt(default)}


def reg(n, off, fs=None, d=None, dim=(), dn=None, ag=None, ar=None, p=None, dt=None, mwv=None,
        wc=None, ra=None, df=None):
    return {"k": "r", "n": n, "dim": list(dim), "dn": opt(dn), "d": opt(d), "ag": opt(ag),
            "ar": opt(ar), "off": off, "p": p or dict(NOPROPS), "dt": opt(dt), "mwv": opt(mwv),
            "wc": opt(wc), "ra": opt(ra), "fs": opt(fs), "df": opt(df)}


def clu(n, off, ch, d=None, dim=(), ac=None, hs=None, p=None, df=None):
    return {"k": "c", "n": n, "dim": list(dim), "d": opt(d), "ac": opt(ac), "hs": opt(hs),
            "off": off, "p": p or dict(NOPROPS), "ch": ch, "df": opt(df)}


def per(n, base, regs=None, d=None, dim=(), dn=None, ver=None, ap=None, gn=None, ptn=None,
        atn=None, hsn=None, p=None, ab=None, ints=(), df=None):
    return {"n": n, "dim": list(dim), "dn": opt(dn), "ver": opt(ver), "d": opt(d), "ap": opt(ap),
            "gn": opt(gn), "ptn": opt(ptn), "atn": opt(atn), "hsn": opt(hsn), "base": w(base),
            "p": p or dict(NOPROPS), "ab": opt(ab), "ints": list(ints), "regs": opt(regs),
            "df": opt(df)}


def device(pers, n="DEV", ver="1.0", d="A device", ven=None, vid=None, ser=None, lic=None,
           hsf=None, hdp=None, aub=8, wd=32, p=None, cpu=None):
    return {"ven": opt(ven), "vid": opt(vid), "n": n, "ser": opt(ser), "ver": ver, "d": d,
            "lic": opt(lic), "hsf": opt(hsf), "hdp": opt(hdp), "aub": aub, "w": wd,
            "p": p or dict(NOPROPS), "cpu": opt(cpu), "pers": pers}


# ---------------------------------------------------------------------------------- rendering
class Fmt:
    """How numbers are written; a seeded rng may vary it."""

    def __init__(self, rng=None):
        self.rng = rng

    def num(self, v):
        if self.rng is None:
            return str(v)
        k = self.rng.randrange(6)
        if k == 0:
            return "0x%X" % v
        if k == 1:
            return "0x%x" % v
        if k == 2 and v < 4096:
            return "#" + bin(v)[2:]
        if k == 3 and v < 4096:
            return "0b" + bin(v)[2:]
        return str(v)

    def bool(self, b):
        if self.rng is not None and self.rng.randrange(3) == 0:
            return "1" if b else "0"
        return "true" if b else "false"


def _t(out, tag, text):
    out.append("<%s>%s</%s>" % (tag, escape(str(text)), tag))


def _o(out, tag, o):
    if o:
        _t(out, tag, o[0])


def _df(df):
    return ' derivedFrom="%s"' % escape(df[0], {'"': "&quot;"}) if df else ""


def _props(out, p, f):
    if p["sz"]:
        _t(out, "size", f.num(p["sz"][0]))
    _o(out, "access", p["ac"])
    _o(out, "protection", p["pr"])
    if p["rv"]:
        _t(out, "resetValue", f.num(unw(p["rv"][0])))
    if p["rm"]:
        _t(out, "resetMask", f.num(unw(p["rm"][0])))


def _ev(out, v, f):
    out.append("<enumeratedValue>")
    _t(out, "name", v["n"])
    _o(out, "description", v["d"])
    if v["v"]:
        _t(out, "value", f.num(unw(v["v"][0])))
    if v["def"]:
        _t(out, "isDefault", f.bool(v["def"][0]))
    out.append("</enumeratedValue>")


def _dim(out, dm, f):
    if not dm:
        return
    x = dm[0]
    _t(out, "dim", f.num(x["n"]))
    _t(out, "dimIncrement", f.num(x["inc"]))
    if x["ix"]:
        _t(out, "dimIndex", ",".join(x["ix"][0]))
    _o(out, "dimName", x["nm"])
    if x["ai"]:
        out.append("<dimArrayIndex>")
        _o(out, "headerEnumName", x["ai"][0]["h"])
        for v in x["ai"][0]["vals"]:
            _ev(out, v, f)
        out.append("</dimArrayIndex>")


def _wc(out, wc, f):
    if not wc:
        return
    c = wc[0]
    if c["k"] == "range":
        out.append("<writeConstraint><range><minimum>%s</minimum><maximum>%s</maximum></range>"
                   "</writeConstraint>" % (f.num(unw(c["min"])), f.num(unw(c["max"]))))
    elif c["k"] == "enum":
        out.append("<writeConstraint><useEnumeratedValues>true</useEnumeratedValues></writeConstraint>")
    else:
        out.append("<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint>")


def _field(out, x, f):
    out.append("<field%s>" % _df(x["df"]))
    _dim(out, x["dim"], f)
    _t(out, "name", x["n"])
    _o(out, "description", x["d"])
    k = f.nota if f.nota is not None else f.rng.randrange(3) if f.rng else 0
    if k == 0:
        _t(out, "bitOffset", f.num(x["off"]))
        _t(out, "bitWidth", f.num(x["w"]))
    elif k == 1:
        _t(out, "lsb", f.num(x["off"]))
        _t(out, "msb", f.num(x["off"] + x["w"] - 1))
    else:
        _t(out, "bitRange", "[%d:%d]" % (x["off"] + x["w"] - 1, x["off"]))
    _o(out, "access", x["ac"])
    _o(out, "modifiedWriteValues", x["mwv"])
    _wc(out, x["wc"], f)
    _o(out, "readAction", x["ra"])
    for e in x["evs"]:
        out.append("<enumeratedValues%s>" % _df(e["df"]))
        _o(out, "name", e["n"])
        _o(out, "usage", e["us"])
        for v in e["vals"]:
            _ev(out, v, f)
        out.append("</enumeratedValues>")
    out.append("</field>")


def _kid(out, x, f):
    tag = "register" if x["k"] == "r" else "cluster"
    out.append("<%s%s>" % (tag, _df(x["df"])))
    _dim(out, x["dim"], f)
    _t(out, "name", x["n"])
    if x["k"] == "r":
        _o(out, "displayName", x["dn"])
        _o(out, "description", x["d"])
        _o(out, "alternateGroup", x["ag"])
        _o(out, "alternateRegister", x["ar"])
        _t(out, "addressOffset", f.num(x["off"]))
        _props(out, x["p"], f)
        _o(out, "dataType", x["dt"])
        _o(out, "modifiedWriteValues", x["mwv"])
        _wc(out, x["wc"], f)
        _o(out, "readAction", x["ra"])
        if x["fs"]:
            out.append("<fields>")
            for y in x["fs"][0]:
                _field(out, y, f)
            out.append("</fields>")
    else:
        _o(out, "description", x["d"])
        _o(out, "alternateCluster", x["ac"])
        _o(out, "headerStructName", x["hs"])
        _t(out, "addressOffset", f.num(x["off"]))
        _props(out, x["p"], f)
        for y in x["ch"]:
            _kid(out, y, f)
    out.append("</%s>" % tag)


CPU_TAGS = [("n", "name", "s"), ("rev", "revision", "s"), ("en", "endian", "s"),
            ("mpu", "mpuPresent", "b"), ("fpu", "fpuPresent", "b"), ("fdp", "fpuDP", "ob"),
            ("dsp", "dspPresent", "ob"), ("ic", "icachePresent", "ob"),
            ("dc", "dcachePresent", "ob"), ("it", "itcmPresent", "ob"),
            ("dt", "dtcmPresent", "ob"), ("vtor", "vtorPresent", "ob"),
            ("prio", "nvicPrioBits", "i"), ("vst", "vendorSystickConfig", "b"),
            ("ni", "deviceNumInterrupts", "oi"), ("sau", "sauNumRegions", "oi")]
PER_TAGS = [("dn", "displayName"), ("ver", "version"), ("d", "description"),
            ("ap", "alternatePeripheral"), ("gn", "groupName"), ("ptn", "prependToName"),
            ("atn", "appendToName"), ("hsn", "headerStructName")]


NOTA = {"OffsetWidth": 0, "MsbLsb": 1, "BitRange": 2}


def render(dev, rng=None, nota=None):
    f = Fmt(rng)
    f.nota = NOTA.get(nota)
    out = ['<?xml version="1.0" encoding="utf-8"?>',
           '<device schemaVersion="1.1" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" '
           'xs:noNamespaceSchemaLocation="CMSIS-SVD_Schema_1_1.xsd">']
    _o(out, "vendor", dev["ven"])
    _o(out, "vendorID", dev["vid"])
    _t(out, "name", dev["n"])
    _o(out, "series", dev["ser"])
    _t(out, "version", dev["ver"])
    _t(out, "description", dev["d"])
    _o(out, "licenseText", dev["lic"])
    if dev["cpu"]:
        c = dev["cpu"][0]
        out.append("<cpu>")
        for k, tag, ty in CPU_TAGS:
            v = c[k]
            if ty[0] == "o":
                if not v:
                    continue
                v = v[0]
            _t(out, tag, f.bool(v) if ty[-1] == "b" else f.num(v) if ty[-1] == "i" else v)
        out.append("</cpu>")
    _o(out, "headerSystemFilename", dev["hsf"])
    _o(out, "headerDefinitionsPrefix", dev["hdp"])
    _t(out, "addressUnitBits", f.num(dev["aub"]))
    _t(out, "width", f.num(dev["w"]))
    _props(out, dev["p"], f)
    out.append("<peripherals>")
    for x in dev["pers"]:
        out.append("<peripheral%s>" % _df(x["df"]))
        _dim(out, x["dim"], f)
        _t(out, "name", x["n"])
        for k, tag in PER_TAGS:
            _o(out, tag, x[k])
        _t(out, "baseAddress", f.num(unw(x["base"])))
        _props(out, x["p"], f)
        for a in (x["ab"][0] if x["ab"] else []):
            out.append("<addressBlock>")
            _t(out, "offset", f.num(a["off"]))
            _t(out, "size", f.num(a["sz"]))
            _t(out, "usage", a["us"])
            _o(out, "protection", a["pr"])
            out.append("</addressBlock>")
        for i in x["ints"]:
            out.append("<interrupt>")
            _t(out, "name", i["n"])
            _o(out, "description", i["d"])
            _t(out, "value", f.num(i["v"]))
            out.append("</interrupt>")
        if x["regs"]:
            out.append("<registers>")
            for y in x["regs"][0]:
                _kid(out, y, f)
            out.append("</registers>")
        out.append("</peripheral>")
    out.append("</peripherals></device>")
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------------------------- projection
class Shape(Exception):
    """The file is not an SVD file of the expected shape."""


def _n(s):
    s = s.strip()
    try:
        if s[:2] in ("0x", "0X"):
            return int(s[2:], 16)
        if s[:1] == "#":
            return int(s[1:].lower().replace("x", "0"), 2)
        if s[:2] == "0b":
            return int(s[2:].replace("x", "0"), 2)
        return int(s)
    except ValueError:
        raise Shape("number %r" % s)


def _b(s):
    if s in ("true", "1"):
        return True
    if s in ("false", "0"):
        return False
    raise Shape("bool %r" % s)


class El:
    def __init__(self, e, known, attrs=()):
        self.tag = e.tag
        self.m = {}
        for c in e:
            if c.tag not in known:
                raise Shape("unexpected <%s> in <%s>" % (c.tag, e.tag))
            self.m.setdefault(c.tag, []).append(c)
        for a in e.attrib:
            if a not in attrs:
                raise Shape("unexpected attribute %s in <%s>" % (a, e.tag))
        self.df = opt(e.attrib.get("derivedFrom"))

    def one(self, t):
        l = self.m.get(t, [])
        if len(l) > 1:
            raise Shape("several <%s> in <%s>" % (t, self.tag))
        return l[0] if l else None

    def o(self, t):
        e = self.one(t)
        return [] if e is None else [e.text or ""]

    def s(self, t):
        e = self.one(t)
        if e is None:
            raise Shape("no <%s> in <%s>" % (t, self.tag))
        return e.text or ""

    def oi(self, t):
        e = self.one(t)
        return [] if e is None else [_n(e.text or "")]

    def i(self, t):
        return _n(self.s(t))

    def ow(self, t):
        return [w(v) for v in self.oi(t)]

    def all(self, t):
        return self.m.get(t, [])


PROPT = ("size", "access", "protection", "resetValue", "resetMask")
DIMT = ("dim", "dimIncrement", "dimIndex", "dimName", "dimArrayIndex")


def p_props(e):
    return {"sz": e.oi("size"), "ac": e.o("access"), "pr": e.o("protection"),
            "rv": e.ow("resetValue"), "rm": e.ow("resetMask")}


def p_ev(x):
    e = El(x, ("name", "description", "value", "isDefault"))
    return {"n": e.s("name"), "d": e.o("description"), "v": e.ow("value"),
            "def": [_b(v) for v in e.o("isDefault")]}


def parse_index(t):
    if "-" in t:
        a, b = t.split("-", 1)
        if a.isdigit() and b.isdigit():
            return [str(i) for i in range(int(a), int(b) + 1)]
        if len(a) == 1 and len(b) == 1:
            return [chr(i) for i in range(ord(a), ord(b) + 1)]
    return t.split(",")


def p_dim(e):
    if not e.one("dim") is not None and e.one("dimIncrement") is None:
        for t in DIMT:
            if e.one(t) is not None:
                raise Shape("stray <%s>" % t)
        return []
    ai = []
    if e.one("dimArrayIndex") is not None:
        a = El(e.one("dimArrayIndex"), ("headerEnumName", "enumeratedValue"))
        ai = [{"h": a.o("headerEnumName"), "vals": [p_ev(v) for v in a.all("enumeratedValue")]}]
    return [{"n": e.i("dim"), "inc": e.i("dimIncrement"),
             "ix": [parse_index(t) for t in e.o("dimIndex")], "nm": e.o("dimName"), "ai": ai}]


def p_wc(x):
    if x is None:
        return []
    e = El(x, ("range", "useEnumeratedValues", "writeAsRead"))
    if e.one("range") is not None:
        r = El(e.one("range"), ("minimum", "maximum"))
        return [{"k": "range", "min": w(r.i("minimum")), "max": w(r.i("maximum"))}]
    if e.one("useEnumeratedValues") is not None:
        if not _b(e.s("useEnumeratedValues")):
            raise Shape("useEnumeratedValues false")
        return [{"k": "enum", "min": w(0), "max": w(0)}]
    if e.one("writeAsRead") is not None and _b(e.s("writeAsRead")):
        return [{"k": "writeAsRead", "min": w(0), "max": w(0)}]
    raise Shape("writeConstraint")


def p_field(x):
    e = El(x, DIMT + ("name", "description", "bitOffset", "bitWidth", "lsb", "msb", "bitRange",
                      "access", "modifiedWriteValues", "writeConstraint", "readAction",
                      "enumeratedValues"), ("derivedFrom",))
    if e.o("bitOffset"):
        off, wd = e.i("bitOffset"), e.i("bitWidth")
    elif e.o("lsb"):
        off = e.i("lsb")
        wd = e.i("msb") - off + 1
    else:
        t = e.s("bitRange")
        m, l = t.strip("[]").split(":")
        off, wd = int(l), int(m) - int(l) + 1
    es = []
    for v in e.all("enumeratedValues"):
        z = El(v, ("name", "usage", "enumeratedValue"), ("derivedFrom",))
        es.append({"n": z.o("name"), "us": z.o("usage"), "df": z.df,
                   "vals": [p_ev(q) for q in z.all("enumeratedValue")]})
    return {"n": e.s("name"), "dim": p_dim(e), "d": e.o("description"), "off": off, "w": wd,
            "ac": e.o("access"), "mwv": e.o("modifiedWriteValues"),
            "wc": p_wc(e.one("writeConstraint")), "ra": e.o("readAction"), "evs": es, "df": e.df}


def p_kids(xs):
    r = []
    for x in xs:
        if x.tag == "register":
            e = El(x, DIMT + PROPT + ("name", "displayName", "description", "alternateGroup",
                                      "alternateRegister", "addressOffset", "dataType",
                                      "modifiedWriteValues", "writeConstraint", "readAction",
                                      "fields"), ("derivedFrom",))
            fs = []
            if e.one("fields") is not None:
                for y in e.one("fields"):
                    if y.tag != "field":
                        raise Shape("fields")
                l = [p_field(y) for y in e.one("fields")]
                fs = [l] if l or KEEP_EMPTY else []
            r.append({"k": "r", "n": e.s("name"), "dim": p_dim(e), "dn": e.o("displayName"),
                      "d": e.o("description"), "ag": e.o("alternateGroup"),
                      "ar": e.o("alternateRegister"), "off": e.i("addressOffset"),
                      "p": p_props(e), "dt": e.o("dataType"),
                      "mwv": e.o("modifiedWriteValues"), "wc": p_wc(e.one("writeConstraint")),
                      "ra": e.o("readAction"), "fs": fs, "df": e.df})
        elif x.tag == "cluster":
            e = El(x, DIMT + PROPT + ("name", "description", "alternateCluster",
                                      "headerStructName", "addressOffset", "register",
                                      "cluster"), ("derivedFrom",))
            kids = [y for y in x if y.tag in ("register", "cluster")]
            r.append({"k": "c", "n": e.s("name"), "dim": p_dim(e), "d": e.o("description"),
                      "ac": e.o("alternateCluster"), "hs": e.o("headerStructName"),
                      "off": e.i("addressOffset"), "p": p_props(e), "ch": p_kids(kids),
                      "df": e.df})
        else:
            raise Shape("unexpected <%s>" % x.tag)
    return r


def project(text):
    """Abstract device of an SVD text; raises Shape when it is not one."""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as ex:
        raise Shape("XML: %s" % ex)
    if root.tag != "device":
        raise Shape("root")
    for a in list(root.attrib):
        del root.attrib[a]
    e = El(root, PROPT + ("vendor", "vendorID", "name", "series", "version", "description",
                          "licenseText", "cpu", "headerSystemFilename",
                          "headerDefinitionsPrefix", "addressUnitBits", "width", "peripherals"))
    cpu = []
    if e.one("cpu") is not None:
        c = El(e.one("cpu"), tuple(t for _, t, _ in CPU_TAGS))
        v = {}
        for k, tag, ty in CPU_TAGS:
            conv = {"b": _b, "i": _n, "s": str}[ty[-1]]
            v[k] = [conv(t) for t in c.o(tag)] if ty[0] == "o" else conv(c.s(tag))
        cpu = [v]
    pers = []
    for x in (e.one("peripherals") if e.one("peripherals") is not None else []):
        if x.tag != "peripheral":
            raise Shape("peripherals")
        q = El(x, DIMT + PROPT + tuple(t for _, t in PER_TAGS) +
               ("name", "baseAddress", "addressBlock", "interrupt", "registers"), ("derivedFrom",))
        abs_ = []
        for a in q.all("addressBlock"):
            z = El(a, ("offset", "size", "usage", "protection"))
            abs_.append({"off": z.i("offset"), "sz": z.i("size"), "us": z.s("usage"),
                         "pr": z.o("protection")})
        ints = []
        for a in q.all("interrupt"):
            z = El(a, ("name", "description", "value"))
            ints.append({"n": z.s("name"), "d": z.o("description"), "v": z.i("value")})
        v = {"n": q.s("name"), "dim": p_dim(q), "base": w(q.i("baseAddress")), "p": p_props(q),
             "ab": [abs_] if abs_ else [], "ints": ints,
             "regs": [p_kids(list(q.one("registers")))] if q.one("registers") is not None else [],
             "df": q.df}
        for k, t in PER_TAGS:
            v[k] = q.o(t)
        pers.append(v)
    return {"ven": e.o("vendor"), "vid": e.o("vendorID"), "n": e.s("name"), "ser": e.o("series"),
            "ver": e.s("version"), "d": e.s("description"), "lic": e.o("licenseText"),
            "hsf": e.o("headerSystemFilename"), "hdp": e.o("headerDefinitionsPrefix"),
            "aub": e.i("addressUnitBits"), "w": e.i("width"), "p": p_props(e), "cpu": cpu,
            "pers": pers}


# ---------------------------------------------------------------------------------- YAML
def node(v):
    """YAML value -> value of the specification."""
    if v is None:
        return {"t": "n"}
    if v is True or v is False:
        return {"t": "b", "b": v}
    if isinstance(v, int):
        return {"t": "i", "i": w(v)}
    if isinstance(v, float):
        return {"t": "r", "s": repr(v)}
    if isinstance(v, str):
        return {"t": "s", "s": v}
    if isinstance(v, list):
        return {"t": "a", "a": [node(x) for x in v]}
    return {"t": "m", "m": ymap(v)}


def ymap(d):
    return [[k, node(x)] for k, x in d.items()]


def yaml_text(v, ind=0):
    """Flow style YAML (JSON) with one line per top level key."""
    if isinstance(v, dict) and ind == 0:
        return "".join("%s: %s\n" % (json.dumps(k), json.dumps(x)) for k, x in v.items()) or "{}\n"
    return json.dumps(v)
