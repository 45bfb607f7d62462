"""Devices as JSON / YAML documents, written and read without the tool."""
import json

import yaml

import svdlib as S

PROP = [("sz", "size", int), ("ac", "access", str), ("pr", "protection", str), ("rv", "resetValue", "w"), ("rm", "resetMask", "w")]
DT = {"uint8_t": "u8", "uint16_t": "u16", "uint32_t": "u32", "uint64_t": "u64", "int8_t": "i8", "int16_t": "i16",
      "int32_t": "i32", "int64_t": "i64"}
DTS = dict(DT, **{k + " *": v + "_ptr" for k, v in DT.items()})
DTR = {v: k for k, v in DTS.items()}
WC = {"enum": "useEnumeratedValues", "writeAsRead": "writeAsRead"}


def put(o, k, v):
    if v:
        o[k] = v[0]


def j_props(o, p):
    for a, k, t in PROP:
        if p[a]:
            o[k] = S.unw(p[a][0]) if t == "w" else p[a][0]


def j_ev(v):
    o = {"name": v["n"]}
    put(o, "description", v["d"])
    if v["v"]:
        o["value"] = S.unw(v["v"][0])
    put(o, "is_default", v["def"])
    return o


def j_dim(o, d):
    if not d:
        return
    x = d[0]
    o["dim"], o["dimIncrement"] = x["n"], x["inc"]
    if x["ix"]:
        o["dimIndex"] = ",".join(x["ix"][0])
    put(o, "dimName", x["nm"])
    if x["ai"]:
        a = {}
        put(a, "headerEnumName", x["ai"][0]["h"])
        a["values"] = [j_ev(v) for v in x["ai"][0]["vals"]]
        o["dimArrayIndex"] = a


def j_wc(o, wc):
    if wc:
        c = wc[0]
        o["writeConstraint"] = {"range": {"minimum": S.unw(c["min"]), "maximum": S.unw(c["max"])}} if c["k"] == "range" else {WC[c["k"]]: True}


def j_field(x):
    o = {}
    j_dim(o, x["dim"])
    o["name"] = x["n"]
    put(o, "description", x["d"])
    o["bitOffset"], o["bitWidth"] = x["off"], x["w"]
    put(o, "access", x["ac"])
    put(o, "modifiedWriteValues", x["mwv"])
    j_wc(o, x["wc"])
    put(o, "readAction", x["ra"])
    if x["evs"]:
        o["enumeratedValues"] = []
        for e in x["evs"]:
            q = {}
            put(q, "name", e["n"])
            put(q, "usage", e["us"])
            put(q, "derived_from", e["df"])
            if e["vals"]:
                q["values"] = [j_ev(v) for v in e["vals"]]
            o["enumeratedValues"].append(q)
    put(o, "derivedFrom", x["df"])
    return o


def j_kid(x):
    o = {}
    j_dim(o, x["dim"])
    o["name"] = x["n"]
    if x["k"] == "r":
        put(o, "displayName", x["dn"])
    put(o, "description", x["d"])
    if x["k"] == "r":
        put(o, "alternateGroup", x["ag"])
        put(o, "alternateRegister", x["ar"])
        o["addressOffset"] = x["off"]
        j_props(o, x["p"])
        if x["dt"]:
            o["datatype"] = DTS[x["dt"][0]]
        put(o, "modifiedWriteValues", x["mwv"])
        j_wc(o, x["wc"])
        put(o, "readAction", x["ra"])
        if x["fs"]:
            o["fields"] = [j_field(f) for f in x["fs"][0]]
    else:
        put(o, "alternateCluster", x["ac"])
        put(o, "headerStructName", x["hs"])
        o["addressOffset"] = x["off"]
        j_props(o, x["p"])
        o["children"] = [j_kid(y) for y in x["ch"]]
    put(o, "derivedFrom", x["df"])
    return {"register" if x["k"] == "r" else "cluster": o}


def tree(dev):
    o = {}
    for k, t in (("ven", "vendor"), ("vid", "vendorID")):
        put(o, t, dev[k])
    o["name"] = dev["n"]
    put(o, "series", dev["ser"])
    o["version"], o["description"] = dev["ver"], dev["d"]
    put(o, "licenseText", dev["lic"])
    if dev["cpu"]:
        c = o["cpu"] = {}
        for k, t, ty in S.CPU_TAGS:
            v = dev["cpu"][0][k]
            if ty[0] == "o":
                put(c, t, v)
            else:
                c[t] = v
    put(o, "headerSystemFilename", dev["hsf"])
    put(o, "headerDefinitionsPrefix", dev["hdp"])
    o["addressUnitBits"], o["width"] = dev["aub"], dev["w"]
    j_props(o, dev["p"])
    o["peripherals"] = []
    for x in dev["pers"]:
        p = {}
        j_dim(p, x["dim"])
        p["name"] = x["n"]
        for k, t in S.PER_TAGS:
            put(p, t, x[k])
        p["baseAddress"] = S.unw(x["base"])
        j_props(p, x["p"])
        if x["ab"]:
            p["addressBlock"] = [dict({"offset": a["off"], "size": a["sz"], "usage": a["us"]}, **({"protection": a["pr"][0]} if a["pr"] else {}))
                                 for a in x["ab"][0]]
        if x["ints"]:
            p["interrupt"] = [dict({"name": i["n"], "value": i["v"]}, **({"description": i["d"][0]} if i["d"] else {})) for i in x["ints"]]
        if x["regs"]:
            p["registers"] = [j_kid(y) for y in x["regs"][0]]
        put(p, "derivedFrom", x["df"])
        o["peripherals"].append(p)
    return o


def render(dev, fmt):
    t = tree(dev)
    return json.dumps(t, indent=1) if fmt == "json" else yaml.safe_dump(t, sort_keys=False)


# ------------------------------------------------------------------ reading
class M:
    """a mapping with exactly the known keys"""

    def __init__(self, d):
        if not isinstance(d, dict):
            raise S.Shape("mapping expected: %r" % (d,))
        self.d = dict(d)

    def o(self, k, t=str, conv=lambda v: v):
        if k not in self.d:
            return []
        v = self.d.pop(k)
        if type(v) is not t:
            raise S.Shape("%s: %r" % (k, v))
        return [conv(v)]

    def one(self, k, t=str, conv=lambda v: v):
        l = self.o(k, t, conv)
        if not l:
            raise S.Shape("no " + k)
        return l[0]

    def end(self):
        if self.d:
            raise S.Shape("unexpected keys %s" % sorted(self.d))


def r_props(m):
    return {"sz": m.o("size", int), "ac": m.o("access"), "pr": m.o("protection"), "rv": m.o("resetValue", int, S.w), "rm": m.o("resetMask", int, S.w)}


def r_ev(d):
    m = M(d)
    r = {"n": m.one("name"), "d": m.o("description"), "v": m.o("value", int, S.w), "def": m.o("is_default", bool)}
    m.end()
    return r


def r_dim(m):
    if "dim" not in m.d:
        return []
    def ai(d):
        a = M(d)
        r = {"h": a.o("headerEnumName"), "vals": [r_ev(v) for v in a.one("values", list)]}
        a.end()
        return r
    return [{"n": m.one("dim", int), "inc": m.one("dimIncrement", int), "ix": m.o("dimIndex", str, S.parse_index), "nm": m.o("dimName"),
             "ai": m.o("dimArrayIndex", dict, ai)}]


def r_wc(m):
    if "writeConstraint" not in m.d:
        return []
    w = M(m.one("writeConstraint", dict))
    if "range" in w.d:
        r = M(w.one("range", dict))
        v = {"k": "range", "min": r.one("minimum", int, S.w), "max": r.one("maximum", int, S.w)}
        r.end()
    else:
        k = [k for k in WC if w.d.get(WC[k]) is True]
        if len(k) != 1:
            raise S.Shape("writeConstraint %s" % w.d)
        w.d.pop(WC[k[0]])
        v = {"k": k[0], "min": S.w(0), "max": S.w(0)}
    w.end()
    return [v]


def r_field(d):
    m = M(d)
    if "bitOffset" in m.d:
        off, wd = m.one("bitOffset", int), m.one("bitWidth", int)
    elif "lsb" in m.d:
        off = m.one("lsb", int)
        wd = m.one("msb", int) - off + 1
    else:
        a, b = m.one("bitRange").strip("[]").split(":")
        off, wd = int(b), int(a) - int(b) + 1
    es = []
    for e in (m.o("enumeratedValues", list) or [[]])[0]:
        q = M(e)
        es.append({"n": q.o("name"), "us": q.o("usage"), "df": q.o("derived_from"), "vals": [r_ev(v) for v in (q.o("values", list) or [[]])[0]]})
        q.end()
    r = {"n": m.one("name"), "dim": r_dim(m), "d": m.o("description"), "off": off, "w": wd, "ac": m.o("access"), "mwv": m.o("modifiedWriteValues"),
         "wc": r_wc(m), "ra": m.o("readAction"), "evs": es, "df": m.o("derivedFrom")}
    m.end()
    return r


def r_kid(d):
    if not isinstance(d, dict) or len(d) != 1:
        raise S.Shape("register or cluster expected")
    (k, v), = d.items()
    m = M(v)
    if k == "register":
        fs = [[r_field(f) for f in l] for l in m.o("fields", list)]
        r = {"k": "r", "n": m.one("name"), "dim": r_dim(m), "dn": m.o("displayName"), "d": m.o("description"), "ag": m.o("alternateGroup"),
             "ar": m.o("alternateRegister"), "off": m.one("addressOffset", int), "p": r_props(m), "dt": m.o("datatype", str, lambda t: DTR[t]),
             "mwv": m.o("modifiedWriteValues"), "wc": r_wc(m), "ra": m.o("readAction"), "fs": fs if fs != [[]] else [], "df": m.o("derivedFrom")}
    elif k == "cluster":
        r = {"k": "c", "n": m.one("name"), "dim": r_dim(m), "d": m.o("description"), "ac": m.o("alternateCluster"), "hs": m.o("headerStructName"),
             "off": m.one("addressOffset", int), "p": r_props(m), "ch": [r_kid(y) for y in m.one("children", list)], "df": m.o("derivedFrom")}
    else:
        raise S.Shape(k)
    m.end()
    return r


def project(text, fmt):
    """abstract device of a JSON or YAML text"""
    try:
        t = json.loads(text) if fmt == "json" else yaml.safe_load(text)
    except (ValueError, yaml.YAMLError) as e:
        raise S.Shape(str(e)[:200])
    m = M(t)
    cpu = []
    if "cpu" in m.d:
        c = M(m.one("cpu", dict))
        v = {}
        for k, t, ty in S.CPU_TAGS:
            ty_ = {"b": bool, "i": int, "s": str}[ty[-1]]
            v[k] = c.o(t, ty_) if ty[0] == "o" else c.one(t, ty_)
        c.end()
        cpu = [v]
    pers = []
    for x in m.one("peripherals", list):
        p = M(x)
        ab = []
        for l in p.o("addressBlock", list):
            for a in l:
                q = M(a)
                ab.append({"off": q.one("offset", int), "sz": q.one("size", int), "us": q.one("usage"), "pr": q.o("protection")})
                q.end()
        ints = []
        for a in (p.o("interrupt", list) or [[]])[0]:
            q = M(a)
            ints.append({"n": q.one("name"), "d": q.o("description"), "v": q.one("value", int)})
            q.end()
        v = {"n": p.one("name"), "dim": r_dim(p), "base": p.one("baseAddress", int, S.w), "p": r_props(p), "ab": [ab] if ab else [], "ints": ints,
             "regs": [[r_kid(y) for y in l] for l in p.o("registers", list)], "df": p.o("derivedFrom")}
        for k, t in S.PER_TAGS:
            v[k] = p.o(t)
        p.end()
        pers.append(v)
    r = {"ven": m.o("vendor"), "vid": m.o("vendorID"), "n": m.one("name"), "ser": m.o("series"), "ver": m.one("version"), "d": m.one("description"),
         "lic": m.o("licenseText"), "hsf": m.o("headerSystemFilename"), "hdp": m.o("headerDefinitionsPrefix"), "aub": m.one("addressUnitBits", int),
         "w": m.one("width", int), "p": r_props(m), "cpu": cpu, "pers": pers}
    m.end()
    return r
