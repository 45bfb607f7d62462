"""Guided generation of devices and patches.

A case grows one rule at a time.  Every prefix is run by the real tool, whose output (projected
to abstract values) is both the recorded observation and the state which guides the next rule.
"""
import copy
import json
import os
import random
import re

import svdlib as S

ACC = ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]
MWV = ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle",
       "clear", "set", "modify"]
RA = ["clear", "set", "modify", "modifyExternal"]


class Raw:
    """A YAML scalar written without quotes, with the value it stands for."""

    def __init__(self, text, node):
        self.text = text
        self.n = node

    def __deepcopy__(self, memo):
        return self


def ynode(v):
    if isinstance(v, Raw):
        return v.n
    if isinstance(v, list):
        return {"t": "a", "a": [ynode(x) for x in v]}
    if isinstance(v, dict):
        return {"t": "m", "m": ymap(v)}
    return S.node(v)


def ymap(d):
    return [[k, ynode(x)] for k, x in d.items()]


def ytext(v, top=True):
    if isinstance(v, Raw):
        return v.text
    if isinstance(v, dict):
        if top:
            return "".join("%s: %s\n" % (json.dumps(k), ytext(x, False)) for k, x in v.items())
        return "{" + ", ".join("%s: %s" % (json.dumps(k), ytext(x, False)) for k, x in v.items()) + "}"
    if isinstance(v, list):
        return "[" + ", ".join(ytext(x, False) for x in v) + "]"
    return json.dumps(v)


def wchoice(R, table):
    """table: dict name -> weight"""
    ks = [k for k in table if table[k] > 0]
    t = sum(table[k] for k in ks)
    x = R.random() * t
    for k in ks:
        x -= table[k]
        if x <= 0:
            return k
    return ks[-1]


def some(R, p):
    return R.random() < p


# ------------------------------------------------------------------------------- devices
WORDS = ["Control", "Status", "Enable", "Mode", "Channel", "Data", "Interrupt", "Transfer"]


def g_desc(R, i=None):
    k = R.random()
    if k < 0.15:
        return None
    t = R.choice(WORDS)
    if i is not None and some(R, 0.7):
        return R.choice(["%s %s", "%s for unit %s", "%s no.%s bit", "%s %s of %s"]).replace("%s", "\0", 1) \
            .replace("\0", t).replace("%s", str(i))
    return t + R.choice(["", " bits", " register", " value"])


def g_evs(R, wd, base=None):
    n = R.randrange(1, min(4, 2 ** min(wd, 3)) + 1)
    vals = R.sample(range(min(2 ** min(wd, 16), 16)), min(n, 2 ** min(wd, 4)))
    l = [S.ev(R.choice(["Off", "On", "Div", "Lo", "Hi"]) + str(v), v, g_desc(R)) for v in vals]
    if some(R, 0.1):
        l.append(S.ev("Other", None, "others", True))
    return l


def g_attrs(R, wd, rich):
    a = {}
    if some(R, 0.25 * rich):
        a["ac"] = R.choice(ACC)
    if some(R, 0.12 * rich):
        a["mwv"] = R.choice(MWV)
    if some(R, 0.12 * rich):
        a["ra"] = R.choice(RA)
    k = R.random()
    if k < 0.1 * rich:
        hi = R.randrange(2 ** min(wd, 20))
        a["wc"] = S.wc_range(R.randrange(hi + 1), hi)
    elif k < 0.13 * rich:
        a["wc"] = {"k": R.choice(["enum", "writeAsRead"]), "min": S.w(0), "max": S.w(0)}
    if some(R, 0.25 * rich):
        es = [S.evs(g_evs(R, wd), n=R.choice([None, "EVA", "EVB", "EVC"]), us=R.choice([None, None, "read", "write"]))]
        if es[0]["us"] and some(R, 0.5):
            es.append(S.evs(g_evs(R, wd), n=R.choice([None, "EVW"]),
                            us=["read" if es[0]["us"] == ["write"] else "write"][0]))
        a["evs"] = es
    return a


def g_fields(R, size=32, rich=1.0):
    fs, used, off = [], set(), 0

    def add(n, off, wd, **k):
        if n in used or off + wd > size or wd < 1:
            return False
        used.add(n)
        fs.append(S.field(n, off, wd, **k))
        return True

    for _ in range(R.choice([0, 1, 1, 2, 2, 3])):
        k = R.random()
        if k < 0.5:
            base = R.choice(["EN%s", "CH%sEN", "IE%s", "MODE%s", "CH%s_FL", "F%s", "DATA%s"])
            n = R.randrange(2, 5)
            start = R.choice([0, 1, 1, 9])
            wd = R.choice([1, 1, 1, 2, 2, 4])
            stride = wd + R.choice([0, 0, 0, 1, 4])
            letters = some(R, 0.15)
            a = g_attrs(R, wd, rich * 0.7) if some(R, 0.5) else {}
            dk = R.randrange(3)
            common = g_desc(R)
            word = R.choice(WORDS)
            odd = R.randrange(n) if some(R, 0.2) else -1
            for i in range(n):
                ix = chr(65 + i) if letters else str(start + i)
                w2 = wd + 1 if (i == odd and some(R, 0.4)) else wd
                o2 = off + 1 if (i == odd and some(R, 0.4)) else off
                d = [None, common, "%s of %s" % (word, ix)][dk]
                if i == odd and some(R, 0.4):
                    d = "Something else"
                b = copy.deepcopy(a)
                if i > 0 and some(R, 0.3):
                    b.pop("evs", None)
                add(base.replace("%s", ix), o2, w2, d=d, **b)
                off += stride
        elif k < 0.85:
            n = R.choice(["PSC", "CNT", "FLAG", "OVR", "BUSY", "KEY", "STRT", "DIV", "LOCK"])
            wd = R.choice([1, 1, 2, 3, 4, 8])
            add(n, off, wd, d=g_desc(R), **g_attrs(R, wd, rich))
            off += wd + R.choice([0, 0, 1, 3])
        elif k < 0.93:
            n = R.choice(["IO%s", "P%s", "SEL%sX"])
            wd = R.choice([1, 2])
            c = R.choice([2, 3])
            inc = wd + R.choice([0, 0, 1])
            ix = None if some(R, 0.5) else [str(i) for i in range(c)]
            if off + c * inc <= size:
                add(n, off, wd, d=g_desc(R), dim=S.dim(c, inc, ix), **g_attrs(R, wd, rich * 0.6))
            off += c * inc
        elif fs:
            src = R.choice(fs)
            add(src["n"].replace("%s", "") + "B", off, src["w"], d=g_desc(R), df=src["n"])
            off += src["w"]
    if some(R, 0.25):
        R.shuffle(fs)
    return fs


def g_props(R, p=0.3, size=None):
    q = {}
    if some(R, p):
        q["sz"] = size or R.choice([8, 16, 32, 32, 64])
    if some(R, p):
        q["ac"] = R.choice(ACC)
    if some(R, p * 0.3):
        q["pr"] = R.choice(["s", "n", "p"])
    if some(R, p):
        q["rv"] = R.randrange(2 ** q.get("sz", 32))
    if some(R, p * 0.6):
        q["rm"] = R.randrange(2 ** q.get("sz", 32))
    return S.props(**q)


def g_reg(R, n, off, d=None, fs=None, rich=1.0, **k):
    fs = g_fields(R, rich=rich) if fs is None else fs
    p = g_props(R, 0.25 * rich)
    if some(R, 0.25 * rich):
        k.setdefault("dn", n.replace("[%s]", "%s"))
    if some(R, 0.05 * rich):
        k.setdefault("ar", R.choice(["CR1", "CH0_CFG", "SR"]))
    if some(R, 0.05 * rich):
        k.setdefault("ag", "ALT")
    if some(R, 0.05 * rich):
        k.setdefault("dt", "uint32_t")
    if some(R, 0.05 * rich):
        k.setdefault("mwv", R.choice(MWV))
    if some(R, 0.05 * rich):
        k.setdefault("ra", R.choice(RA))
    if some(R, 0.05 * rich):
        k.setdefault("wc", S.wc_range(0, R.randrange(1, 200)))
    return S.reg(n, off, fs=fs if fs else None, d=d, p=p, **k)


def g_children(R, depth=0, rich=1.0, budget=8):
    kids, used, off = [], set(), R.choice([0, 0, 0, 4, 16])

    def put(x):
        if x["n"] in used:
            return
        used.add(x["n"])
        kids.append(x)

    for _ in range(R.choice([1, 2, 2, 3]) if depth == 0 else R.choice([1, 1, 2])):
        k = R.random()
        if k < 0.33:
            base = R.choice(["CR%s", "TX%s_BUF", "DR%s", "CCR%sH", "%sCFG" if False else "CFG%s"])
            n = R.randrange(2, 5)
            start = R.choice([0, 1, 1, 8])
            stride = R.choice([4, 4, 4, 8])
            fs = g_fields(R, rich=rich)
            word = R.choice(WORDS)
            dk = R.randrange(3)
            common = g_desc(R)
            letters = some(R, 0.12)
            dnames = some(R, 0.3)
            proto = g_reg(R, "X", 0, None, copy.deepcopy(fs), rich * 0.6)
            proto["dn"] = []
            odd = R.randrange(n) if some(R, 0.25) else -1
            how = R.randrange(4)
            for i in range(n):
                ix = chr(65 + i) if letters else str(start + i)
                r = copy.deepcopy(proto)
                r["n"] = base.replace("%s", ix)
                r["d"] = S.opt([None, common, "%s %s register" % (word, ix)][dk])
                r["off"] = off + i * stride
                if dnames:
                    r["dn"] = [r["n"]]
                if i == odd:
                    if how == 0:
                        r["off"] += 4 * R.choice([1, 2])
                    elif how == 1:
                        f2 = g_fields(R, rich=rich)
                        r["fs"] = [f2] if f2 else []
                    elif how == 2:
                        r["d"] = ["Special"]
                    else:
                        r["p"] = g_props(R)
                put(r)
            off += n * stride + R.choice([0, 0, 8])
        elif k < 0.53:
            n = R.randrange(1, 4)
            names = R.sample(["CFG", "STAT", "CNT", "PTR"], R.choice([1, 2, 2, 3]))
            base = R.choice(["CH%s_", "S%s", "EP%s_"])
            stride = 4 * len(names) + R.choice([0, 0, 4])
            start = R.choice([0, 0, 1])
            fss = [g_fields(R, rich=rich * 0.7) for _ in names]
            # the second group may be laid out differently
            skew = R.choice([0, 0, 0, 0, 4, 8]) if len(names) > 1 else 0
            same_d = some(R, 0.6)
            for j, m in enumerate(names):
                for i in range(n):
                    inc = stride + (skew if j == 1 else 0)
                    d = "%s of channel" % m.lower() if same_d else g_desc(R, i)
                    r = g_reg(R, base.replace("%s", str(start + i)) + m, off + 4 * j + i * inc, d,
                              copy.deepcopy(fss[j]), 0.2 * rich)
                    put(r)
            off += n * stride
            if some(R, 0.5):
                kids.sort(key=lambda x: x["off"])
        elif k < 0.72:
            n = R.choice(["SR", "DR", "CR", "ISR", "IER", "CNT", "ARR", "LOCK", "FIFO_CR"])
            put(g_reg(R, n, off, g_desc(R), None, rich))
            off += 4
        elif k < 0.82:
            n = R.choice(["DATA[%s]", "BUF%s", "MSG%s_LEN"])
            c = R.choice([1, 2, 3, 4])
            inc = R.choice([4, 4, 8])
            ix = R.choice([None, None, [str(i) for i in range(c)], [chr(65 + i) for i in range(c)],
                           [str(i + 1) for i in range(c)]])
            if "[" in n and ix and some(R, 0.7):
                ix = None
            ai = None
            if some(R, 0.12):
                ai = {"h": S.opt(R.choice([None, "IdxEnum"])),
                      "vals": [S.ev("Alpha%d" % i, i, R.choice([None, "Word %d" % i])) for i in range(R.randrange(1, c + 1))]}
            d = R.choice([None, "Data word %s", "Word [%s]", "Data words"])
            put(g_reg(R, n, off, d, None, rich * 0.7, dim=S.dim(c, inc, ix, R.choice([None, None, None, "DimN"]), ai),
                      dn=R.choice([None, None, n, "DW%s"])))
            off += c * inc
        elif k < 0.88 and [x for x in kids if x["k"] == "r"]:
            src = R.choice([x for x in kids if x["k"] == "r"])
            put(S.reg(src["n"].replace("[%s]", "").replace("%s", "") + "_B", off, d=g_desc(R), df=src["n"]))
            off += 4
        elif depth < 2:
            n = R.choice(["CL%s", "CH[%s]", "GRP", "BANK", "CL%s_X", "ST%s"])
            ch = g_children(R, depth + 1, rich * 0.7, 3)
            ext = max([4] + [x["off"] + 4 * (x["dim"][0]["n"] if x["dim"] else 1) for x in ch])
            dim = ()
            if "%s" in n:
                c = R.choice([1, 2, 2, 3])
                ix = R.choice([None, None, [str(i + R.choice([0, 1])) for i in range(c)]])
                if ix is not None:
                    st = R.choice([0, 1])
                    ix = [str(i + st) for i in range(c)]
                dim = S.dim(c, ext, ix)
            put(S.clu(n, off, ch, d=g_desc(R), dim=dim, hs=R.choice([None, None, None, "CL_Hdr"]),
                      ac=R.choice([None, None, None, None, "GRP"]), p=g_props(R, 0.08)))
            off += ext * (dim[0]["n"] if dim else 1)
    if depth == 0 and some(R, 0.15):
        R.shuffle(kids)
    return kids


def g_cpu(R):
    b = lambda: [R.choice([True, False])] if some(R, 0.4) else []
    return {"n": R.choice(["CM4", "CM0", "CM33"]), "rev": "r0p1", "en": R.choice(["little", "big"]),
            "mpu": some(R, 0.5), "fpu": some(R, 0.5), "fdp": b(), "dsp": b(), "ic": b(), "dc": b(), "it": b(),
            "dt": b(), "vtor": b(), "prio": R.randrange(2, 9), "vst": some(R, 0.5),
            "ni": [R.randrange(1, 200)] if some(R, 0.4) else [], "sau": [R.randrange(0, 9)] if some(R, 0.3) else []}


def g_ints(R, name, start):
    l = []
    for i in range(R.choice([0, 0, 1, 1, 2])):
        l.append({"n": name + ["", "_UP", "_TX"][i], "d": S.opt(g_desc(R)), "v": start + R.choice([0, 1, 2, 3]) + i})
    return l


PER_NAMES = ["TIM1", "TIM2", "TIM3", "UART1", "UART2", "GPIOA", "GPIOB", "ADC", "DMA", "SPI1"]


def g_device(R, rich=1.0, npers=None, derived=0.2):
    n = npers or R.choice([1, 2, 2, 3, 4])
    names = R.sample(PER_NAMES, n)
    pers = []
    base = 0x40000000
    for i, nm in enumerate(names):
        plain = [p for p in pers if not p["df"]]
        ab = None
        if some(R, 0.6):
            ab = [{"off": 0, "sz": R.choice([0x100, 0x400]), "us": "registers", "pr": []}]
            if some(R, 0.15):
                ab.append({"off": 0x400, "sz": 0x10, "us": R.choice(["buffer", "reserved"]), "pr": ["s"] if some(R, 0.3) else []})
        k = dict(d=g_desc(R), gn=R.choice([None, "GRP", nm[:3]]), ints=g_ints(R, nm, i * 4))
        if plain and some(R, derived):
            own = g_children(R, 0, rich * 0.5) if some(R, 0.1) else None
            pers.append(S.per(nm, base, own, df=R.choice(plain)["n"], **k))
        else:
            if some(R, 0.1 * rich):
                k.update(dn=R.choice([None, "Disp"]), ver=R.choice([None, "1.2"]), hsn=R.choice([None, "Hdr"]),
                         ap=R.choice([None, "ADC"]), ptn=R.choice([None, "PRE_"]), atn=R.choice([None, "_POST"]))
            regs = g_children(R, 0, rich) if some(R, 0.97) else R.choice([None, []])
            pers.append(S.per(nm, base, regs, ab=ab, p=g_props(R, 0.08), **k))
        base += R.choice([0x400, 0x400, 0x1000])
    if some(R, 0.3):
        R.shuffle(pers)
    k = {}
    for key, v in (("ven", "ACME"), ("vid", "AC"), ("ser", "S1"), ("lic", "license text"), ("hsf", "sys_dev"), ("hdp", "DEV_")):
        if some(R, 0.25 * rich):
            k[key] = v
    return S.device(pers, cpu=g_cpu(R) if some(R, 0.4) else None, p=g_props(R, 0.3, R.choice([32, 32, 64])),
                    aub=R.choice([8, 8, 8, 16]), wd=R.choice([32, 32, 64]), **k)


# ------------------------------------------------------------------------------- patches
class Stop(Exception):
    pass


def find_digit(R, n):
    l = [m for m in re.finditer(r"\d", n)]
    return R.choice(l) if l else None


def glob_ok(spec):
    parts = [spec] if "{" in spec else spec.split(",")
    return all(p.count("[") <= p.count("]") and p.count("{") == p.count("}") for p in parts)


def globs_ok(v):
    """Rules of a value name elements by well formed globs only (others make the tool panic)."""
    if isinstance(v, dict):
        return all(glob_ok(str(k)) and globs_ok(x) and (not str(k).startswith("_") or not isinstance(x, str)
                                                        or glob_ok(x)) for k, x in v.items())
    if isinstance(v, list):
        return all((glob_ok(x) if isinstance(x, str) else globs_ok(x)) for x in v)
    return True


class Gen:
    """One case being grown."""

    def __init__(self, R, prof, tool, cid):
        self.R = R
        self.prof = prof
        self.tool = tool
        self.cid = cid
        self.cases = []      # finished extra cases (failing prefixes)
        self.ed = "none" if False else R.choice(prof.get("ed", ["enum", "enum", "enum", "field", "none"]))
        self.files = []
        self.patch = {}
        self.obs = {}        # point -> device
        self.nitem = 0
        self.nerr = 0

    # ---- running
    def start(self, dev):
        self.svd = self.tool.cwd + "/in.svd"
        with open(self.svd, "w") as f:
            f.write(S.render(dev, self.R if some(self.R, self.prof.get("fmt", 0.3)) else None))
        try:
            with open(self.svd) as f:
                self.dev0 = S.project(f.read())
        except S.Shape:
            raise Stop()
        # what the tool makes of the input alone
        out, d = self.run({})
        if out != "ok" or d != self.norm0(self.dev0):
            # the observation with the empty patch is a case of its own
            self.cases.append(self.case({}, out, d, "empty"))
            if out != "ok":
                raise Stop()
        self.dev = self.dev0

    @staticmethod
    def norm0(d):
        return d

    def run(self, patch, shuffle=False):
        items = list(patch.items())
        if shuffle:
            dev = [x for x in items if x[0].startswith("_")]
            per = [x for x in items if not x[0].startswith("_")]
            self.R.shuffle(dev)
            # peripheral rules keep their relative order, the other sections may stand anywhere
            items = per
            for x in dev:
                items.insert(self.R.randrange(len(items) + 1), x)
        text = ytext(dict([("_svd", "in.svd")] + items if not shuffle or some(self.R, 0.5)
                          else items + [("_svd", "in.svd")]))
        cwd = self.tool.cwd
        with open(cwd + "/p.yaml", "w") as f:
            f.write(text)
        out = cwd + "/out.svd"
        if os.path.exists(out):
            os.remove(out)
        s, _ = self.tool.run("patch", "p.yaml", "out.svd", "--enum-derive", self.ed)
        if s != "ok":
            return s, None
        try:
            with open(out) as f:
                return s, S.project(f.read())
        except (OSError, S.Shape) as e:
            return "shape", None

    def case(self, patch, out, d, tag, points=()):
        obs = [{"at": a, "out": "ok", "dev": x} for a, x in points]
        obs.append({"at": "end", "out": out, "dev": d if d is not None else self.dev0})
        return {"id": "%s-%s" % (self.cid, tag), "dev": self.dev0, "files": self.files,
                "patch": ymap(patch), "ed": self.ed, "obs": obs,
                "yaml": ytext(dict([("_svd", "in.svd")] + list(patch.items())))}

    def attempt(self, path, value, append=False, point=None):
        """Add value at path; keep it when the tool accepts the patch."""
        if not globs_ok({path[-1]: value}) or not all(glob_ok(str(k)) for k in path):
            return False
        p = copy.deepcopy(self.patch)
        x = p
        for k in path[:-1]:
            x = x.setdefault(k, {})
        if append:
            l = x.setdefault(path[-1], [])
            if not isinstance(l, list):
                return False
            l.append(value)
        else:
            if path[-1] in x:
                return False
            x[path[-1]] = value
        out, d = self.run(p)
        if out == "ok":
            self.patch = p
            self.dev = d
            self.steps = getattr(self, "steps", 0) + 1
            if point is not None:
                self.obs[point] = d
            return True
        if out != "err" or self.nerr < self.prof.get("max_err", 2):
            self.nerr += 1
            self.cases.append(self.case(p, out, d, "e%d" % self.nerr))
        return False

    # ---- small values
    def iv(self, v):
        """an integer in one of its notations"""
        R = self.R
        if not some(R, self.prof.get("forms", 0.15)):
            return v
        k = R.randrange(11)
        if k == 0:
            return str(v)
        if k == 1:
            return "0x%x" % v
        if k == 2:
            return "0X%X" % v
        if k == 3 and v < 2 ** 20:
            return "0b" + bin(v)[2:]
        if k == 4 and v < 2 ** 20:
            return "#" + bin(v)[2:]
        if k == 5:
            return Raw("0x%X" % v, S.node(v))
        if k == 6:
            return Raw("0o%o" % v, S.node(v))
        if k == 7 and v < 2 ** 20:
            return Raw("0b" + bin(v)[2:], S.node("0b" + bin(v)[2:]))
        if k == 8 and v >= 16:
            t = "0x%X" % v
            return t[:3] + "_" + t[3:]
        if k == 9 and v >= 10:
            t = str(v)
            return t[:1] + "_" + t[1:]
        if k == 10 and v < 2 ** 20:
            b = bin(v)[2:].replace("0", "x", 1)
            return R.choice(["0b", "#"]) + b
        return v

    def bad_int(self):
        return self.R.choice(["zz", "0xg", "", "12h", True, None, [], "0b2", "-", "1.5", "0x", " 3"])

    def bv(self, b):
        R = self.R
        if not some(R, self.prof.get("forms", 0.15)):
            return b
        t = "true" if b else "false"
        return R.choice([t, t.capitalize(), int(b), Raw(t.capitalize(), S.node(b)), Raw(t.upper(), S.node(b)),
                         R.choice(["yes", 2, "1", "TRUE"]) if some(R, 0.3) else b])

    def desc(self):
        R = self.R
        if some(R, self.prof.get("paths", 0.08)):
            return R.choice(["In `peripheral`", "`peripheral`: `register` bit", "at `block_path`.", "`register_path`!",
                             "`block_path` `register_path` `peripheral`", "`registers` `peripheral"])
        return R.choice(["New text", "Some other description", "D1", "", "Second", "with <tag> & \"quotes\""])

    # ---- name specifications
    def spec(self, names, miss=None, opt=None):
        R = self.R
        miss = self.prof.get("miss", 0.06) if miss is None else miss
        opt = self.prof.get("opt", 0.08) if opt is None else opt
        names = list(dict.fromkeys(names))
        if not names or some(R, miss):
            s = R.choice(["NOPE", "ZZ*", "Q?", "NO[0-9]", "AA,BB", "{NX,NY}"])
            return "?~" + s if some(R, 0.55) else s
        n = R.choice(names)
        plain = n.replace("[%s]", "*")
        k = R.random()
        g = self.prof.get("glob", 0.5)
        if k > g:
            s = plain
        else:
            j = R.randrange(9)
            m = R.choice(names).replace("[%s]", "*")
            d = find_digit(R, plain)
            if j == 0:
                s = plain + R.choice([",", ",", ",", ",", ", ", " ,"]) + m
            elif j == 1:
                c = R.randrange(1, len(plain) + 1)
                s = plain[:c] + "*"
            elif j == 2:
                c = R.randrange(0, len(plain))
                s = "*" + plain[c:]
            elif j == 3 and d:
                s = plain[:d.start()] + "?" + plain[d.end():]
            elif j == 4 and d:
                s = plain[:d.start()] + R.choice(["[0-3]", "[1-2]", "[012]", "[!0]", "[0-9]", "[%s]" % d.group()]) + plain[d.end():]
            elif j == 5 and "*" not in plain and "*" not in m:
                s = "{%s,%s}" % (plain, m)
            elif j == 6 and d:
                s = plain[:d.start()] + "{%s,7}" % d.group() + plain[d.end():]
            elif j == 7:
                s = "*"
            elif j == 8:
                c = R.randrange(0, len(plain))
                s = plain[:c] + "?" + plain[c + 1:]
            else:
                s = plain
        if some(R, 0.04):
            s = s + "," + "NOPE"
        if some(R, opt):
            s = "?~" + s
        return s

    def token_spec(self, names, opt=None):
        """a specification with one index token"""
        R = self.R
        cand = [n for n in names if re.search(r"\d", n)]
        if not cand or some(R, 0.08):
            return self.spec(names)
        n = R.choice(cand)
        d = find_digit(R, n)
        fam = sorted(m for m in names if len(m) == len(n) and m[:d.start()] == n[:d.start()] and m[d.end():] == n[d.end():])
        ds = [m[d.start()] for m in fam]
        j = R.randrange(6)
        if j <= 1:
            t = "?"
        elif j == 2:
            t = "*"
        elif j == 3 and all(x.isdigit() for x in ds):
            t = "[%s-%s]" % (min(ds), max(ds))
        elif j == 4 and all(x.isdigit() for x in ds):
            t = "[" + "".join(ds) + "]"
        else:
            t = "?"
        s = n[:d.start()] + t + n[d.end():]
        if some(R, self.prof.get("opt", 0.08) if opt is None else opt):
            s = "?~" + s
        return s

    # ---- attribute maps
    def pick(self, table, lo=1, hi=3):
        R = self.R
        ks = list(table)
        R.shuffle(ks)
        h = {}
        for k in ks[:R.randrange(lo, hi + 1)]:
            v = table[k]()
            if some(R, self.prof.get("bad", 0.02)):
                v = R.choice([self.bad_int(), {}, "zz", 5, ["a"]])
            if isinstance(v, tuple):
                for a, b in v:
                    h[a] = b
            else:
                h[k] = v
        return h

    def wcv(self, wd=8):
        R = self.R
        hi = R.randrange(2 ** min(wd, 16))
        lo = R.randrange(hi + 1)
        k = R.random()
        if k < 0.6:
            return [self.iv(lo), self.iv(hi)]
        if k < 0.75:
            return "enum"
        if k < 0.9:
            return "none"
        if k < 0.95:
            return [self.iv(hi), self.iv(lo)]
        return R.choice(["bad", 4, {}])

    def wckey(self):
        return self.R.choice(["_write_constraint", "_write_constraint", "writeConstraint"])

    def bits(self, off=None, wd=None):
        R = self.R
        off = R.randrange(0, 28) if off is None else off
        wd = R.choice([1, 1, 2, 3, 4]) if wd is None else wd
        k = R.randrange(3)
        if k == 0:
            return (("bitOffset", self.iv(off)), ("bitWidth", self.iv(wd)))
        if k == 1:
            return (("lsb", self.iv(off)), ("msb", self.iv(off + wd - 1)))
        return (("bitRange", "[%d:%d]" % (off + wd - 1, off)),)

    def dims(self, full=False, bits=False):
        R = self.R
        n = R.choice([1, 2, 3])
        h = [("dim", self.iv(n)), ("dimIncrement", self.iv(R.choice([1, 2, 4] if bits else [4, 8, 16])))]
        if some(R, 0.4):
            h.append(("dimIndex", R.choice(["0-%d" % (n - 1), ",".join("ABCD"[:n]), [str(i) for i in range(n)],
                                            "A-%s" % "ABCD"[n - 1], "1-%d" % n, "3-1" if some(R, 0.1) else "5"])))
        if some(R, 0.12):
            h.append(("dimName", R.choice(["DimNm", ""])))
        if some(R, 0.12):
            h.append(("dimArrayIndex", dict([("headerEnumName", "HdrE")] * R.randrange(2) +
                                            [("Elt%d" % i, [self.iv(i), R.choice(["First", ""])]) for i in range(n)])))
        if not full and some(R, 0.3):
            R.shuffle(h)
            h = h[:R.randrange(1, len(h) + 1)]
        return tuple(h)

    def field_mod(self, f=None, others=()):
        R = self.R
        wd = f["w"] if f else 4
        t = {"description": self.desc,
             "access": lambda: R.choice(ACC + [""] if some(R, 0.97) else ["bogus"]),
             "name": lambda: R.choice(["NEWF", "FF%s" % ("" if not (f and f["dim"]) else "%s")]),
             "bits": self.bits,
             "bitOffset": lambda: self.iv(R.randrange(0, 20)),
             "bitWidth": lambda: self.iv(R.choice([1, 2, 4, 0] if some(R, 0.2) else [1, 2, 4])),
             "modifiedWriteValues": lambda: R.choice(MWV + ["bogus"]),
             "readAction": lambda: R.choice(RA + ["bogus"]),
             "wc": lambda: ((self.wckey(), self.wcv(wd)),)}
        if others and some(R, 0.15):
            t["derivedFrom"] = lambda: R.choice(list(others))
        if (f and f["dim"]) or some(R, 0.03):
            t["dims"] = lambda: self.dims(bits=True)
        return self.pick(t)

    def prop_vals(self):
        R = self.R
        sz = R.choice([8, 16, 32, 64])
        return {"size": lambda: self.iv(sz), "access": lambda: R.choice(ACC + [""] if some(R, 0.97) else ["bogus"]),
                "resetValue": lambda: self.iv(R.randrange(2 ** (sz if some(R, 0.8) else 40) if sz < 64 else 2 ** 40)),
                "resetMask": lambda: self.iv(R.randrange(2 ** (sz if sz < 63 else 62)))}

    def reg_mod(self, r=None, others=()):
        R = self.R
        t = {"description": self.desc, "displayName": lambda: R.choice(["DISP", ""]),
             "name": lambda: R.choice(["NEWR", "RR"]) + ("%s" if r and r["dim"] else ""),
             "addressOffset": lambda: self.iv(4 * R.randrange(0, 32)),
             "alternateGroup": lambda: R.choice(["AG", ""]),
             "alternateRegister": lambda: R.choice(list(others) or ["X"]) if some(R, 0.8) else ""}
        t.update(self.prop_vals())
        if some(R, 0.15):
            t["wc"] = lambda: ((self.wckey(), self.wcv()),)
        if some(R, 0.12):
            t["fields"] = lambda: self.new_fields() if some(R, 0.8) else {}
        if others and some(R, 0.12):
            t["derivedFrom"] = lambda: R.choice(list(others))
        if (r and r["dim"]) or some(R, 0.03):
            t["dims"] = lambda: self.dims()
        return self.pick(t, 1, 4)

    def clu_mod(self, c=None):
        R = self.R
        t = {"description": self.desc, "name": lambda: "NEWC" + ("%s" if c and c["dim"] else ""),
             "addressOffset": lambda: self.iv(4 * R.randrange(0, 32))}
        t.update(self.prop_vals())
        if some(R, 0.15):
            t["registers"] = self.new_regs
        if (c and c["dim"]) or some(R, 0.03):
            t["dims"] = lambda: self.dims()
        return self.pick(t)

    def new_field(self):
        R = self.R
        h = dict(self.bits()) if some(R, 0.95) else {}
        if some(R, 0.7):
            h["description"] = self.desc()
        if some(R, 0.3):
            h["access"] = R.choice(ACC)
        if some(R, 0.15):
            h["modifiedWriteValues"] = R.choice(MWV)
        if some(R, 0.15):
            h["readAction"] = R.choice(RA)
        if some(R, 0.15):
            h[self.wckey()] = self.wcv(2)
        if some(R, 0.12):
            h.update(dict(self.dims(True, True)))
        if some(R, 0.05):
            h["derivedFrom"] = "EN0"
        return h

    def new_fields(self):
        return {n: self.new_field() for n in self.R.sample(["NF0", "NF1", "NF2", "NG"], self.R.randrange(1, 3))}

    def new_reg(self, off=None):
        R = self.R
        h = {"addressOffset": self.iv(4 * R.randrange(0, 24) if off is None else off)}
        if some(R, 0.04):
            del h["addressOffset"]
        h.update(self.pick(self.prop_vals(), 0, 3))
        if some(R, 0.7):
            h["description"] = self.desc()
        if some(R, 0.2):
            h["displayName"] = "DN"
        if some(R, 0.1):
            h["alternateRegister"] = "CR1"
        if some(R, 0.1):
            h["alternateGroup"] = "AGR"
        if some(R, 0.3):
            h["fields"] = self.new_fields()
        if some(R, 0.15):
            h.update(dict(self.dims(True)))
        if some(R, 0.06):
            h[self.wckey()] = self.wcv()
        if some(R, 0.04):
            h["derivedFrom"] = "CR1"
        return h

    def new_regs(self):
        return {n: self.new_reg() for n in self.R.sample(["NR0", "NR1", "NR2"], self.R.randrange(1, 3))}

    def new_clu(self):
        R = self.R
        h = {"addressOffset": self.iv(4 * R.randrange(0, 24)), "registers": self.new_regs()}
        if some(R, 0.06):
            del h[R.choice(list(h))]
        if some(R, 0.7):
            h["description"] = self.desc()
        h.update(self.pick(self.prop_vals(), 0, 1))
        if some(R, 0.2):
            h.update(dict(self.dims(True)))
        return h

    def new_int(self):
        h = {"value": self.iv(self.R.randrange(0, 60)), "description": self.desc()}
        if some(self.R, 0.1):
            del h[self.R.choice(list(h))]
        return h

    # ---- enumerated values
    def enum_vals(self, wd, bad=0.05):
        R = self.R
        n = R.randrange(1, 4)
        top = 2 ** min(wd, 4)
        vals = R.sample(range(top), min(n, top))
        if some(R, 0.15):
            vals.append(-1)
        h = {}
        for i, v in enumerate(vals):
            name = R.choice(["Disabled", "Enabled", "Div", "Ch", "Fast"]) + str(i)
            h[name] = [self.iv(v) if v >= 0 else v, R.choice(["text %d" % i, ""]) if some(R, 0.9) else ""]
        if some(R, bad):
            k = R.randrange(5)
            if k == 0:
                h["1st"] = [0, "x"]
            elif k == 1 and h:
                h["Dup"] = list(h.values())[0]
            elif k == 2:
                h["Short"] = [1]
            elif k == 3:
                h["Big"] = [2 ** wd, "too big"]
            else:
                return {}
        if some(R, 0.2):
            h["_name"] = R.choice(["NAMED", "MODEV"])
        return h

    def field_rule(self, fs, wd):
        R = self.R
        k = R.random()
        if some(R, self.prof.get("acts", 0.0)):
            k = 0.55 + 0.45 * R.random()
        names = [e["n"][0] for f in fs for e in f["evs"] if e["n"]]
        if k < 0.35:
            v = self.enum_vals(wd)
        elif k < 0.45:
            v = {"_replace_enum": self.enum_vals(wd)}
        elif k < 0.55:
            v = {"_derivedFrom": R.choice(names or ["EVA"])}
            if some(R, 0.1):
                v = {"_replace_enum": v}
        elif k < 0.85:
            v = {}
            for keys, p in ((["_read", "_read", "_RM", "_RS", "_RC", "_RME"], 0.6),
                            (["_write", "_write", "_WM", "_WS", "_WC", "_W1S", "_W0C", "_W1C", "_W0S", "_W1T", "_W0T"], 0.7)):
                if some(R, p):
                    key = R.choice(keys)
                    b = self.enum_vals(wd) if some(R, 0.6) or key in ("_read", "_write") else {}
                    if some(R, 0.15):
                        b = {"_derivedFrom": R.choice(names or ["EVA"])}
                    if some(R, 0.2):
                        b = {"_replace_enum": b}
                    v[key] = b
                    if some(R, 0.1) and key not in ("_read", "_write"):      # the values apart from the action
                        v = dict(v, **{key: {}, "_read" if key[:2] == "_R" else "_write": b})
            if not v:
                v = {"_write": self.enum_vals(wd)}
            if some(R, 0.1):
                v = dict(reversed(list(v.items())))
        else:
            hi = R.randrange(2 ** min(wd, 10))
            lo = R.randrange(hi + 1)
            v = [self.iv(lo), self.iv(hi)]
            if some(R, 0.05):
                v = R.choice([[lo], [1, 2, 3], "text", ["a", 1]])
        return v

    # ---- register rules
    REG_W = {"_delete": 1, "_strip": 1, "_strip_end": 1, "_prefix": 1, "_suffix": 1, "_clear": 1, "_modify": 2,
             "_add": 2, "_derive": 2, "_merge": 2, "_split": 2, "fields": 4, "_array": 3}
    REG_PH = ["_delete", "_strip", "_strip_end", "_prefix", "_suffix", "_clear", "_modify", "_add", "_derive",
              "_merge", "_split", "fields", "_array"]

    def affix(self, names, end):
        R = self.R
        n = R.choice(list(names) or ["AB"])
        c = R.randrange(1, max(2, min(4, len(n))))
        s = n[-c:] if end else n[:c]
        s = s.replace("[", "").replace("]", "").replace("%", "") or "X"
        k = R.random()
        if k < 0.55:
            pass
        elif k < 0.65:
            s = ("*" + s[-1]) if not end else (s[0] + "*")
        elif k < 0.75:
            s = re.sub(r"\d", "?", s)
        elif k < 0.82:
            s = re.sub(r"\d", "[0-9]", s)
        elif k < 0.88:
            s = "?" * min(len(s), 2)
        elif k < 0.93:
            s = "*"
        else:
            s = "{%s,QQ}" % s
        return s

    def reg_entry(self, sec, r, block):
        """(path below the rule, value, append) for section sec of a rule for register r"""
        R = self.R
        fs = r["fs"][0] if r["fs"] else []
        names = [f["n"] for f in fs]
        pickf = lambda s: next((f for f in fs if s == f["n"]), R.choice(fs) if fs else None)
        if sec == "_delete":
            return [sec], self.spec(names), True
        if sec in ("_strip", "_strip_end"):
            return [sec], self.affix(names, sec == "_strip_end"), True
        if sec in ("_prefix", "_suffix"):
            return [sec], R.choice(["P_", "X", "N0"]), False
        if sec == "_clear":
            return [sec], self.spec(names), True
        if sec == "_modify":
            s = self.spec(names)
            return [sec, s], self.field_mod(pickf(s), names), False
        if sec == "_add":
            n = R.choice(names) if names and some(R, 0.06) else R.choice(["ADDED", "NEWA", "EXTRA0", "EXTRA1", "AR%s"])
            h = self.new_field()
            if "%s" in n:
                h.update(dict(self.dims(True, True)))
            return [sec, n], h, False
        if sec == "_derive":
            src = R.choice(names or ["EN0"])
            if some(R, 0.25):
                o = R.choice(block) if block else r
                of = [f["n"] for f in (o.get("fs") or [[]])[0]] if o["k"] == "r" and o["fs"] else names
                src = o["n"] + "." + R.choice(of or ["EN0"])
                if some(R, 0.3):
                    src = "CL." + src
            to = self.spec(names) if some(R, 0.75) else R.choice(["DER", "DER2", "BAD-NAME"])
            if some(R, 0.5):
                return [sec, to], src, False
            h = {"_from": src}
            h.update(self.field_mod(pickf(to), ()))
            if some(R, 0.6):
                h.update(dict(self.bits()))
            if some(R, 0.05):
                del h["_from"]
            return [sec, to], h, False
        if sec == "_merge":
            k = R.random()
            plain = [f["n"] for f in fs if not f["dim"]]
            if any(f["dim"] for f in fs):
                # arrays of fields are not merged here: only exact names
                plain = plain or ["NOPE"]
                v = R.sample(plain, min(len(plain), R.choice([1, 2, 2, 3])))
                return [sec, R.choice(["MERGED", "MG"])], v, False
            if k < 0.35 and not self.patched(sec):
                return [sec], self.spec(plain), "list"
            if k < 0.5:
                return [sec, R.choice(["MERGED", "MG"])], self.spec(plain), False
            v = [self.spec(plain) for _ in range(R.choice([1, 2, 2]))]
            return [sec, R.choice(["MERGED", "MG"])], v, False
        if sec == "_split":
            s = self.spec([f["n"] for f in fs if f["w"] > 1] or names, miss=0.08)
            if some(R, 0.3) and not self.patched(sec):
                return [sec], s, "list"
            h = {}
            if some(R, 0.5):
                h["name"] = R.choice(["SP%s", "B%s_X", "%sBIT"])
            if some(R, 0.4):
                h["description"] = R.choice(["Bit %s of it", "no index", "%s and %s", ""])
            return [sec, s], h, False
        if sec == "fields":
            s = self.spec(names)
            f = pickf(s)
            return [s], self.field_rule(fs, f["w"] if f else 1), False
        if sec == "_array":
            s = self.token_spec([f["n"] for f in fs if not f["dim"]])
            h = {}
            if some(R, 0.3):
                h["description"] = R.choice(["Flag %s", "_original", ""])
            if some(R, 0.25):
                h["name"] = R.choice(["ARR%s", "LST[%s]"])
            if some(R, 0.15):
                h["_start_from_zero"] = R.choice(["", True])
            return [sec, s], h, False
        raise AssertionError(sec)

    def patched(self, sec):
        return False

    def secs(self, order, weights, n):
        """n sections in processing order, with repetition counted as several entries"""
        c = [wchoice(self.R, weights) for _ in range(n)]
        return sorted(c, key=order.index)

    def reg_w(self):
        w = dict(self.REG_W)
        if "reg" in self.prof and not some(self.R, self.prof.get("broad", 0.2)):
            w = self.prof["reg"]
        return w

    def grow_reg(self, path, spec, getblock, point):
        R = self.R
        for sec in self.secs(self.REG_PH, self.reg_w(), R.choice([1, 1, 2, 2, 3])):
            block = getblock(self.dev)
            if block is None:
                return
            regs = [x for x in block if x["k"] == "r" and match_simple(spec, x["n"])]
            if not regs:
                regs = [x for x in block if x["k"] == "r"]
            if not regs:
                return
            r = regs[0]
            p, v, app = self.reg_entry(sec, r, block)
            self.add_entry(path, p, v, app, point)

    def add_entry(self, path, p, v, app, point):
        if app == "list":
            cur = self.patch
            for k in path + p:
                cur = cur.get(k) if isinstance(cur, dict) else None
                if cur is None:
                    break
            if cur is not None and not isinstance(cur, list):
                return False
            return self.attempt(path + p, v, True, point)
        cur = self.patch
        for k in path + p[:-1]:
            cur = cur.get(k) if isinstance(cur, dict) else None
            if cur is None:
                break
        if cur is not None and not isinstance(cur, dict):
            return False
        return self.attempt(path + p, v, bool(app), point)

    # ---- block rules
    BLK_W = {"_delete": 1, "_copy": 1, "_strip": 1, "_strip_end": 1, "_prefix": 1, "_suffix": 1, "_modify": 2,
             "_clear_fields": 1, "_add": 2, "_derive": 2, "children": 6, "_expand_array": 1, "_array": 3,
             "_cluster": 2, "_clusters": 2, "_expand_cluster": 1}
    PER_PH = ["_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify", "_clear_fields", "_add",
              "_derive", "children", "_expand_array", "_array", "_cluster", "_clusters", "_expand_cluster"]
    CLU_PH = ["_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify", "_clear_fields", "_add",
              "_derive", "_clusters", "children", "_expand_array", "_array", "_cluster"]

    def body_sample(self, kids, deep=True):
        """register level rules without guidance (for collected arrays and clusters)"""
        R = self.R
        h = {}
        regs = [x for x in kids if x["k"] == "r"]
        if not regs or not some(R, 0.35):
            return h
        r = R.choice(regs)
        for sec in self.secs(self.REG_PH, self.reg_w(), R.choice([1, 1, 2])):
            p, v, app = self.reg_entry(sec, r, kids)
            x = h
            ok = True
            for k in p[:-1]:
                x = x.setdefault(k, {})
                if not isinstance(x, dict):
                    ok = False
                    break
            if not ok:
                continue
            if app:
                l = x.setdefault(p[-1], [])
                if isinstance(l, list):
                    l.append(v)
            elif p[-1] not in x:
                x[p[-1]] = v
        return h

    def cluster_entry(self, kids):
        R = self.R
        regs = [x for x in kids if x["k"] == "r"]
        if not regs:
            return None
        if some(R, 0.25):
            name = R.choice(["GRPX", "INNER"])
            if some(R, 0.1):
                name = R.choice(regs)["n"]
            sp = list(dict.fromkeys(R.choice(regs)["n"] for _ in range(R.choice([1, 2, 3]))))
            rules = {s.replace("[%s]", "*"): {} for s in sp}
        else:
            name = R.choice(["CHN%s", "CLX[%s]", "U%s_"])
            cand = [x["n"] for x in regs if re.search(r"\d", x["n"])]
            if not cand:
                return None
            n = R.choice(cand)
            d = find_digit(R, n)
            pre = n[:d.start()]
            tails = list(dict.fromkeys(x["n"][d.end():] for x in regs
                                       if x["n"].startswith(pre) and x["n"][d.start():d.start() + 1].isdigit()))
            R.shuffle(tails)
            tails = tails[:R.choice([1, 2, 3])]
            t = R.choice(["?", "?", "*" if len(tails) == 1 else "?", "[0-9]", "[0-3]"])
            rules = {pre + t + x: {} for x in tails}
            if some(R, 0.1):
                rules[self.token_spec([x["n"] for x in regs])] = {}
        for s in list(rules):
            b = self.body_sample([x for x in regs if match_simple(s, x["n"])] or regs)
            if some(R, 0.25):
                b["name"] = R.choice(["REGA", "REGB", "REGC"])
            if some(R, 0.25):
                b["description"] = R.choice(["Text", "", "`peripheral` x"])
            rules[s] = b
        h = {}
        if some(R, 0.5):
            h["description"] = R.choice(["Cluster text", ""])
        if some(R, 0.2):
            h["dimIncrement"] = self.iv(R.choice([4, 8, 16, 32]))
        if some(R, 0.08):
            rules["?~NOPE?"] = {}
        if some(R, 0.04):
            rules["NOPE?"] = {}
        h.update(rules)
        if some(R, 0.1):
            h[R.choice(["_prefix", "_suffix"])] = "Z"
        if some(R, 0.05):
            h["_strip"] = "C"
        if some(R, 0.05):
            h["_modify"] = {R.choice(["?~*", "*"]): self.reg_mod()}
        if some(R, 0.3):
            its = list(h.items())
            R.shuffle(its)
            h = dict(its)
        return name, h

    def blk_entry(self, sec, kids, ints, top):
        R = self.R
        regs = [x for x in kids if x["k"] == "r"]
        clus = [x for x in kids if x["k"] == "c"]
        rn, cn = [x["n"] for x in regs], [x["n"] for x in clus]
        n_in = [i["n"] for i in ints]
        byname = lambda l, s: next((x for x in l if match_simple(s, x["n"])), None)
        if sec == "_delete":
            k = R.random()
            if k < 0.55:
                return [sec], self.spec(rn + cn), "list"
            if k < 0.7 or not (clus or ints):
                return [sec, "_registers"], self.spec(rn), True
            if k < 0.85 and clus:
                return [sec, "_clusters"], self.spec(cn), True
            if ints and top:
                return [sec, "_interrupts"], self.spec(n_in), True
            return [sec], self.spec(rn + cn), "list"
        if sec == "_copy":
            to = R.choice(rn) if rn and some(R, 0.3) else R.choice(["COPY1", "COPY2"])
            h = {"_from": R.choice(rn) if rn and some(R, 0.93) else "NOPE"}
            h.update(self.reg_mod(None, rn) if some(R, 0.7) else {"addressOffset": self.iv(4 * R.randrange(10, 40))})
            h.pop("name", None)
            return ([sec, "_registers", to] if some(R, 0.25) else [sec, to]), h, False
        if sec in ("_strip", "_strip_end"):
            return [sec], self.affix(rn + cn, sec == "_strip_end"), True
        if sec in ("_prefix", "_suffix"):
            return [sec], R.choice(["P_", "X", "N0"]), False
        if sec == "_modify":
            k = R.random()
            if k < 0.55 or not (clus or ints):
                s = self.spec(rn)
                return [sec, s], self.reg_mod(byname(regs, s), rn), False
            if k < 0.65:
                s = self.spec(rn)
                return [sec, "_registers", s], self.reg_mod(byname(regs, s), rn), False
            if k < 0.85 and clus:
                s = self.spec(cn)
                p = [sec, "_clusters", s] if some(R, 0.5) else [sec, s]
                return p, self.clu_mod(byname(clus, s)), False
            if ints and top:
                s = self.spec(n_in)
                h = self.pick({"name": lambda: R.choice(["NEWI", "IRQ"]), "description": self.desc,
                               "value": lambda: self.iv(R.randrange(0, 90))})
                return [sec, "_interrupts", s], h, False
            s = self.spec(rn + cn)
            return [sec, s], self.reg_mod(byname(regs, s), rn), False
        if sec == "_clear_fields":
            return [sec], self.spec(rn + [x["n"] for c in clus for x in c["ch"]]), True
        if sec == "_add":
            k = R.random()
            if k < 0.6:
                n = R.choice(rn) if rn and some(R, 0.08) else R.choice(["ADDR", "NEW1", "NEW2", "NEW3"])
                h = self.new_reg()
                if "dim" in h:
                    n = n + "%s"
                return ([sec, "_registers", n] if some(R, 0.2) else [sec, n]), h, False
            if k < 0.82:
                n = R.choice(cn) if cn and some(R, 0.1) else R.choice(["ADDC", "NC1"])
                h = self.new_clu()
                if "dim" in h:
                    n = n + "%s"
                return [sec, "_clusters", n], h, False
            if top:
                n = R.choice(n_in) if n_in and some(R, 0.15) else R.choice(["NINT", "NINT2"])
                return [sec, "_interrupts", n], self.new_int(), False
            return [sec, "NEW4"], self.new_reg(), False
        if sec == "_derive":
            src = R.choice(rn or ["CR1"])
            if some(R, 0.2):
                src = R.choice(["TIM1.", "UART1.", "CL%s."] + [c["n"] + "." for c in clus]) + src
            elif some(R, 0.05):
                src = "NOPE"
            to = self.spec(rn) if some(R, 0.6) else R.choice(["DERR", "DERR2", "BAD-NAME", "DERA%s"])
            base = re.sub(r"^\?~", "", to)
            if some(R, 0.35):
                v = src
            else:
                v = {"_from": src}
                v.update(self.reg_mod(None, ()))
                if some(R, 0.7):
                    v["addressOffset"] = self.iv(4 * R.randrange(10, 40))
                if "%s" in to:
                    v.update(dict(self.dims(True)))
                if some(R, 0.04):
                    del v["_from"]
            if match_simple(base, src):
                return None
            return ([sec, "_registers", to] if some(R, 0.2) else [sec, to]), v, False
        if sec == "_expand_array":
            arr = [x["n"] for x in regs if x["dim"]]
            return [sec, self.spec(arr or rn)], {}, False
        if sec == "_array":
            s = self.token_spec(rn)
            m = [x for x in regs if match_simple(s, x["n"])]
            h = self.body_sample(m or kids)
            if some(R, 0.3):
                h["description"] = R.choice(["Word %s", "_original", ""])
            if some(R, 0.2):
                h["displayName"] = R.choice(["DW%s", "_original", ""])
            if some(R, 0.25):
                h["name"] = R.choice(["ARR%s", "LST[%s]"])
            if some(R, 0.15):
                h["_start_from_zero"] = R.choice(["", True])
            if some(R, 0.12):
                h["dimIncrement"] = self.iv(R.choice([4, 8]))
            return [sec, s], h, False
        if sec == "_cluster":
            e = self.cluster_entry(kids)
            if e is None:
                return None
            return [sec, e[0]], e[1], False
        if sec == "_expand_cluster":
            arr = [x["n"] for x in clus if x["dim"]]
            s = self.spec(arr or cn, miss=0.08)
            h = self.pick({"_preindex": lambda: R.choice(["", "_", "N"]), "_postindex": lambda: R.choice(["", "_", "__"]),
                           "_zeroindex": lambda: self.bv(some(R, 0.6)), "_noprefix": lambda: self.bv(some(R, 0.5))}, 0, 2)
            if not h and some(R, 0.7):
                return [sec], s, "list"
            if some(R, 0.03):
                h["_bogus"] = 1
            return [sec, s], h, False
        raise AssertionError(sec)

    def grow_block(self, path, getblock, getints, phases, weights, n, depth, point):
        R = self.R
        top = depth == 0
        w = {k: v for k, v in weights.items() if k in phases}
        if not w:
            return
        for sec in self.secs(phases, w, n):
            kids = getblock(self.dev)
            if kids is None:
                kids = []
                if sec not in ("_delete", "_add", "_modify") and some(R, 0.8):
                    continue
            regs = [x["n"] for x in kids if x["k"] == "r"]
            clus = [x["n"] for x in kids if x["k"] == "c"]
            pt = point + "/" + sec if (point and top) else point
            if sec in ("children", "_clusters"):
                if sec == "_clusters" and not clus and some(R, 0.9):
                    continue
                s = self.spec(clus if sec == "_clusters" else (regs + clus if some(R, 0.5) else regs))
                sub = path + ([sec, s] if sec == "_clusters" else [s])
                if s in (self.at_path(path) or {}) or self.at_path(sub) is not None:
                    continue
                m = [x for x in kids if match_simple(s, x["n"])]
                if sec == "children" and [x for x in m if x["k"] == "r"]:
                    self.grow_reg(sub, s, getblock, pt)
                elif [x for x in m if x["k"] == "c"] and depth < 2:
                    cname = [x for x in m if x["k"] == "c"][0]["n"]
                    self.grow_block(sub, lambda d: next((x["ch"] for x in (getblock(d) or []) if x["k"] == "c" and x["n"] == cname), None),
                                    lambda d: [], self.CLU_PH, self.blk_w("clu"), R.choice([1, 1, 2]), depth + 1, pt)
                else:
                    self.attempt(sub, self.body_sample(kids), False, pt)
                continue
            e = self.blk_entry(sec, kids, getints(self.dev), top)
            if e is None:
                continue
            p, v, app = e
            self.add_entry(path, p, v, app, pt)

    def at_path(self, path):
        x = self.patch
        for k in path:
            if not isinstance(x, dict) or k not in x:
                return None
            x = x[k]
        return x

    def blk_w(self, kind):
        w = dict(self.BLK_W)
        if kind in self.prof and not some(self.R, self.prof.get("broad", 0.2)):
            w = self.prof[kind]
        return w

    # ---- device rules
    DEV_W = {"_delete": 1, "_copy": 1, "_modify": 2, "_clear_fields": 0.5, "_add": 1.5, "_derive": 1.5, "_rebase": 1,
             "peripheral": 8}
    DEV_PH = ["_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase", "peripheral"]

    def new_per(self):
        R = self.R
        h = {"baseAddress": self.iv(0x40000000 + 0x400 * R.randrange(0, 12))}
        if some(R, 0.05):
            del h["baseAddress"]
        h.update(self.pick({"description": self.desc, "groupName": lambda: R.choice(["G", ""]),
                            "displayName": lambda: R.choice(["DNP", ""]), "version": lambda: R.choice(["2.0", ""])}, 0, 3))
        if some(R, 0.5):
            h["registers"] = self.new_regs()
        if some(R, 0.4):
            h["addressBlock"] = {"offset": self.iv(0), "size": self.iv(0x400), "usage": R.choice(["registers", "buffer", "bogus"] if some(R, .2) else ["registers"])}
        elif some(R, 0.15):
            h["addressBlocks"] = [{"offset": self.iv(0x10 * i), "size": self.iv(0x10), "usage": "registers"} for i in range(2)]
        if some(R, 0.3):
            h["interrupts"] = {n: self.new_int() for n in R.sample(["I0", "I1", "I2"], R.randrange(1, 3))}
        if some(R, 0.1):
            h.update(self.pick(self.prop_vals(), 1, 2))
        if some(R, 0.08):
            h["derivedFrom"] = R.choice([p["n"] for p in self.dev["pers"]] or ["X"])
        if some(R, 0.06):
            h.update(dict(self.dims(True)))
        return h

    def per_mod(self, p):
        R = self.R
        t = {"description": self.desc, "groupName": lambda: R.choice(["G2", ""]), "displayName": lambda: R.choice(["DNP", ""]),
             "version": lambda: R.choice(["2.0", ""]), "baseAddress": lambda: self.iv(0x40000000 + 0x400 * R.randrange(0, 12))}
        if some(R, 0.5):
            t["name"] = lambda: R.choice(["NEWP", "TIMX"])
        if some(R, 0.4):
            t.update(self.prop_vals())
        if some(R, 0.2):
            t["registers"] = lambda: self.new_regs() if some(R, 0.8) else {}
        if some(R, 0.4):
            t["ab"] = lambda: ((("addressBlock", self.pick({"offset": lambda: self.iv(R.choice([0, 16])), "size": lambda: self.iv(0x80),
                                                            "usage": lambda: R.choice(["registers", "reserved"])}, 1, 3)),)
                               if some(R, 0.6) else
                               (("addressBlocks", [{"offset": self.iv(0x10 * i), "size": self.iv(0x10), "usage": "registers"} for i in range(2)]),))
        if some(R, 0.4):
            names = [i["n"] for i in p["ints"]] if p else []
            t["interrupts"] = lambda: {R.choice(names or ["NOI"]): self.pick({"name": lambda: "IRQX", "description": self.desc,
                                                                             "value": lambda: self.iv(R.randrange(90))})}
        if some(R, 0.08):
            others = [q["n"] for q in self.dev["pers"] if q is not p and not q["df"]]
            if others:
                t["derivedFrom"] = lambda: R.choice(others)
        return self.pick(t)

    CPU_T = {"name": ["CM7", "CM0+"], "revision": ["r1p0"], "endian": ["little", "big", "selectable", "bogus"]}

    def cpu_mod(self):
        R = self.R
        t = {k: (lambda v=v: R.choice(v)) for k, v in self.CPU_T.items()}
        for k in ("mpuPresent", "fpuPresent", "fpuDP", "dspPresent", "icachePresent", "dcachePresent", "itcmPresent",
                  "dtcmPresent", "vtorPresent", "vendorSystickConfig"):
            t[k] = lambda: self.bv(some(R, 0.5))
        for k in ("nvicPrioBits", "deviceNumInterrupts", "sauNumRegions"):
            t[k] = lambda: self.iv(R.randrange(2, 9))
        if not self.dev["cpu"] and some(R, 0.7):
            h = self.pick(t, 0, 3)
            h.update({"name": "CM3", "revision": "r0p0", "endian": "little", "mpuPresent": self.bv(False),
                      "fpuPresent": self.bv(True), "nvicPrioBits": self.iv(4), "vendorSystickConfig": self.bv(False)})
            if some(R, 0.1):
                del h[R.choice(list(h))]
            return h
        return self.pick(t, 1, 4)

    def dev_entry(self, sec):
        R = self.R
        pers = self.dev["pers"]
        names = [p["n"] for p in pers]
        plain = [p["n"] for p in pers if not p["df"]]
        if sec == "_delete":
            return [sec], self.spec(names), True
        if sec == "_clear_fields":
            return [sec], self.spec(names), True
        if sec == "_copy":
            to = R.choice(names) if names and some(R, 0.3) else R.choice(["COPYP", "TIM9"])
            src = R.choice(plain) if plain and some(R, 0.92) else "NOPE"
            if self.files and some(R, 0.5):
                f = self.files[0]
                src = f["n"] + ":" + (R.choice([p["n"] for p in f["pers"]] or ["X"]) if some(R, 0.93) else "NOPE")
            elif some(R, 0.02):
                src = "nofile.svd:" + src
            return [sec, to], {"from": src}, False
        if sec == "_modify":
            k = R.random()
            if k < 0.25:
                key, v = R.choice([("vendor", "NV"), ("vendorID", "NVI"), ("name", "NEWDEV"), ("series", "SX"), ("version", "9.9"),
                                   ("description", "New device text"), ("licenseText", "L"), ("headerSystemFilename", "hs"),
                                   ("headerDefinitionsPrefix", "HP_"), ("addressUnitBits", self.iv(8)), ("width", self.iv(R.choice([16, 64]))),
                                   ("size", self.iv(R.choice([16, 32]))), ("access", R.choice(ACC)), ("resetValue", self.iv(R.randrange(99))),
                                   ("resetMask", self.iv(0xFF)), ("protection", "s")])
                return [sec, key], v, False
            if k < 0.4:
                return [sec, "cpu"], self.cpu_mod(), False
            s = self.spec(names)
            p = next((x for x in pers if match_simple(s, x["n"])), None)
            return ([sec, "_peripherals", s] if some(R, 0.15) else [sec, s]), self.per_mod(p), False
        if sec == "_add":
            n = R.choice(names) if names and some(R, 0.08) else R.choice(["NEWP1", "NEWP2", "ADDP"])
            h = self.new_per()
            if "dim" in h:
                n += "%s"
            return [sec, n], h, False
        if sec == "_derive":
            src = R.choice(plain or names or ["X"]) if some(R, 0.93) else R.choice(["NOPE", "TIM1.CR1"])
            cand = [n for n in names if n != src]
            to = R.choice(cand) if cand and some(R, 0.6) else R.choice(["DERP", "DERP2"])
            if some(R, 0.5):
                return [sec, to], src, False
            h = {"_from": src}
            h.update(self.pick({"description": self.desc, "baseAddress": lambda: self.iv(0x50000000), "groupName": lambda: "GD",
                                "interrupts": lambda: {"DI": self.new_int()}, "displayName": lambda: "DD"}, 0, 3))
            if to not in names and some(R, 0.85):
                h["baseAddress"] = self.iv(0x50000000 + 0x400 * R.randrange(4))
            if some(R, 0.04):
                del h["_from"]
            return [sec, to], h, False
        if sec == "_rebase":
            # OLD: the peripheral others derive from;  NEW takes its place
            old = R.choice(plain or ["X"])
            cand = [p["n"] for p in pers if p["n"] != old]
            new = R.choice(cand or ["NOPE"]) if some(R, 0.95) else "NOPE"
            return [sec, new], old, False
        raise AssertionError(sec)

    def grow(self):
        R = self.R
        w = dict(self.DEV_W)
        if "dev" in self.prof and not some(R, self.prof.get("broad", 0.2)):
            w = self.prof["dev"]
        n = R.choice(self.prof.get("items", [1, 2, 2, 3, 3, 4]))
        seen = {}
        for sec in self.secs(self.DEV_PH, w, n):
            if sec == "peripheral":
                names = [p["n"] for p in self.dev["pers"]]
                s = self.spec(names, miss=self.prof.get("pmiss", 0.03), opt=0.04)
                if s in self.patch or s.startswith("_"):
                    continue
                m = [p for p in self.dev["pers"] if match_simple(s, p["n"])]
                if m and m[0]["df"] and some(R, 0.5):
                    alt = [p["n"] for p in self.dev["pers"] if not p["df"]]
                    if not alt or alt[0] in self.patch:
                        continue
                    s = R.choice(alt)
                    if s in self.patch:
                        continue
                    m = [p for p in self.dev["pers"] if p["n"] == s]
                self.nitem += 1
                i = str(self.nitem)
                before = dict(self.obs)
                if not m:
                    if not self.attempt([s], {}, False, i):
                        self.nitem -= 1
                    continue
                name = m[0]["n"]
                get = lambda d: next((p["regs"][0] if p["regs"] else None for p in d["pers"] if p["n"] == name), None)
                gi = lambda d: next((p["ints"] for p in d["pers"] if p["n"] == name), [])
                self.grow_block([s], get, gi, self.PER_PH, self.blk_w("per"),
                                R.choice(self.prof.get("entries", [1, 2, 3, 4])), 0, i if len(m) == 1 else None)
                if s not in self.patch:
                    self.nitem -= 1
                    self.obs = before
                    continue
                # the point after the last section is the point after the item
                mine = [k for k in self.obs if k.startswith(i + "/")]
                if mine:
                    last = max(mine, key=lambda k: self.PER_PH.index(k.split("/")[1]))
                    self.obs[i] = self.obs.pop(last)
                continue
            e = self.dev_entry(sec)
            if e is None:
                continue
            p, v, app = e
            top = self.patch.get(sec)
            # entries of one map key count as one rule
            new_item = app or len(p) < 3 or not (isinstance(top, dict) and p[1] in top)
            if self.add_entry([], p, v, app, None):
                if new_item:
                    self.nitem += 1
                else:
                    self.obs = {}       # recorded before the earlier rule grew
                self.obs[str(self.nitem)] = self.dev

    def finish(self):
        R = self.R
        if self.patch:
            pts = []
            if some(R, self.prof.get("points", 0.3)):
                pts = sorted(self.obs.items())
            out, d = self.run(self.patch, shuffle=some(R, self.prof.get("shuffle", 0.3)))
            self.cases.insert(0, self.case(self.patch, out, d, "ok", pts))
        return self.cases


SECTIONS = ["_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase", "_strip", "_strip_end", "_prefix", "_suffix",
            "_array", "_cluster", "_clusters", "_expand_array", "_expand_cluster", "_clear", "_merge", "_split", "_read", "_write",
            "_RM", "_WM", "_W1C", "_replace_enum", "_derivedFrom", "_name", "_usage", "_interrupts", "_registers", "_cpu", "_peripherals",
            "_peripheral", "_from", "from", "name", "description", "registers", "fields", "interrupts", "addressBlocks", "addressBlock",
            "addressOffset", "bitOffset", "bitWidth", "bitRange", "lsb", "msb", "dim", "dimIncrement", "dimIndex", "dimName",
            "dimArrayIndex", "access", "size", "resetValue", "resetMask", "protection", "writeConstraint", "readAction",
            "modifiedWriteValues", "derivedFrom", "displayName", "baseAddress", "value", "usage", "offset", "cpu", "enumeratedValue",
            "alternateGroup", "alternateRegister", "headerStructName", "A", "A,B", "*", "?~A", "[0-1]"]
JUNK = [0, 1, 7, -1, 2 ** 32, 2 ** 40 + 4, "", "zz", "0x4", "4", True, False, None, [], {}, [1], [0, 3], ["x"], ["x", "y"], {"a": 1}, {"A": {}},
        {"_W": {"A": [0, "d"]}}, {"name": "N"}, {"A": [1, "d"]}, {"A": "x"}, {"A": [0]}, [["x"]], [{}], "A", "*", "none", "read-only",
        Raw("1.5", {"t": "r", "s": "1.5"}), [0, "x"], [3, 0], {"from": "A"}, {"addressOffset": 4}, {"bitOffset": 3, "bitWidth": 1},
        {"description": "d"}]


def spots(v, path=()):
    """(path of) every entry of a patch"""
    if isinstance(v, dict):
        for k, x in v.items():
            yield path + (k,)
            yield from spots(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield path + (i,)
            yield from spots(x, path + (i,))


def at(v, path):
    for k in path:
        v = v[k]
    return v


def mutate(R, patch):
    """the patch with an entry replaced, renamed, removed or repeated"""
    p = copy.deepcopy(patch)
    l = [s for s in spots(p)]
    if not l:
        return None
    s = R.choice(l)
    if R.random() < 0.5:
        s = R.choice([x for x in l if len(x) >= min(2, max(len(x) for x in l))])
    home, k = at(p, s[:-1]), s[-1]
    m = R.randrange(8)
    if m <= 3:
        home[k] = copy.deepcopy(R.choice(JUNK))
    elif m == 4:
        home[k] = copy.deepcopy(at(p, R.choice([x for x in l])))
    elif m == 5:
        del home[k]
    elif isinstance(home, dict):
        keys = SECTIONS + [x[-1] for x in l if isinstance(x[-1], str)] * 2
        k2 = R.choice(keys)
        if m == 6:
            new = {(k2 if a == k else a): b for a, b in home.items() if a == k or a != k2}
            home.clear()
            home.update(new)
        else:
            home[k2] = copy.deepcopy(R.choice(JUNK + [at(p, R.choice(l))]))
    else:
        home.insert(R.randrange(len(home) + 1), copy.deepcopy(R.choice(JUNK)))
    return p


def match_simple(spec, name):
    """Rough matching used only to guide generation."""
    import fnmatch
    s = spec[2:] if spec.startswith("?~") else spec
    alts = []
    if "{" in s:
        m = re.match(r"^(.*?)\{(.*)\}(.*)$", s)
        alts = [m.group(1) + x + m.group(3) for x in m.group(2).split(",")] if m else [s]
    else:
        alts = s.split(",")
    return any(fnmatch.fnmatchcase(name, a) or name == a for a in alts)


def make_cases(seed, prof, tool, cid):
    """All cases of one guided run."""
    R = random.Random(seed)
    g = Gen(R, prof, tool, cid)
    dev = prof["device"](R) if "device" in prof else g_device(R, prof.get("rich", 1.0), prof.get("npers"),
                                                              prof.get("derived", 0.2))
    if some(R, prof.get("files", 0.15)):
        d2 = g_device(R, 0.6, 2)
        with open(tool.cwd + "/other.svd", "w") as f:
            f.write(S.render(d2))
        g.files = [{"n": "other.svd", "pers": S.project(S.render(d2))["pers"]}]
    try:
        g.start(dev)
        try:
            g.grow()
        except (IndexError, KeyError, ValueError, TypeError):
            # the generator met a state it cannot handle: keep what there is
            if os.environ.get("GEN_DEBUG"):
                raise
        g.finish()
        for i in range(prof.get("mutants", 0)):
            p = mutate(R, g.patch)
            while p is not None and some(R, 0.3):
                p = mutate(R, p)
            if p is None or not globs_ok(p) or len(json.dumps(ymap(p))) > 20000:
                continue
            out, d = g.run(p)
            g.cases.append(g.case(p, out, d, "m%d" % i))
    except Stop:
        pass
    return g.cases
