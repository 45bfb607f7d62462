"""Studies of command histories: what each command reads, writes and leaves alone."""
import copy
import json
import os
import random
import resource
import shutil
import signal
import subprocess

import yaml

import gen
import study_inc
import study_view as V
import svdjson
import svdlib as S

FMT = {"svd": "svd", "SVD": "svd", "xml": "svd", "XML": "svd", "yml": "yaml", "yaml": "yaml", "YAML": "yaml",
       "json": "json", "JSON": "json"}
JUNK = ["<oops", "<device><name>x</device>", "[1, 2", "\u00e9\u00e8 nothing of use", "- a\n- b\n"]


def explicit(dev):
    """write every index out (what reading JSON and YAML needs)"""
    def one(x):
        if x["dim"] and not x["dim"][0]["ix"]:
            x["dim"][0]["ix"] = [["%d" % i for i in range(x["dim"][0]["n"])]]
    for p in dev["pers"]:
        one(p)
        for x in V.walk(p["regs"][0] if p["regs"] else []):
            one(x)
            for f in (x["fs"][0] if x["k"] == "r" and x["fs"] else []):
                one(f)
    return dev


def text_of(v):
    if v["k"] == "dev":
        return S.render(v["dev"]) if v["fmt"] == "svd" else svdjson.render(v["dev"], v["fmt"])
    if v["k"] == "patch":
        return v["text"]
    if v["k"] == "cfg":
        return json.dumps(dict(v["m"])) if v["fmt"] == "json" else yaml.safe_dump(dict(v["m"]))
    return v["text"]


def read(text, where):
    """abstract contents of a file the tool wrote; `where`: its directory and the scratch root"""
    if text.lstrip().startswith("<"):
        try:
            return {"k": "dev", "fmt": "svd", "dev": S.project(text)}
        except S.Shape as e:
            return {"k": "junk", "why": str(e)[:100]}
    for fmt in ("json", "yaml"):
        try:
            return {"k": "dev", "fmt": fmt, "dev": svdjson.project(text, fmt)}
        except S.Shape:
            pass
    if text.startswith("---\n"):
        try:
            y = study_inc.strip_paths(study_inc.from_yaml(text), where)
        except yaml.YAMLError:
            return {"k": "junk"}
        if y["t"] == "m":
            return {"k": "patch", "m": no_paths(y)["m"]}
    if ":" in text and text.endswith("\n") and text.count("\n") == 1:
        head, rest = text[:-1].split(":", 1)
        return {"k": "deps", "l": [os.path.relpath(x, where) for x in rest.split(" ") if x]}
    return {"k": "junk"}


def no_paths(y):
    if y["t"] == "m":
        y["m"] = [kv for kv in y["m"] if kv[0] != "_path"]
        for kv in y["m"]:
            no_paths(kv[1])
    elif y["t"] == "a":
        for v in y["a"]:
            no_paths(v)
    return y


# ------------------------------------------------------------------ patches
def g_patch(R, dev, ref, other):
    """(value) of a patch for a device, often failing after something was already done"""
    m = {}
    if R.random() < 0.95:
        m["_svd"] = ref
    plain = [p for p in dev["pers"] if p["regs"] and not p["df"] and not p["dim"]]
    names = [p["n"] for p in dev["pers"]]
    if R.random() < 0.4:
        m["_modify"] = {R.choice(["description", "version", "vendor", "series"]): R.choice(["x y", "A.B", "new text"])}
    if R.random() < 0.3:
        m.setdefault("_modify", {})[R.choice(names + ["GONE"] * 2)] = {"groupName": "G"}
    if R.random() < 0.35:
        m["_add"] = {R.choice(["NEWP", "NEWQ"] + names[:1]): {"description": "added", "baseAddress": 0x50000000 + 0x1000 * R.randrange(9),
                     "registers": {"NR": {"addressOffset": 4 * R.randrange(4), "description": "r"}}}}
    if R.random() < 0.2:
        m["_delete"] = R.choice([[R.choice(names)], ["?~NONE"], ["NONE"]])
    if R.random() < 0.15 and len(names) > 1:
        m["_derive"] = {names[-1]: R.choice(names[:-1])}
    if other and R.random() < 0.25:
        n, d = other
        m["_copy"] = {R.choice(["CP1", "CP2"]): {"from": n + ":" + R.choice([p["n"] for p in d["pers"]] + ["GONE"])}}
    for p in R.sample(plain, min(len(plain), R.choice([0, 1, 1, 2]))):
        h = {}
        regs = [x for x in p["regs"][0] if x["k"] == "r" and not x["dim"]]
        if R.random() < 0.3:
            h["_add"] = {R.choice(["ADDED"] + [x["n"] for x in regs[:1]]): {"description": "r", "addressOffset": 0x80}}
        if regs and R.random() < 0.4:
            h["_delete"] = [R.choice(regs)["n"]]
        if regs and R.random() < 0.4:
            h["_modify"] = {R.choice(regs)["n"]: {"description": "modified", "size": R.choice([8, 16, 32])}}
        if regs and R.random() < 0.3:
            x = R.choice(regs)
            fs = x["fs"][0] if x["fs"] else []
            h[x["n"]] = {R.choice([f["n"] for f in fs] or ["NOF"]): R.choice([[0, 1], {"off": [0, "Off"], "on": [1, "On"]}, "_RO" and {"_W": [0, 3]}])}
        if R.random() < 0.2:
            h["_strip"] = [p["n"][:3] + "_", "R"]
        if h:
            m[p["n"]] = h
    if R.random() < 0.25:
        m[R.choice(["NOSUCH", "?~NOSUCH"])] = {"_delete": ["X"]}
    if not [k for k in m if k != "_svd"]:
        m["_modify"] = {"description": "only this"}
    return m


CFGS = [{"peripheral_base_address": "LowerHex"}, {"register_reset_value": "Dec", "register_address_offset": "Bin"},
        {"field_bit_range": "BitRange"}, {"field_bit_range": "MsbLsb", "dim_dim": "LowerHex"},
        {"enumerated_value_value": "Bin"}, {"register_size": "UpperHex8", "no_such_option": "x"}, {}]


# ------------------------------------------------------------------ histories
def g_history(R):
    fs, devs = {}, {}
    plain = R.random() < 0.3           # only SVD: arrays may leave their indexes open
    for n in ["sub", "dir.svd"]:
        fs[n] = {"k": "dir"}
    pool = ["a.svd", "b.svd", "sub/c.svd", "n.bin", "up.XML"] + ([] if plain else ["d.json", "e.yaml", "f.yml", "sub/g.JSON", "y.bin"])
    for n in R.sample(pool, R.choice([2, 3, 3, 4])):
        d = V.v_device(R, texts=False, many=R.choice([1, 2, 3]))
        if not plain:
            explicit(d)
        fmt = "svd" if n == "n.bin" else "yaml" if n == "y.bin" else FMT[n.rsplit(".", 1)[1]]
        v = {"k": "dev", "fmt": fmt, "dev": d}
        t = text_of(v)
        fs[n] = {"k": "dev", "fmt": fmt, "dev": S.project(t) if fmt == "svd" else svdjson.project(t, fmt), "text": t}
        devs[n] = fs[n]["dev"]
    svds = [n for n in devs if fs[n]["fmt"] == "svd"]
    for n in R.sample(["p.yaml", "q.yaml", "sub/r.yaml"], R.choice([1, 2, 3])):
        src = R.choice((svds or ["a.svd"]) * 4 + ["nothere.svd", "junk.svd"])
        other = R.choice(svds) if svds and "/" not in n else None
        val = g_patch(R, devs[src] if src in devs else R.choice(list(devs.values())), ("../" if "/" in n else "") + src,
                      (other, devs[other]) if other else None)
        t = yaml.safe_dump(val, sort_keys=False) if R.random() < 0.6 else json.dumps(val)
        fs[n] = {"k": "patch", "m": S.ymap(val), "text": t}
    for n in R.sample(["c.yaml", "c.json", "sub/c.yml"], R.choice([0, 1, 2])):
        m = R.choice(CFGS)
        fs[n] = {"k": "cfg", "fmt": FMT[n.rsplit(".", 1)[1]], "m": [[k, v] for k, v in m.items()]}
        fs[n]["text"] = text_of(fs[n])
    for n in R.sample(["junk.svd", "junk.json", "junk.yaml"], R.choice([0, 1, 2])):
        fs[n] = {"k": "junk", "text": R.choice(JUNK)}
    return fs, plain


MIX = {"convert": 6, "patch": 5, "expand-patch": 1, "makedeps": 1, "info": 1, "mmap": 1, "interrupts": 1}


def g_cmd(R, fs, plain, hist, mix=MIX):
    """the next command"""
    devs = [n for n in fs if fs[n]["k"] == "dev"]
    patches = [n for n in fs if fs[n]["k"] == "patch"]
    odd = [n for n in fs if fs[n]["k"] in ("junk", "dir")] + ["missing.svd", "missing.json", "no/such.svd"]
    x = {"c": R.choices(list(mix), list(mix.values()))[0],
         "in": "", "out": "", "inf": [], "outf": [], "ign": False, "xp": False, "ex": False, "cfg": [], "ed": "enum", "req": "", "lim": 0, "pv": False}
    if x["c"] in ("convert", "info", "mmap", "interrupts"):
        x["in"] = R.choice(devs * 6 + odd + patches) if devs else R.choice(odd)
        k = fs[x["in"]]["fmt"] if x["in"] in devs else "svd"
        if x["in"].endswith(".bin") or R.random() < 0.2:
            x["inf"] = [R.choice([f for f in FMT if FMT[f] == k] * 4 + ["svd", "json", "yaml", "bin", "Svd"])]
    if x["c"] in ("mmap", "interrupts"):
        x["inf"] = []
    if x["c"] == "info":
        x["req"] = R.choice(["device-name"] * 4 + ["device-version", ""])
    exts = ["svd", "xml", "SVD"] if plain else ["svd", "json", "yaml", "yml", "XML", "JSON"]
    if x["c"] == "convert":
        x["ex"], x["xp"], x["ign"] = R.random() < 0.2, R.random() < 0.2, R.random() < 0.15
        x["out"] = R.choice(["o." + R.choice(exts)] * 5 + ["sub/o." + R.choice(exts)] * 2 + [x["in"]] * 3 + devs +
                            ["no/such." + exts[0], "dir.svd", "o.bin", "o", "/dev/full"])
        if "." not in x["out"] or x["out"].endswith(".bin") or x["out"] == "/dev/full" or R.random() < 0.15:
            if R.random() < 0.9:
                x["outf"] = [R.choice(exts * 5 + ["bin"])]
        if x["out"] in patches or (x["out"] in fs and fs[x["out"]]["k"] == "cfg"):
            x["out"] = "o." + exts[0]
    if x["c"] == "patch":
        x["in"] = R.choice(patches * 8 + odd + devs)
        x["out"] = R.choice([""] * 5 + ["o.svd", "sub/o.svd", "o.bin", "no/such.svd", "dir.svd", "/dev/full"] + devs)
        x["ed"] = R.choice(["enum", "enum", "field", "none"])
        x["pv"] = R.random() < 0.25
    if x["c"] in ("expand-patch", "makedeps"):
        x["in"] = R.choice(patches * 8 + [n for n in odd if not n.endswith("yaml")])
        x["out"] = R.choice((["", "x.yaml", "sub/x.yaml"] if x["c"] == "expand-patch" else ["x.d", "sub/x.d"]) * 4 +
                            ["no/x.y", "dir.svd", "/dev/full"])
    if x["c"] in ("convert", "patch") and R.random() < 0.25:
        x["cfg"] = [R.choice([n for n in fs if fs[n]["k"] == "cfg"] * 6 + ["missing.yaml", "junk.json", "a.svd"])]
    return x


def args(x):
    l = [x["c"]]
    if x["c"] == "convert":
        l += [x["in"], x["out"]]
        for k, o in (("inf", "--input-format"), ("outf", "--output-format")):
            if x[k]:
                l += [o, x[k][0]]
        l += [o for k, o in (("ex", "--expand"), ("xp", "--expand-properties"), ("ign", "--ignore-enums")) if x[k]]
    elif x["c"] == "patch":
        l += [x["in"]] + ([x["out"]] if x["out"] else []) + (["--enum-derive", x["ed"]] if x["ed"] != "enum" else [])
        l += ["--post-validate"] if x["pv"] else []
    elif x["c"] in ("expand-patch", "makedeps"):
        l += [x["in"]] + ([x["out"]] if x["out"] else [])
    elif x["c"] == "info":
        l += [x["in"], x["req"]] + (["--input-format", x["inf"][0]] if x["inf"] else [])
    else:
        l += [x["in"]]
    if x["cfg"]:
        l += ["--format-config", x["cfg"][0]]
    return l


def snapshot(d):
    r = {}
    for p, ds, fs in os.walk(d):
        for n in ds:
            r[os.path.relpath(os.path.join(p, n), d)] = None
        for n in fs:
            with open(os.path.join(p, n), "rb") as f:
                r[os.path.relpath(os.path.join(p, n), d)] = f.read()
    return r


def limited(tool, lim, l):
    def pre():
        if lim:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
    tool.runs += 1
    try:
        p = subprocess.run([tool.binary] + l, cwd=tool.cwd, stdin=subprocess.DEVNULL, env=tool.env, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=tool.timeout, preexec_fn=pre, restore_signals=False)
    except subprocess.TimeoutExpired:
        tool.hung += 1
        return "panic", ""
    return ("ok" if p.returncode == 0 else "err" if p.returncode in (1, 2) else "panic"), p.stdout.decode("utf-8", "replace")


def put_fs(d, fs):
    for n, v in fs.items():
        if v["k"] == "dir":
            os.makedirs(os.path.join(d, n), exist_ok=True)
    for n, v in fs.items():
        if v["k"] != "dir":
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "w") as f:
                f.write(v["text"])


def execute(tool, d, x, fs):
    """run one command in d; adds what was seen and updates fs"""
    before = snapshot(d)
    old, tool.cwd = tool.cwd, d
    try:
        s, o = limited(tool, x["lim"], args(x))
    finally:
        tool.cwd = old
    after = snapshot(d)
    changed = []
    for n in sorted(set(before) | set(after)):
        if n in before and n in after and before[n] == after[n]:
            continue
        if n not in after:
            v = {"k": "gone"}
            fs.pop(n, None)
        else:
            if after[n] is None:
                v = {"k": "dir"}
            elif s != "ok" and not x["lim"]:
                v = {"k": "touched"}
            else:
                v = read(after[n].decode("utf-8", "replace"), d)
            fs[n] = v
        changed.append({"n": n, "v": v})
    say = ""
    if s == "ok" and x["c"] == "info":
        say = o
    elif s == "ok" and x["c"] in ("mmap", "interrupts"):
        say = "text"
    elif s == "ok" and x["c"] == "expand-patch" and not x["out"]:
        say = "patch" if "---" in o else ""
    elif s == "ok" and o and x["c"] in ("convert", "makedeps"):
        say = "unexpected: " + o[:50]
    x["saw"] = {"out": s, "say": say, "changed": changed}


def record(tool, R, d, fs, steps, next_cmd, limit=False):
    put_fs(d, fs)
    first = [{"n": n, "v": {k: v for k, v in fs[n].items() if k != "text"}} for n in sorted(fs)]
    texts = {n: v.get("text", "") for n, v in fs.items() if v["k"] != "dir"}
    cmds = []
    for i in range(steps):
        x = next_cmd(R, fs, cmds)
        if i == steps - 1 and limit and R.random() < 0.15 and x["c"] in ("convert", "patch"):
            x["lim"] = R.choice([1, 100, 1000, 4000])
        execute(tool, d, x, fs)
        cmds.append(x)
    return [{"fs": first, "cmds": cmds, "text": {"files": texts, "commands": [" ".join(args(x)) for x in cmds],
                                                 "ended": [x["saw"]["out"] for x in cmds]}}]


def base(c, **kw):
    return dict({"c": c, "in": "", "out": "", "inf": [], "outf": [], "ign": False, "xp": False, "ex": False, "cfg": [], "ed": "enum",
                 "req": "", "lim": 0, "pv": False}, **kw)


def probe(tool, d, key):
    """histories with a known outcome"""
    reg = S.reg("R%s", 0, dim=S.dim(3, 4))
    dev = S.device([S.per("P", 0x40000000, [reg])])
    t = S.render(dev)
    fs = {"a.svd": {"k": "dev", "fmt": "svd", "dev": S.project(t), "text": t}}
    l = iter([base("convert", **{"in": "a.svd", "out": "o.json"}), base("convert", **{"in": "o.json", "out": "r.svd"})])
    cs = record(tool, random.Random("0"), d, fs, 2, lambda R, fs, h: next(l))
    cs[0].update(key=key, bendable=False)
    return cs


def mk_history(tool, seed, d, mix=MIX):
    if seed.startswith("known:"):
        return probe(tool, d, seed[6:])
    R = random.Random(seed)
    fs, plain = g_history(R)
    return record(tool, R, d, fs, R.choice([2, 3, 4, 5, 6]), lambda R, fs, h: g_cmd(R, fs, plain, h, mix), True)


def mk_conversion(tool, seed, d):
    return mk_history(tool, seed, d, {"convert": 12, "patch": 1, "info": 1})


def mk_asking(tool, seed, d):
    return mk_history(tool, seed, d, {"convert": 4, "patch": 1, "info": 8})


def bend_history(c, R):
    l = [x for x in c["cmds"] if x["saw"]["changed"]]
    if not l:
        x = R.choice(c["cmds"])
        x["saw"]["out"] = "ok" if x["saw"]["out"] != "ok" else "err"
        return None if x["lim"] else c
    x = R.choice(l)
    if x["lim"]:
        return None
    ch = x["saw"]["changed"]
    k = R.randrange(4)
    if k == 0:
        x["saw"]["changed"] = []
        earlier = [f["n"] for f in c["fs"]] + [h["n"] for y in c["cmds"][:c["cmds"].index(x)] for h in y["saw"]["changed"]]
        if ch[0]["n"] in earlier:
            return None
    elif k == 1:
        ch.append({"n": "stray.txt", "v": {"k": "junk"}})
    elif k == 2:
        x["saw"]["out"] = "err"
    else:
        v = ch[0]["v"]
        if v["k"] != "dev":
            return None
        v["dev"]["ver"] += "1"
    return c


def histories(nq, nt, make=mk_history, keys=()):
    return V.study("Files", make, ["FailureChangesNothing", "OnlyOutput", "NothingRemoved", "RoundTrip", "ShowsKeep", "Checked"],
                   [], bend_history, nq, nt, "history", (lambda: ["known:" + k for k in keys]) if keys else None)


# ------------------------------------------------------------------ validation
BADNAMES = ["A-B", "A B", "9A", "A.B", "%sA%s", "A[%s]B", "A%sB%s", "[%s]", "%", "A%", "", "A[s]", "%s9", "A%s%s"]
GOODNAMES = ["A%sB", "%s", "%sA", "A[%s]", "_9", "A_%s9", "A%s_"]


def spoil(R, dev):
    """make one thing wrong somewhere (or nearly wrong)"""
    pers = dev["pers"]
    regs = [x for p in pers for x in V.walk(p["regs"][0] if p["regs"] else []) if x["k"] == "r"]
    clus = [x for p in pers for x in V.walk(p["regs"][0] if p["regs"] else []) if x["k"] == "c"]
    fields = [f for r in regs for f in (r["fs"][0] if r["fs"] else [])]
    evs = [e for f in fields for e in f["evs"]]
    vals = [v for e in evs for v in e["vals"]]
    plain = [x for x in regs + clus + fields + pers if not x["dim"]]

    def pick(l):
        return R.choice(l) if l else None
    def name():
        return R.choice(BADNAMES + GOODNAMES)
    def wide(x, sz):
        n = sz + R.choice([0, -1, 1])
        x.append(S.w((1 << max(n - 1, 0)) | R.randrange(1 << max(n - 1, 1))))
    k = R.randrange(22)
    if k == 0 and plain:
        pick(plain)["n"] = name().replace(" ", "-") or "A"
    elif k == 1 and regs:
        pick(regs)["ag"] = [R.choice(["A%s", "A-B", "OK_1", "9", "A B"])]
    elif k == 2 and regs:
        pick(regs)["ar"] = [R.choice(["A%s", "A-B", "OK_1", "9", "A.B"])]
    elif k == 3 and evs:
        pick(evs)["n"] = [R.choice(["A-B", "9", "ok", "A%s"])]
    elif k == 4 and vals:
        pick(vals)["n"] = R.choice(["A-B", "9", "ok", "A%s", "a b"])
    elif k == 5 and vals:
        v = pick(vals)
        v["def"] = [R.choice([True, False])]
    elif k == 6 and vals:
        v = pick(vals)
        v["v"], v["def"] = [], R.choice([[], [True], [False]])
    elif k in (7, 8) and fields:
        f = pick(fields)
        l = [e for e in f["evs"] if e["vals"]]
        if l:
            pick(pick(l)["vals"])["v"] = [S.w((1 << f["w"]) + R.choice([-1, 0, 1]) if f["w"] < 63 else (1 << 64) - 1)]
    elif k == 9 and fields:
        f = pick(fields)
        u = [[], ["read"], ["write"], ["read-write"]]
        f["evs"] = [S.evs([S.ev("V%d" % i, 0)], n="E%d" % i) for i in range(R.choice([1, 2, 2, 2, 3]))]
        for e in f["evs"]:
            e["us"] = R.choice(u)
    elif k == 10 and evs:
        e = pick(evs)
        e["vals"], e["df"] = [], R.choice([[], ["A.B"], ["A-B"], ["A.9"], ["E1"]])
    elif k == 11 and fields:
        f = pick(fields)
        a = R.randrange(1 << min(f["w"] + 1, 20))
        b = R.randrange(1 << min(f["w"] + 1, 20))
        f["wc"] = [S.wc_range(a, b)]
    elif k == 12 and fields:
        pick(fields)["w"] = R.choice([0, 0, 63, 64, 1])
    elif k == 13 and regs:
        r = pick(regs)
        r["fs"] = R.choice([[[]], []])
    elif k == 14:
        p = pick(pers)
        p["regs"] = R.choice([[[]], []])
    elif k == 15 and clus:
        pick(clus)["ch"] = []
    elif k == 16 and R.random() < 0.5:
        dev["pers"] = []
    elif k in (17, 18, 19):
        x = R.choice(regs + regs + clus + pers + [dev])["p"]
        sz = R.choice([8, 16, 32, 33, 64, 1, 7])
        x["sz"] = [sz]
        x["rv"], x["rm"] = [], []
        if R.random() < 0.8:
            wide(x["rv"], sz)
        if R.random() < 0.7:
            wide(x["rm"], sz)
            if x["rv"] and R.random() < 0.6:
                x["rm"] = [S.w(S.unw(x["rm"][0]) | S.unw(x["rv"][0]))]
                if R.random() < 0.3:
                    x["rm"] = [S.w(S.unw(x["rm"][0]) & ~(1 << R.randrange(sz)))]
    elif k == 20 and (regs or clus or fields):
        x = pick(regs + clus + fields)
        x["df"] = [R.choice(["A.B.C", "A-B", "A.9", "A..B", "A[%s].B", "P.R%s", "x y"])]
    elif k == 21:
        p = pick(pers)
        p["df"] = [R.choice(["A.B", "A-B", "OTHER", "A[%s]"])]


def mk_valid(tool, seed, d):
    R = random.Random(seed)
    dev = V.v_device(R, texts=False, many=R.choice([1, 1, 2, 3]))
    explicit(dev)
    for i in range(R.choice([0, 1, 1, 1, 2])):
        spoil(R, dev)
    t = S.render(dev)
    S.KEEP_EMPTY = True
    fs = {"a.svd": {"k": "dev", "fmt": "svd", "dev": S.project(t), "text": t}}
    S.KEEP_EMPTY = False
    val = {"_svd": "a.svd"}
    if R.random() < 0.5:
        val["_modify"] = {"description": "new"}
    elif dev["pers"] and R.random() < 0.5:
        n = R.choice(["P", "P-Q", "P%s", "9P"])
        val["_add"] = {n: {"description": "d", "baseAddress": 0, "registers": {R.choice(["R", "R-S", "9R"]): {"addressOffset": 0, "description": "r",
                       "size": 8, "fields": R.choice([{}, {"F": {"bitOffset": 0, "bitWidth": 1}}, {"F-": {"bitOffset": 0, "bitWidth": 1}}])}}}}
    fs["p.yaml"] = {"k": "patch", "m": S.ymap(val), "text": yaml.safe_dump(val, sort_keys=False)}
    base = {"in": "", "out": "", "inf": [], "outf": [], "ign": False, "xp": False, "ex": False, "cfg": [], "ed": "enum", "req": "", "lim": 0, "pv": False}
    l = [dict(base, c="patch", **{"in": "p.yaml", "out": "o.svd", "pv": True}), dict(base, c="patch", **{"in": "p.yaml", "out": "q.svd"}),
         dict(base, c="convert", **{"in": "q.svd", "out": "o.json", "ign": R.random() < 0.3}),
         dict(base, c="convert", **{"in": "o.svd", "out": R.choice(["r.svd", "r.yaml"]), "ign": R.random() < 0.3}),
         dict(base, c=R.choice(["mmap", "interrupts"]), **{"in": "q.svd"}), dict(base, c="info", **{"in": "o.svd", "req": "device-name"})]
    l = l[:4] if not dev["pers"] else l
    it = iter(l)
    put_fs(d, fs)
    return record(tool, random.Random("0"), d, fs, len(l), lambda R, fs, h: next(it))


def validation(nq, nt):
    return V.study("Files", mk_valid, ["FailureChangesNothing", "OnlyOutput", "NothingRemoved", "RoundTrip", "ShowsKeep", "Checked"],
                   [], bend_history, nq, nt, "validation")
