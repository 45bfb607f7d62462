"""Histories of patches: the whole graph of devices reached with a catalogue of patches, replayed on the tool."""
import json
import multiprocessing
import os
import random

import gen
import study
import svdlib as S
import svdtool
import trace

FORMULAS = ["Frame", "UnmatchedKept", "ChildrenKept", "CollectKeepsOthers", "DeleteExact", "AddOne", "CopyKeeps", "RefsKept",
            "DerivedKept", "AffixLayout", "BitsKept", "NothingMoves", "ClearOnly", "PartsAlike", "Atomic", "WholeAlike"]


# ------------------------------------------------------------------ devices
def fields(**k):
    return [S.field("EN", 0, 1, d="on", **k), S.field("MD0", 2, 1, evs=[S.evs([S.ev("Lo", 0), S.ev("Hi", 1)], n="MDV")]),
            S.field("MD1", 3, 1), S.field("T", 8, 4, ac="read-only")]


def devices():
    out = []
    # registers, derived registers, a cluster, interrupts, a derived peripheral
    p = S.per("P", 0x1000, [S.reg("CR1", 0, fields(), d="control 1", dn="CR1"), S.reg("CR2", 4, fields(), d="control 2"),
                            S.reg("SR", 8, [S.field("EN", 0, 1)], p=S.props(16, "read-only", None, 3)), S.reg("DR", 0x0c, df="CR1", d="derived"),
                            S.clu("K", 0x20, [S.reg("CR1", 0, fields()), S.reg("X", 4)])],
              ints=[{"n": "PI", "d": ["i"], "v": 4}, {"n": "PJ", "d": [], "v": 5}], d="first", gn="G", ab=[{"off": 0, "sz": 0x100, "us": "registers", "pr": []}])
    q = S.per("Q", 0x2000, None, df="P", ints=[{"n": "QI", "d": [], "v": 6}])
    out.append(S.device([p, q, S.per("U", 0x3000, [S.reg("CR1", 0, fields())])]))
    # arrays, sequences and cluster arrays
    a = S.per("P", 0x1000, [S.reg("CR1", 0, fields()), S.reg("CR2", 4, fields()), S.reg("AR%s", 8, [S.field("F%s", 0, 2, dim=S.dim(2, 2))], dim=S.dim(2, 4)),
                            S.reg("X0", 0x10), S.reg("Y0", 0x14), S.reg("X1", 0x18), S.reg("Y1", 0x1c),
                            S.clu("KS%s", 0x40, [S.reg("CR1", 0, fields()), S.reg("SR", 4)], dim=S.dim(2, 0x10))], ints=[{"n": "PI", "d": [], "v": 1}])
    b = S.per("Q", 0x2000, [S.reg("CR1", 0, [S.field("EN", 0, 1)]), S.reg("CR2", 8, df="P.CR1")])
    out.append(S.device([a, b]))
    # derived peripherals in a chain
    x = S.per("P", 0x1000, [S.reg("CR1", 0, fields())], d="base", ints=[{"n": "PI", "d": [], "v": 1}])
    out.append(S.device([x, S.per("Q", 0x2000, None, df="P"), S.per("U", 0x3000, None, df="Q", d="third"),
                         S.per("W", 0x4000, [S.reg("CR1", 0, fields()), S.reg("SR", 4, [S.field("EN", 0, 1)])])]))
    return out


# ------------------------------------------------------------------ patches
def catalogue():
    """patches of one rule each"""
    V = {"Off": [0, "off"], "On": [1, "on"]}
    l = [
        {"_delete": ["Q"]}, {"_delete": ["P"]}, {"_copy": {"N": {"from": "P"}}}, {"_copy": {"U": {"from": "P"}}},
        {"_modify": {"P": {"name": "N"}}}, {"_modify": {"P": {"description": "pp", "baseAddress": 0x5000}}}, {"_modify": {"Q": {"derivedFrom": "P"}}},
        {"_clear_fields": ["P"]}, {"_add": {"N": {"baseAddress": 0x1800, "registers": {"CR1": {"addressOffset": 0, "fields": {"EN": {"bitOffset": 0, "bitWidth": 1}}}}}}},
        {"_derive": {"U": "P"}}, {"_derive": {"N": {"_from": "P", "baseAddress": 0x6000}}}, {"_rebase": {"P": "Q"}}, {"_rebase": {"Q": "P"}},
        {"_modify": {"name": "D2", "width": 64}},
    ] + [{"P": r} for r in [
        {"_delete": ["CR1"]}, {"_delete": {"_interrupts": ["PI"]}}, {"_delete": {"_clusters": ["K*"]}}, {"_copy": {"CR9": {"_from": "CR1", "addressOffset": 0x80}}}, {"_copy": {"CR2": {"_from": "CR1"}}},
        {"_strip": ["C"]}, {"_strip_end": ["1"]}, {"_prefix": "A_"}, {"_suffix": "_1"},
        {"_modify": {"CR1": {"name": "CR9", "description": "new"}}}, {"_modify": {"CR*": {"size": 16, "access": "read-write"}}}, {"_modify": {"CR1": {"addressOffset": 0x90}}},
        {"_modify": {"_interrupts": {"PI": {"value": 9}}}}, {"_modify": {"_cluster": {"K*": {"description": "k"}}}},
        {"_clear_fields": ["CR1"]}, {"_add": {"CR9": {"addressOffset": 0x84, "fields": {"EN": {"bitOffset": 1, "bitWidth": 2}}}}},
        {"_add": {"_interrupts": {"PN": {"value": 11}}}}, {"_add": {"_cluster": {"KN": {"addressOffset": 0xa0, "CR1": {"addressOffset": 0}}}}},
        {"_derive": {"CR9": {"_from": "CR2", "addressOffset": 0x88}}}, {"_derive": {"CR2": "CR1"}},
        {"_expand_array": ["AR*"]}, {"_array": {"CR?": {}}}, {"_array": {"X?": {"name": "X%s"}}}, {"_cluster": {"G%s": {"X?": {}, "Y?": {}}}}, {"_cluster": {"G": {"CR1": {}}}},
        {"_expand_cluster": ["KS%s"]}, {"_clusters": {"K*": {"_modify": {"CR1": {"name": "CR8"}}}}}, {"_clusters": {"K*": {"CR1": {"_delete": ["EN"]}}}},
        {"CR1": {"_delete": ["EN"]}}, {"CR1": {"_modify": {"EN": {"name": "ENA", "access": "write-only"}}}}, {"CR*": {"_add": {"Z": {"bitOffset": 12, "bitWidth": 2}}}},
        {"CR1": {"_strip": ["M"]}}, {"CR1": {"_prefix": "A"}}, {"CR?": {"_merge": ["MD*"]}}, {"CR1": {"_split": ["T"]}}, {"CR1": {"_array": {"MD*": {}}}},
        {"CR1": {"_clear": ["MD*"]}}, {"CR1": {"_derive": {"MD1": "MD0"}}}, {"CR?": {"EN": V}}, {"CR?": {"MD?": V}}, {"CR1": {"EN": {"_read": V, "_write": {"Clear": [1, "clear"]}}}},
        {"CR2": {"MD*": {"_replace_enum": dict(V, X=[-1, "other"])}}}, {"CR1": {"T": [1, 9]}}, {"CR?": {"EN": {"_W1C": {"Clear": [1, "clear"]}}}},
        {"CR2": {"EN": {"_derivedFrom": "CR1.MD0.MDV"}}}, {"?~NO": {"EN": V}}, {"NO": {"EN": V}},
    ]] + [
        {"Q": {"CR1": {"EN": V}}}, {"*": {"_suffix": "Q"}}, {"Q": {"_add": {"QR": {"addressOffset": 0x10}}}}, {"[PQ]": {"CR1": {"_delete": ["MD*"]}}},
    ]
    return l


DEVS = ["_svd", "_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase"]
PERS = ["_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix", "_modify", "_clear_fields", "_add", "_derive", "children",
        "_expand_array", "_array", "_cluster", "_clusters", "_expand_cluster"]


def rank(k, order, kids):
    return order.index(k) if k in order else order.index(kids) if kids in order else len(order)


def merged(a, b):
    """the patch that does a and then b, when the sections run in that order"""
    (ka, va), (kb, vb) = list(a.items())[0], list(b.items())[0]
    ra, rb = rank(ka, DEVS, None), rank(kb, DEVS, None)
    if ra != rb:
        return {ka: va, kb: vb} if ra < rb else None
    if ra < len(DEVS):
        # the same section: entries in order
        if isinstance(va, list) or set(va) & set(vb):
            return None
        return {ka: dict(va, **vb)} if not any(isinstance(x, str) or x in ("name", "width") for x in list(va) + list(vb) if not isinstance(x, str)) else None
    if ka != kb:
        return {ka: va, kb: vb}
    (sa, xa), (sb, xb) = list(va.items())[0], list(vb.items())[0]
    pa, pb = rank(sa, PERS, "children"), rank(sb, PERS, "children")
    if pa < pb or (pa == pb == PERS.index("children") and sa != sb):
        return {ka: dict(va, **vb)}
    return None


def rules(R, pairs, n=None):
    l = catalogue()
    if n and n < len(l):
        l = [l[i] for i in sorted(R.sample(range(len(l)), n))]
    out = [{"n": str(i + 1), "patch": p, "parts": []} for i, p in enumerate(l)]
    ms = []
    for i, a in enumerate(l):
        for j, b in enumerate(l):
            m = merged(a, b) if i != j else None
            if m:
                ms.append({"n": "%d+%d" % (i + 1, j + 1), "patch": m, "parts": [i + 1, j + 1]})
    return out + R.sample(ms, min(pairs, len(ms)))


# ------------------------------------------------------------------ the graph
def graph(cx, devs, rs, depth):
    path = os.path.join(cx.root, "explore.ndjson")
    with open(path, "w") as f:
        for i, d in enumerate(devs):
            f.write(json.dumps({"id": str(i), "dev": d, "files": [], "patch": [], "ed": "enum", "obs": []}) + "\n")
    rpath = os.path.join(cx.root, "rules.ndjson")
    with open(rpath, "w") as f:
        for r in rs:
            f.write(json.dumps(dict(r, patch=gen.ymap(r["patch"]))) + "\n")
    cfg = os.path.join(cx.root, "Explore.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Graph\nCHECK_DEADLOCK FALSE\nVIEW Seen\nCONSTANT Depth = %d\nINVARIANT Stable\n" % depth)
        for x in FORMULAS:
            f.write("PROPERTY %s\n" % x)
    rc, out = trace.tlc("Explore", cfg, cx.root, {"CASES": path, "RULES": rpath}, timeout=max(60, int(cx.left())))
    points = []
    for l in out.splitlines():
        l = trace.unq(l)
        if l.startswith("POINT "):
            points.append(json.loads(l[6:]))
    import re
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    if m:
        cx.trans += int(m.group(1))
        cx.states += int(m.group(2))
    if "No error has been found" not in out:
        i = out.find("Error:")
        cx.broken("TLC on Explore: %s" % out[i:i + 2500])
    return points


_W = {}


def _init(binary, root):
    svdtool.limit()
    d = os.path.join(root, "x%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W["tool"] = svdtool.Tool(binary, d)


def _run(a):
    """one patch on one file: (status, device as projected, text)"""
    text, y = a
    t = _W["tool"]
    if t.hung > 3:
        return None
    for n, x in (("in.svd", text), ("p.yaml", y)):
        with open(os.path.join(t.cwd, n), "w") as f:
            f.write(x)
    out = os.path.join(t.cwd, "out.svd")
    if os.path.exists(out):
        os.remove(out)
    s, _ = t.run("patch", "p.yaml", "out.svd")
    if s != "ok":
        return s, None, None
    try:
        with open(out) as f:
            x = f.read()
        return s, S.project(x), x
    except (OSError, S.Shape):
        return "shape", None, None


def explore(depth, pairs, n=None, stream=0):
    """all histories of at most depth patches of the catalogue (or of n of them), and patches made of two"""
    def run(cx):
        R = random.Random("%d/%s/%d" % (cx.seed, cx.pid, stream))
        rs = rules(R, pairs, n)
        texts = [S.render(d) for d in devices()]
        devs = [S.project(t) for t in texts]
        points = graph(cx, devs, rs, depth)
        ys = [gen.ytext(dict([("_svd", "in.svd")] + list(r["patch"].items()))) for r in rs]
        have = {(i, ()): t for i, t in enumerate(texts)}
        level = {}
        for p in points:
            level.setdefault(len(p["hist"]), {})[(int(p["c"]), tuple(p["hist"]))] = p
        outs = cx.more.setdefault("outcomes", {})
        bent = 0
        with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
            for k in sorted(level):
                todo = sorted(level[k])
                # only what follows from runs that were as specified
                ready = [x for x in todo if (x[0], x[1][:-1]) in have]
                cx.count("histories_beyond_a_disagreement", len(todo) - len(ready))
                for x, r in zip(ready, pool.imap(_run, [(have[x[0], x[1][:-1]], ys[x[1][-1] - 1]) for x in ready], 16)):
                    if r is None:
                        continue
                    p = level[k][x]
                    s, d, t = r
                    cx.count("tool_runs")
                    if p["out"] == "MODEL-RANGE":
                        cx.count("outside_model_range")
                        continue
                    cx.traces += 1
                    outs[p["out"] or "ok"] = outs.get(p["out"] or "ok", 0) + 1
                    if (s == "err" and p["out"]) or (s == "ok" and not p["out"] and d == p["dev"][0]):
                        if s == "ok":
                            have[x] = t
                            if bent < 5 and R.random() < 0.05 and d["pers"]:
                                # a changed observation is seen
                                b = study.corrupt({"obs": [{"dev": d}]}, R)["obs"][0]["dev"]
                                if b == p["dev"][0]:
                                    cx.broken("a corrupted observation was accepted")
                                bent += 1
                        continue
                    ds = list(study.diffs(p["dev"][0], d))[:6] if not p["out"] and s == "ok" else []
                    what = "after %d patches: specification says %s, tool says %s" % (k, p["out"] or "ok", s)
                    for q, a, b in ds[:2]:
                        what += "; %s: %s expected, %s found" % (q, json.dumps(a)[:200], json.dumps(b)[:200])
                    cx.violation(what=what, patches=[ys[i - 1] for i in x[1]], svd=texts[x[0]], expected=p["out"] or "ok", observed=s,
                                 differences=[{"path": q, "expected": a, "observed": b} for q, a, b in ds])
        cx.count("corrupted_observations_rejected", bent)
        cx.count("devices_reached", len({(x[0], json.dumps(p["dev"], sort_keys=True)) for l in level.values() for x, p in l.items() if not p["out"]}))
        cx.count("patches_in_the_catalogue", len(rs))
        for h in [h for h in have if len(h[1]) == 2][:3]:
            cx.sample({"history": [ys[i - 1] for i in h[1]]})
    return run


def histories_of_patches(cx):
    explore(2, 300)(cx)
    if cx.thorough():
        explore(2, 100000, stream=1)(cx)
        for k in range(6):
            if cx.left() < 900:
                break
            explore(3, 0, 24, 2 + k)(cx)
