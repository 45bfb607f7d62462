"""Studies of include files: expand-patch, makedeps and patching through includes."""
import json
import multiprocessing
import os
import random
import re
import shutil

import yaml

import gen
import svdlib as S
import svdtool
import trace

PATHS = [["a.yaml"], ["b.yaml"], ["c.yaml"], ["sub", "a.yaml"], ["sub", "d.yaml"], ["sub", "in", "e.yaml"],
         ["lib", "f.yaml"]]
DIRS = [[], ["sub"], ["sub", "in"], ["lib"], ["empty"]]
KEYS = ["P", "Q", "_delete", "_strip", "R", "_modify"]


def from_yaml(text):
    """tagged value of a YAML text, typed as the tool's YAML library does for what its emitter writes"""
    def conv(n):
        if isinstance(n, yaml.MappingNode):
            return {"t": "m", "m": [[k.value, conv(v)] for k, v in n.value]}
        if isinstance(n, yaml.SequenceNode):
            return {"t": "a", "a": [conv(v) for v in n.value]}
        if n.style is None:
            v = n.value
            if v in ("true", "false"):
                return S.node(v == "true")
            if v == "~":
                return S.node(None)
            if re.match(r"[-+]?[0-9]+$", v):
                return S.node(int(v))
            if re.match(r"[-+]?([0-9]+\.[0-9]*|\.[0-9]+)$", v):
                return {"t": "r", "s": v}
        return S.node(n.value)
    n = yaml.compose(text)
    return {"t": "e"} if n is None else conv(n)


def write_tree(root, case):
    for d in case["dirs"]:
        os.makedirs(os.path.join(root, *d), exist_ok=True)
    for f in case["files"]:
        with open(os.path.join(root, *f["p"]), "w") as g:
            g.write(f["text"])
    for l in case["links"]:
        os.symlink(os.path.join(root, *l["to"]), os.path.join(root, *l["p"]))


def strip_paths(y, root):
    if y["t"] == "m":
        for kv in y["m"]:
            if kv[0] == "_path" and kv[1]["t"] == "s" and kv[1]["s"].startswith(root):
                kv[1]["s"] = kv[1]["s"][len(root):]
            strip_paths(kv[1], root)
    elif y["t"] == "a":
        for v in y["a"]:
            strip_paths(v, root)
    return y


QUOTED = re.compile(r'"((?:[^"\\\\]|\\\\.)*)"')


def cut_root(x, root):
    return x[len(root):] if root and x.startswith(root + "/") else x


def notes(err, root=""):
    """the rules said to be ignored: the key and the texts named"""
    out = []
    for line in err.splitlines():
        if "ignored" not in line:
            continue
        q = [cut_root(x, root) for x in (x.replace('\\"', '"').replace("\\\\", "\\") for x in QUOTED.findall(line))]
        out.append({"w": "conflicting" if "conflict" in line else "duplicate", "k": q[0] if q else "", "x": q[1:]})
    return out


def observe(tool, case, root):
    """expand-patch and makedeps on a written tree"""
    main = os.path.join(root, *case["root"])
    to_file = case.get("to_file")
    if to_file:
        s, o, err = tool.run("expand-patch", main, os.path.join(root, "out.yaml"), err=True)
        if s == "ok":
            try:
                o = open(os.path.join(root, "out.yaml")).read()
            except OSError:
                s = "panic"
    else:
        s, o, err = tool.run("expand-patch", main, err=True)
    case["said"] = [notes(err, root)]
    y = {"t": "n"}
    if s == "ok":
        try:
            # what is printed is the patch and nothing else
            y = strip_paths(from_yaml(o), root) if o.startswith("---\n") else {"t": "s", "s": o}
        except yaml.YAMLError:
            s = "panic"
    case["expand"] = {"out": s, "y": y}
    # and it can be used in place of the files it was made from
    case["again"] = {"out": "none", "y": {"t": "n"}}
    if s == "ok":
        twin = os.path.join(os.path.dirname(main), "expanded.yaml")
        with open(twin, "w") as f:
            f.write(o)
        s, o = tool.run("expand-patch", twin)
        y = {"t": "n"}
        if s == "ok":
            try:
                y = strip_paths(from_yaml(o), root)
            except yaml.YAMLError:
                s = "panic"
        os.remove(twin)
        case["again"] = {"out": s, "y": y}
    deps = os.path.join(root, "out.d")
    s, o, err = tool.run("makedeps", main, deps, err=True)
    case["said"].append(notes(err, root))
    l = []
    if s == "ok":
        try:
            o = open(deps).read()
        except OSError:
            o = ""
        head = deps + ":"
        if not o.startswith(head) or not o.endswith("\n"):
            l = ["malformed: " + o]
        else:
            l = [x[len(root):] if x.startswith(root) else x for x in o[len(head):-1].split(" ") if x]
    case["deps"] = {"out": s, "l": l}


# ------------------------------------------------------------------ generated trees
def g_close(R, k, depth):
    """values that often meet others of their kind"""
    if k in ("P", "Q", "_add") and R.random() < 0.97:
        return {x: g_close(R, x, depth - 1)
                for x in R.sample(["x", "y", "z"] + ["_add"] * (depth > 0), R.choice([1, 2, 3]))}
    if R.random() < (0.2 if k in "xy" else 0.6):
        return [R.choice(["x", "y"]) for _ in range(R.choice([1, 2]))]
    return R.choice(["x", "y", "a b"])


def g_value(R, depth):
    k = R.randrange(10)
    if k < 3:
        return R.choice(["x", "y", "z", "", "a b"])
    if k < 5:
        return [R.choice(["x", "y", "z"]) for _ in range(R.randrange(3))]
    if k < 8 and depth > 0:
        return {x: g_value(R, depth - 1) for x in R.sample(["x", "y", "z", "_add", "R"], R.randrange(3))}
    if k == 8:
        return R.choice([1, 0, 16, True, False, None])
    return R.choice([["x", 1], [["x"]], [{"x": "y"}], "1", "true"])


def g_ref(R, frm, links):
    """a reference from the file frm to some file, in one of many notations"""
    if R.random() < 0.04:
        return R.choice(["nope.yaml", "nodir/../a.yaml", "sub", ".", "a.yaml/x"])
    to = R.choice(PATHS + [l["p"] for l in links])
    d = frm[:-1]
    n = 0
    while n < len(d) and n < len(to) - 1 and d[n] == to[n]:
        n += 1
    if R.random() < 0.15:
        n = R.randrange(n + 1)
    parts = [".."] * (len(d) - n) + to[n:]
    if R.random() < 0.2:
        parts.insert(R.choice([0, len(parts) - 1]), ".")
    if R.random() < 0.1 and len(parts) > 1 and parts[0] != "..":
        parts = [parts[0], ".."] + parts
    return "/".join(parts)


def g_file(R, p, links, refs, close):
    m = {}
    for k in R.sample(KEYS[:4] if close else KEYS, R.choice([1, 2, 3] if close else [0, 1, 2, 3])):
        v = g_close(R, k, 2) if close else g_value(R, 2)
        if isinstance(v, dict) and not k.startswith("_") and R.random() < refs * 0.4:
            v["_include"] = g_list(R, p, links)
        m[k] = v
    if R.random() < refs:
        m["_include"] = g_list(R, p, links)
    if m:
        ks = list(m)
        R.shuffle(ks)
        m = {k: m[k] for k in ks}
    return m


def g_list(R, p, links):
    if R.random() < 0.03:
        return R.choice([1, {}, [1], True, None, [["a.yaml"]]])
    if R.random() < 0.35:
        return g_ref(R, p, links)
    return [g_ref(R, p, links) for _ in range(R.choice([0, 1, 1, 2, 2, 3]))]


def g_tree(R):
    links = []
    if R.random() < 0.3:
        links.append({"p": R.choice([["sub", "l.yaml"], ["l.yaml"], ["lib", "l.yaml"]]), "to": R.choice(PATHS)})
    files = []
    close = R.random() < 0.4
    for i, p in enumerate(PATHS):
        if R.random() < 0.05:
            y = R.choice([None, "text", ["x"]] if i else ["text", ["x"]])
            files.append({"p": p, "text": "# nothing\n" if y is None else gen.ytext(y, False) + "\n",
                          "y": {"t": "e"} if y is None else gen.ynode(y)})
            continue
        m = g_file(R, p, links, 0.75 if i == 0 else 0.3, close)
        files.append({"p": p, "text": gen.ytext(m) or "{}\n", "y": {"t": "m", "m": gen.ymap(m)}})
    root = ["a.yaml"]
    return {"files": files, "links": links, "dirs": DIRS, "root": root, "to_file": R.random() < 0.5}


VALUES = ["x", "y", "", 1, True, None, [], ["x"], ["y"], ["x", "y"], ["y", "x", "y"], ["x", 1], {}, {"x": "x"}, {"x": "y"},
          {"x": ["x"]}, {"x": ["y", "x"]}, {"y": "x"}, {"x": {"x": "x"}}, {"x": {"y": 1}}]


def pairs():
    """every merge of two values, and every one with the key missing"""
    out = []
    n = "absent"
    for a in VALUES + [n]:
        for b in VALUES + [n]:
            for deep in (False, True):
                pm = {"_include": "b.yaml"}
                if a is not n:
                    pm["K"] = a
                pm["L"] = "last"
                cm = {} if b is n else {"K": b}
                if deep:
                    pm = {"P": {k: v for k, v in pm.items() if k != "_include"}, "_include": ["b.yaml"]}
                    cm = {"P": cm}
                out.append({"files": [{"p": ["a.yaml"], "text": gen.ytext(pm), "y": {"t": "m", "m": gen.ymap(pm)}},
                                      {"p": ["b.yaml"], "text": gen.ytext(cm) or "{}\n",
                                       "y": {"t": "m", "m": gen.ymap(cm)}}],
                            "links": [], "dirs": [[]], "root": ["a.yaml"], "to_file": False})
    return out


_W = {}


def _init(binary, root):
    svdtool.limit()
    d = os.path.join(root, "i%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W["tool"] = svdtool.Tool(binary, d)


def _tree(a):
    seed, case = a
    t = _W["tool"]
    if t.hung > 3:
        return None
    if case is None:
        case = g_tree(random.Random(seed))
    root = os.path.join(t.cwd, "t")
    os.makedirs(root)
    try:
        write_tree(root, case)
        observe(t, case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return case


def bend(case, R):
    b = json.loads(json.dumps(case))
    if R.random() < 0.4 and b["said"][0]:
        del b["said"][R.randrange(2)][0]
    elif R.random() < 0.5 and b["deps"]["l"]:
        b["deps"]["l"][R.randrange(len(b["deps"]["l"]))] += "x"
    else:
        b["expand"]["y"]["m"].append(["K", {"t": "s", "s": "extra"}])
    return b


def decide(cx, cases, what):
    R = random.Random(cx.seed)
    good = [c for c in cases if c["expand"]["out"] == "ok" and c["deps"]["out"] == "ok"]
    for i, c in enumerate(cases):
        c["id"] = "%d" % i
    bent = []
    for i, c in enumerate(R.sample(good, min(6, len(good)))):
        b = bend(c, R)
        b["id"] = "corrupt-%d" % i
        b["of"] = c["id"]
        bent.append(b)
    path = os.path.join(cx.root, "inc.ndjson")
    with open(path, "w") as f:
        for c in cases + bent:
            f.write(json.dumps({"id": c["id"], "files": [{"p": x["p"], "y": x["y"]} for x in c["files"]],
                                "links": c["links"], "dirs": c["dirs"], "root": c["root"], "expand": c["expand"],
                                "deps": c["deps"], "again": c["again"], "said": c["said"]}) + "\n")
    cfg = os.path.join(cx.root, "Includes.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY NothingLost\nPROPERTY AllTaken\n"
                "PROPERTY DepsGrow\nPROPERTY ToldGrow\nPROPERTY AllTold\nINVARIANT AllDeps\nINVARIANT Terminates\n")
    r = trace.run_cases(cx, "Includes", cfg, path)
    bad = r["bad"]
    ids = {x["id"] for x in bad}
    for b in bent:
        if b["id"] not in ids and b["of"] not in ids:
            cx.broken("a corrupted observation was accepted")
    cx.count("corrupted_observations_rejected", len([b for b in bent if b["id"] in ids]))
    byid = {c["id"]: c for c in cases}
    missing = [c for c in cases if c["id"] not in r["done"] and c["id"] not in r["range"]]
    if missing:
        cx.broken("no verdict for %d cases, e.g. %s" % (len(missing), json.dumps(missing[0])[:2000]))
    cx.traces += len(cases) - len(r["range"])
    ends = cx.more.setdefault("outcomes", {})
    for k, d in r["done"].items():
        if k in byid:
            ends[d["st"]] = ends.get(d["st"], 0) + 1
            cx.more["most_files_included"] = max(cx.more.get("most_files_included", 0), d["deps"])
    for x in sorted((x for x in bad if x["id"] in byid and x["what"].startswith(what)),
                    key=lambda x: sum(len(f["text"]) for f in byid[x["id"]]["files"])):
        c = byid[x["id"]]
        cx.violation(what="%s: specification says %s %s, tool says %s %s" %
                          (x["what"], x["spec"], json.dumps(x["want"])[:300], x["saw"], json.dumps(x["got"])[:300]),
                     files={"/".join(f["p"]): f["text"] for f in c["files"]},
                     links={"/".join(l["p"]): "/".join(l["to"]) for l in c["links"]}, root="/".join(c["root"]))
    cx.count("ignored_rules_told", sum(len(c["said"][0]) for c in good))
    for c in good[:2]:
        cx.sample({"/".join(f["p"]): f["text"] for f in c["files"]})


def includes(what, nq, nt):
    def run(cx):
        n = nt if cx.thorough() else nq
        todo = [(None, c) for c in pairs()] + \
               [("%d/%s/%d" % (cx.seed, cx.pid, i), None) for i in range(n)]
        with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
            cases = [c for c in pool.imap(_tree, todo, 16) if c is not None]
        cx.count("tool_runs", 2 * len(cases))
        for k in range(0, len(cases), 6000):
            decide(cx, cases[k:k + 6000], what)
    return run


# ------------------------------------------------------------------ patching through includes
def untag(y):
    t = y["t"]
    if t == "m":
        return {k: untag(v) for k, v in y["m"]}
    if t == "a":
        return [untag(v) for v in y["a"]]
    if t == "i":
        n = 0
        for x in y["i"]:
            n = n << 16 | x
        return n - (1 << 64) if n >> 63 else n
    return {"s": lambda: y["s"], "b": lambda: y["b"], "n": lambda: None}[t]()


def split_patch(R, patch, where, files, depth=0):
    """Move rules of a mapping into included files; returns what stays."""
    keep, parts = {}, {}
    names = [["inc1.yaml"], ["sub", "inc2.yaml"], ["sub", "inc3.yaml"]]
    for k, v in patch.items():
        f = R.choice([None, None, 0, 1, 2])
        if isinstance(v, dict) and len(v) > 1 and R.random() < 0.5:
            half = {x: y for x, y in v.items() if R.random() < 0.5}
            keep[k] = {x: y for x, y in v.items() if x not in half}
            parts.setdefault(f if f is not None else 0, {})[k] = half
        elif isinstance(v, list) and len(v) > 1 and R.random() < 0.5:
            keep[k] = v[:1] if R.random() < 0.5 else v[0]
            parts.setdefault(f if f is not None else 0, {})[k] = v[1:]
        elif f is None:
            keep[k] = v
        else:
            parts.setdefault(f, {})[k] = v
    for k, v in list(keep.items()):
        if depth == 0 and not k.startswith("_") and isinstance(v, dict) and v and R.random() < 0.4:
            keep[k] = split_patch(R, v, where, files, 1)
    inc = []
    for f in sorted(parts):
        p = names[f][:-1] + ["%d%s" % (len(files), names[f][-1])]
        files.append((p, parts[f]))
        inc.append("/".join(p))
    if inc:
        keep["_include"] = inc if len(inc) > 1 or R.random() < 0.5 else inc[0]
    return keep


def _through(a):
    seed, prof, cid = a
    t = _W["tool"]
    if t.hung > 3:
        return []
    cs = gen.make_cases(seed, prof, t, cid)
    R = random.Random(seed + "/split")
    out = []
    for c in cs:
        if not c["patch"]:
            continue
        root = os.path.join(t.cwd, "t")
        os.makedirs(os.path.join(root, "sub"))
        try:
            files = []
            m = split_patch(R, untag({"t": "m", "m": c["patch"]}), [], files)
            svd = R.choice(["../in.svd", "./../in.svd", "sub/../../in.svd"])
            items = list(m.items()) + [("_svd", svd)]
            R.shuffle(items)
            # other files are named relative to the first file
            for f in c["files"]:
                shutil.copy(os.path.join(t.cwd, f["n"]), os.path.join(root, f["n"]))
            main = os.path.join(root, "main.yaml")
            texts = {"main.yaml": gen.ytext(dict(items))}
            for p, x in files:
                texts["/".join(p)] = gen.ytext(x) or "{}\n"
            for n, x in texts.items():
                with open(os.path.join(root, n), "w") as f:
                    f.write(x)
            s, o = t.run("expand-patch", main)
            if s != "ok":
                c = dict(c, id=c["id"] + "-x", obs=[{"at": "end", "out": "panic", "dev": c["dev"]}])
                out.append(c)
                continue
            y = from_yaml(o)
            dst = os.path.join(root, "out.svd")
            s, _ = t.run("patch", "t/main.yaml", dst, "--enum-derive", c["ed"])
            d = None
            if s == "ok":
                try:
                    d = S.project(open(dst).read())
                except (OSError, S.Shape):
                    s = "shape"
            # `_svd` and `_path` are no rules
            pat = [kv for kv in y["m"] if kv[0] not in ("_svd", "_path")]
            for kv in pat:
                if kv[1]["t"] == "m":
                    kv[1]["m"] = [x for x in kv[1]["m"] if x[0] != "_path"]
            out.append(dict(c, id=c["id"] + "-i", patch=pat,
                            obs=[{"at": "end", "out": s, "dev": d if d is not None else c["dev"]}],
                            yaml="".join("# %s\n%s\n" % x for x in texts.items())))
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return out


def through(prof, nq, nt):
    """Generated patches spread over included files do what the merged patch does."""
    from study import judge

    def run(cx):
        n = nt if cx.thorough() else nq
        with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
            cases = [c for cs in pool.imap(_through, [("%d/thr/%d" % (cx.seed, i), prof, "t%d" % i) for i in range(n)], 4)
                     for c in cs]
        cx.count("patches_spread_over_files", len(cases))
        judge(cx, cases, ())
    return run
