"""Studies of the commands that show a device: mmap and interrupts, and what they share."""
import copy
import json
import multiprocessing
import os
import random
import shutil

import gen
import svdlib as S
import svdtool
import trace

_W = {}


def _init(binary, root):
    svdtool.limit()
    d = os.path.join(root, "v%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W["tool"] = svdtool.Tool(binary, d)


def _call(a):
    make, seed = a
    t = _W["tool"]
    if t.hung > 3:
        return [], 0
    r0 = t.runs
    d = os.path.join(t.cwd, "t")
    os.makedirs(d)
    try:
        cs = make(t, seed, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return cs, t.runs - r0


def study(module, make, formulas, invariants, bend, nq, nt, replay, fixed=None, chunk=3000, describe=None):
    """Cases recorded by make(tool, seed, dir) are validated against a module of the specification.
    bend(case, R) corrupts an observation (or returns None)."""
    def run(cx):
        n = nt if cx.thorough() else nq
        todo = [(make, "%d/%s/%s/%d" % (cx.seed, cx.pid, module, i)) for i in range(n)]
        todo = [(make, f) for f in (fixed() if fixed else [])] + todo
        for k in range(0, len(todo), chunk):
            if k and cx.left() < 150:
                break
            cases = []
            with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
                for cs, runs in pool.imap(_call, todo[k:k + chunk], 8):
                    cases += cs
                    cx.count("tool_runs", runs)
            judge(cx, cases, module, formulas, invariants, bend, replay, describe, "%d/%d" % (cx.seed, k))
    return run


def judge(cx, cases, module, formulas, invariants, bend, replay, describe=None, seed="1"):
    R = random.Random(seed)
    for i, c in enumerate(cases):
        c["id"] = "%d" % i
    bent = []
    good = [c for c in cases if c.get("bendable", True)]
    for c in R.sample(good, min(12, len(good))):
        b = bend(copy.deepcopy(c), R)
        if b is not None and len(bent) < 6:
            b["of"], b["id"] = c["id"], "corrupt-%d" % len(bent)
            bent.append(b)
    if not bent and cases and cases[0].get("bendable", True) and good:
        pass
    path = os.path.join(cx.root, module + ".ndjson")
    with open(path, "w") as f:
        for c in cases + bent:
            f.write(json.dumps({k: v for k, v in c.items() if k not in ("text", "of", "bendable", "key")}) + "\n")
    cfg = os.path.join(cx.root, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("PROPERTY %s\n" % x for x in formulas) +
                "".join("INVARIANT %s\n" % x for x in invariants))
    r = trace.run_cases(cx, module, cfg, path)
    bad = {}
    for x in r["bad"]:
        bad.setdefault(x["id"], x)
    for b in bent:
        if b["id"] not in bad and b["of"] not in bad and b["id"] not in r["range"]:
            cx.broken("a corrupted observation was accepted: " + json.dumps(b)[:1500])
    cx.count("corrupted_observations_rejected", len([b for b in bent if b["id"] in bad]))
    missing = [c for c in cases if c["id"] not in r["done"] and c["id"] not in r["range"]]
    if missing:
        cx.broken("no verdict for %d cases, e.g. %s" % (len(missing), json.dumps(missing[0])[:2000]))
    cx.traces += len([c for c in cases if c["id"] not in r["range"]])
    cx.count("outside_model_range", len(r["range"]))
    ends = cx.more.setdefault("outcomes", {})
    byid = {c["id"]: c for c in cases}
    for k, d in r["done"].items():
        if k in byid:
            ends[d["st"]] = ends.get(d["st"], 0) + 1
            for q, v in d.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    cx.more["most_" + q] = max(cx.more.get("most_" + q, 0), v)
    for x in sorted((x for i, x in bad.items() if i in byid), key=lambda x: len(json.dumps(byid[x["id"]].get("text", "")))):
        cx.violation(key=byid[x["id"]].get("key"), what="%s: %s" % (replay, json.dumps({k: v for k, v in x.items() if k != "id"})[:900]),
                     **byid[x["id"]].get("text", {}))
    for c in cases[:400:100]:
        cx.sample(describe(c) if describe else c.get("text", ""))


# ------------------------------------------------------------------ devices with all kinds of elements
def messy(R, d):
    if not d or R.random() < 0.55:
        return d
    t = d[0]
    return [R.choice([t.replace(" ", "  "), t.replace(" ", "\n      "), " " + t, t + " ", "\t" + t.replace(" ", "\t"),
                      t + "\n  " + t, t + ": a & b <c> \"d\"", " ", t + "\n\n" + t])]


def walk(kids):
    for x in kids:
        yield x
        if x["k"] == "c":
            yield from walk(x["ch"])


def v_device(R, texts=True, perdim=0.15, chain=0.35, far=0.3, many=None):
    """a device with arrays at every level, chains of derived peripherals and odd texts"""
    dev = gen.g_device(R, R.choice([0.5, 1.0, 1.5]), many or R.choice([1, 2, 3, 4, 5, 6]), chain)
    pers = dev["pers"]
    for p in list(pers):
        if R.random() < perdim:
            k = R.choice([1, 2, 3])
            p["dim"] = S.dim(k, R.choice([0x400, 0x1000, 0x40]), R.choice([None, None, [chr(65 + i) for i in range(k)]]))
            old = p["n"]
            p["n"] = old + R.choice(["_%s", "[%s]", "%sX"])
            if R.random() < 0.5 and p["d"]:
                p["d"] = [p["d"][0] + " %s"]
            for q in pers:
                if q["df"] == [old]:
                    q["df"] = [p["n"]]
            if R.random() < 0.3:
                p["dn"] = [p["n"]]
    # derived of derived
    derived = [p for p in pers if p["df"]]
    for p in derived:
        other = [q for q in derived if q is not p and q["df"] and q["df"] != [p["n"]]]
        if other and R.random() < 0.5:
            q = R.choice(other)
            seen, z = {p["n"]}, q
            while z is not None and z["n"] not in seen:
                seen.add(z["n"])
                z = next((y for y in pers if z["df"] == [y["n"]]), None)
            if z is None:
                p["df"] = [q["n"]]
    if R.random() < far:
        p = R.choice(pers)
        p["base"] = S.w(R.choice([0, 4, 0xE000E000, 0xFFFFFC00, 0xABCDEF00, 0x100000000, 0x12_3456_789A_BCD0]))
    for p in pers:
        if texts:
            p["d"] = messy(R, p["d"])
            for i in p["ints"]:
                i["d"] = messy(R, i["d"])
            for x in walk(p["regs"][0] if p["regs"] else []):
                x["d"] = messy(R, x["d"])
                for f in (x["fs"][0] if x["k"] == "r" and x["fs"] else []):
                    f["d"] = messy(R, f["d"])
    return dev


def lines_of(o):
    return o[:-1].split("\n") if o.endswith("\n") else o.split("\n") + ["(no final newline)"]


# ------------------------------------------------------------------ mmap
def mk_mmap(tool, seed, d):
    R = random.Random(seed)
    dev = v_device(R)
    text = S.render(dev, R if R.random() < 0.4 else None)
    with open(os.path.join(d, "a.svd"), "w") as f:
        f.write(text)
    s, o = tool.run("mmap", os.path.join(d, "a.svd"))
    return [{"dev": dev, "out": s, "lines": lines_of(o) if s == "ok" else [], "text": {"svd": text}}]


def bend_lines(c, R):
    if c["out"] != "ok" or len(c["lines"]) < 2:
        return None
    k = R.randrange(3)
    i = R.randrange(len(c["lines"]))
    if k == 0:
        c["lines"][i] += "x"
    elif k == 1:
        del c["lines"][i]
    else:
        c["lines"].insert(i, "0x0 again")
    return c


def mmap(nq, nt):
    return study("Mmap", mk_mmap, ["Grows"], ["Complete"], bend_lines, nq, nt, "mmap")


# ------------------------------------------------------------------ interrupts
def mk_ints(tool, seed, d):
    R = random.Random(seed)
    dev = v_device(R, many=R.choice([1, 2, 3, 4, 5, 8]))
    top = R.choice([4, 12, 12, 40, 200])
    for p in dev["pers"]:
        if R.random() < 0.7:
            p["ints"] = [{"n": "I%d_%s" % (i, p["n"][:3]), "d": messy(R, S.opt(gen.g_desc(R, i))), "v": R.randrange(top)}
                         for i in range(R.choice([0, 1, 1, 2, 3, 6]))]
            if R.random() < 0.3:
                p["ints"].sort(key=lambda i: i["v"])
            if R.random() < 0.05 and p["ints"]:
                p["ints"].append(dict(R.choice(p["ints"])))
    text = S.render(dev, R if R.random() < 0.5 else None)
    if R.random() < 0.2:
        text = text.replace("<interrupt>", "<interrupt><!-- one -->").replace("</interrupt>", "\n  </interrupt>\n")
    with open(os.path.join(d, "a.svd"), "w") as f:
        f.write(text)
    gaps = R.random() < 0.7
    s, o = tool.run("interrupts", os.path.join(d, "a.svd"), *([] if gaps else ["--no-gaps"]))
    ls = (lines_of(o) if o else []) if s == "ok" else []
    return [{"pers": [{"n": p["n"], "ints": p["ints"]} for p in dev["pers"]], "gaps": gaps, "out": s, "lines": ls,
             "text": {"svd": text, "gaps": gaps}}]


def bend_ints(c, R):
    if c["out"] != "ok" or not c["lines"] or c["lines"] == ["Gaps: "]:
        return None
    i = R.randrange(len(c["lines"]))
    c["lines"][i] += "0"
    return c


def interrupts(nq, nt):
    return study("Interrupts", mk_ints, [], ["GapsExact", "Once", "AllListed"], bend_ints, nq, nt, "interrupts")
