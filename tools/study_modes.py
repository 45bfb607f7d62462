"""Enumerated values shared by several fields, written in the three ways of --enum-derive."""
import os
import random

import gen
import study_view as V
import svdlib as S

MODES = ["none", "enum", "field"]


def cover(R, names):
    """disjoint sets of names with a specification each"""
    names = list(names)
    R.shuffle(names)
    out = []
    while names and len(out) < 4:
        k = min(len(names), R.choice([1, 1, 2, 2, 3, 5]))
        out.append(names[:k])
        names = names[k:]
    return out


def spec_for(R, want, every):
    """a specification that matches exactly the wanted names"""
    tries = [",".join(R.sample(want, len(want)))]
    pre = os.path.commonprefix(want)
    if pre:
        tries += [pre + "*", pre + "*" if len(want) > 1 else want[0]]
    if len(want) > 1 and len({len(n) for n in want}) == 1:
        tries.append("".join(x[0] if len(set(x)) == 1 else "?" for x in zip(*want)))
        tries.append("".join(x[0] if len(set(x)) == 1 else "[%s]" % "".join(sorted(set(x))) for x in zip(*want)))
    tries.append("{" + ",".join(want) + "}")
    R.shuffle(tries)
    for s in tries:
        if any(c in "".join(every) for c in "[]{}*?,"):
            return None if any(c in "[]{}*?," for n in want for c in n) else ",".join(want)
        if sorted(n for n in every if gen.match_simple(s, n)) == sorted(want):
            return s
    return ",".join(want)


def values(R, w):
    top = 2 ** min(w, 5)
    h = {}
    for i, v in enumerate(R.sample(range(top), min(top, R.randrange(1, 4)))):
        h[R.choice(["Off", "On", "Div", "Mode"]) + str(i)] = [v, R.choice(["", "text", "value %d" % v])]
    if R.random() < 0.15:
        h["Other"] = [-1, "the rest"]
    if R.random() < 0.2:
        h["_name"] = R.choice(["EV_A", "EVB"]) + str(R.randrange(10 ** 6))     # given once
    if R.random() < 0.04:
        h["1st"] = [0, "no name"]
    return h


def rule(R, w):
    k = R.random()
    if k < 0.4:
        return values(R, w)
    v = {}
    if k < 0.8:
        v["_read"] = values(R, w)
    if k > 0.6:
        v["_write"] = values(R, w)
    if R.random() < 0.2:
        v = dict(reversed(list(v.items())))
    return v


def mk_modes(tool, seed, d):
    R = random.Random(seed)
    dev = V.v_device(R, texts=False, perdim=0.05, chain=0.1, far=0.05, many=R.choice([1, 2]))
    fresh = R.random() < 0.85
    patch = {}

    def blocks(xs, depth):
        h = {}
        names = [x["n"] for x in xs]
        for x in xs:
            if names.count(x["n"]) > 1 or any(c in x["n"] for c in "[]*?{},"):
                continue
            if x["k"] == "c":
                if R.random() < 0.5:
                    b = blocks(x["ch"], depth + 1)
                    if b:
                        h[x["n"]] = b
                continue
            if x["df"]:
                continue
            fs = x["fs"][0] if x["fs"] else []
            if fresh:
                for f in fs:
                    if R.random() < 0.8 and not f["df"]:
                        f["evs"] = []
                if any(f["df"] for f in fs):
                    continue
            # fields with the same width, without values
            ok = [f for f in fs if not fresh or not f["evs"]]
            if len({f["n"] for f in fs}) < len(fs) or not ok or R.random() < 0.3:
                continue
            body = {}
            for w in sorted({f["w"] for f in ok}):
                mine = [f["n"] for f in ok if f["w"] == w]
                for want in cover(R, mine):
                    s = spec_for(R, want, [f["n"] for f in fs])
                    if s is not None and s not in body:
                        body[s] = rule(R, w)
            if not fresh and R.random() < 0.5 and len(ok) > 1:
                s = R.choice(["*", ok[0]["n"][:1] + "*"])
                body[s] = rule(R, ok[0]["w"])
            if body:
                h[x["n"]] = body
        return h
    for p in dev["pers"]:
        if p["df"] or any(c in p["n"] for c in "[]*?{},"):
            continue
        h = blocks(p["regs"][0] if p["regs"] else [], 0)
        if h:
            patch[p["n"]] = h
    # derived elements elsewhere refer to what may move: only whole devices with nothing derived from patched fields
    if fresh and any(f["df"] or any(e["df"] for e in f["evs"]) for p in dev["pers"] for x in V.walk(p["regs"][0] if p["regs"] else [])
                     if x["k"] == "r" for f in (x["fs"][0] if x["fs"] else [])):
        for p in dev["pers"]:
            for x in V.walk(p["regs"][0] if p["regs"] else []):
                if x["k"] == "r":
                    for f in (x["fs"][0] if x["fs"] else []):
                        if f["df"]:
                            f["df"] = []
                        f["evs"] = [e for e in f["evs"] if not e["df"]]
    t = S.render(dev)
    dev = S.project(t)
    with open(os.path.join(d, "in.svd"), "w") as f:
        f.write(t)
    with open(os.path.join(d, "p.yaml"), "w") as f:
        f.write(gen.ytext(dict([("_svd", "in.svd")] + list(patch.items()))))
    runs = []
    for m in R.sample(MODES, 3):
        out, x = os.path.join(d, m + ".svd"), os.path.join(d, m + "-x.svd")
        more = [] if m == "enum" and R.random() < 0.5 else ["--enum-derive", m]
        s, _ = tool.run("patch", os.path.join(d, "p.yaml"), out, *more)
        got = xgot = dev
        xs = "err"
        try:
            if s == "ok":
                got = S.project(open(out).read())
                xs, _ = tool.run("convert", out, x, "--expand")
                if xs == "ok":
                    xgot = S.project(open(x).read())
        except (OSError, S.Shape) as e:
            s = "unreadable: %s" % e
        runs.append({"mode": m, "out": s, "dev": got, "xout": xs, "x": xgot})
    return [{"dev": dev, "m": gen.ymap(dict([("_svd", "in.svd")] + list(patch.items()))), "fresh": fresh, "runs": runs,
             "text": {"svd": t, "patch": gen.ytext(patch)}}]


def bend_modes(c, R):
    if not c["fresh"]:
        return None
    for r in R.sample(c["runs"], 3):
        if r["xout"] == "ok" and r["out"] == "ok":
            for p in r["x"]["pers"]:
                for x in V.walk(p["regs"][0] if p["regs"] else []):
                    for f in (x["fs"][0] if x["k"] == "r" and x["fs"] else []):
                        if f["evs"] and f["evs"][0]["vals"] and (r["mode"] != "field"):
                            f["evs"][0]["vals"][0]["n"] += "X"
                            return c
    return None


def modes(nq, nt):
    return V.study("Modes", mk_modes, [], ["ModesAlike", "LinksAsAsked"], bend_modes, nq, nt, "enum-derive modes")
