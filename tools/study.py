"""Studies: each returns a function of the run context (check.Ctx)."""
import copy
import json
import os
import random

import gen
import svdlib as S
import svdtool
import trace

CHUNK = 4000


def corrupt(case, R):
    """The same case with one recorded value changed: validation must reject it."""
    c = copy.deepcopy(case)
    d = c["obs"][-1]["dev"]
    spots = []
    for p in d["pers"]:
        spots.append((p, "n"))
        for r in (p["regs"][0] if p["regs"] else []):
            spots.append((r, "n"))
            spots.append((r, "off"))
            for f in (r["fs"][0] if r["k"] == "r" and r["fs"] else []):
                spots += [(f, "n"), (f, "off"), (f, "w")]
    spots.append((d, "n"))
    x, k = R.choice(spots)
    x[k] = x[k] + "Z" if isinstance(x[k], str) else x[k] + 1
    return c


def walk_sections(node, out, depth=0):
    """sections used in a patch (tagged YAML)"""
    if node.get("t") == "m":
        for k, v in node["m"]:
            if k.startswith("_"):
                out["%s" % k] = out.get(k, 0) + 1
            walk_sections(v, out, depth + 1)
    elif node.get("t") == "a":
        for v in node["a"]:
            walk_sections(v, out, depth + 1)


def diffs(a, b, p=""):
    if type(a) is not type(b):
        yield p, a, b
    elif isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                yield from diffs(a.get(k), b.get(k), p + "/" + k)
    elif isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                yield from diffs(x, y, p + "/%d" % i)
    elif a != b:
        yield p, a, b


def judge(cx, cases, formulas=(), R=None):
    """Let TLC decide recorded cases; adds violations."""
    R = R or random.Random(cx.seed)
    for k in range(0, len(cases), CHUNK):
        part = cases[k:k + CHUNK]
        good = [c for c in part if c["obs"][-1]["out"] == "ok" and c["obs"][-1]["dev"]["pers"]]
        bent = []
        for i, c in enumerate(R.sample(good, min(6, len(good)))):
            b = corrupt(c, R)
            b["id"] = "corrupt-%d" % i
            b["from"] = c["id"]
            bent.append(b)
        bad, out, rng, done, st = trace.validate(part + [{x: y for x, y in b.items() if x != "from"} for b in bent],
                                                 cx.root, formulas=formulas, timeout=max(60, int(cx.left())))
        if bad is None:
            cx.broken("TLC: " + out[-1500:])
        cx.trans += st[0]
        cx.states += st[1]
        badids = {x["id"] for x in bad}
        for b in bent:
            if b["id"] not in badids and b["id"] not in rng and b["from"] not in badids:
                cx.broken("a corrupted observation was accepted (%s)" % b["from"])
        cx.count("corrupted_observations_rejected", len([b for b in bent if b["id"] in badids]))
        missing = [c["id"] for c in part if c["id"] not in done and c["id"] not in rng]
        if missing:
            cx.broken("no verdict for %d cases, e.g. %s" % (len(missing), missing[0]))
        cx.traces += len([c for c in part if c["id"] not in rng])
        cx.count("observations_compared", sum(len(c["obs"]) for c in part if c["id"] not in rng))
        cx.count("outside_model_range", len([c for c in part if c["id"] in rng]))
        ends = cx.more.setdefault("outcomes", {})
        secs = cx.more.setdefault("rules_in_accepted_patches", {})
        for c in part:
            if c["id"] in done:
                ends[done[c["id"]]] = ends.get(done[c["id"]], 0) + 1
                if done[c["id"]] == "ok":
                    walk_sections({"t": "m", "m": c["patch"]}, secs)
        byid = {c["id"]: c for c in part}
        first = {}
        for x in bad:
            if x["id"] in byid and x["id"] not in first:
                first[x["id"]] = x
        for x in sorted(first.values(), key=lambda x: len(byid[x["id"]]["yaml"])):
            c = byid[x["id"]]
            o = [o for o in c["obs"] if o["at"] == x["at"]][0]
            ds = list(diffs(x["dev"][0], o["dev"]))[:6] if x["dev"] and x["saw"] == "ok" else []
            what = "patch at %s: specification says %s, tool says %s" % (x["at"], x["spec"], x["saw"])
            for p, a, b in ds[:2]:
                what += "; %s: %s expected, %s found" % (p, json.dumps(a)[:200], json.dumps(b)[:200])
            cx.violation(key=c.get("key"), what=what, patch=c["yaml"], enum_derive=c["ed"], svd=S.render(c["dev"]),
                         other=[f["n"] for f in c["files"]], at=x["at"], expected=x["spec"], observed=x["saw"],
                         differences=[{"path": p, "expected": a, "observed": b} for p, a, b in ds])
        for c in good[:2]:
            cx.sample({"patch": c["yaml"], "peripherals": len(c["dev"]["pers"]), "outcome": done.get(c["id"])})


def patch(prof, nq, nt, formulas=()):
    """Guided random patches, run on the tool and validated against PatchMachine."""
    def run(cx):
        n = nt if cx.thorough() else nq
        step = 2500
        for k in range(0, n, step):
            if k and cx.left() < 120:
                break
            cases, runs = trace.record(cx.binary, cx.root, prof, "%d/%s/%d" % (cx.seed, cx.pid, k), min(step, n - k))
            cx.count("tool_runs", runs)
            if not [c for c in cases if c["obs"][-1]["out"] == "ok"]:
                # nothing works: the simplest of all runs shows it
                for c in cases[:3]:
                    cx.violation(what="no patch at all is accepted by the tool", patch=c["yaml"])
                if not cases:
                    cx.violation(what="the tool reads no device at all")
                return
            judge(cx, cases, formulas, random.Random("%d/%d" % (cx.seed, k)))
    return run
