"""Trace validation: record runs of the real tool and let TLC decide them against PatchMachine."""
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time

import gen
import svdtool

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")

_W = {}


def _init(binary, root, prof):
    svdtool.limit()
    d = os.path.join(root, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W["tool"] = svdtool.Tool(binary, d)
    _W["prof"] = prof


def _one(a):
    seed, cid = a
    t = _W["tool"]
    if t.hung > 3:
        return [], 0         # enough runs that do not end: they are reported as they are
    r0 = t.runs
    cs = gen.make_cases(seed, _W["prof"], t, cid)
    return cs, t.runs - r0


def record(binary, root, prof, seed, n, workers=8):
    cases, runs = [], 0
    with multiprocessing.Pool(workers, _init, (binary, root, prof)) as pool:
        for cs, r in pool.imap(_one, [("%s/%d" % (seed, i), "%d" % i) for i in range(n)], 8):
            cases += cs
            runs += r
    return cases, runs


def tlc(module, cfg, root, env=None, workers=8, timeout=850, extra=(), heap="8g"):
    meta = os.path.join(root, "tlc-" + module + str(time.time_ns()))
    os.makedirs(meta)
    cp = "/opt/veriftools/tla/*"
    cmd = ["timeout", str(timeout), "tlc", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m" % heap
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def run_cases(cx, module, cfg, path, extra_env=None):
    """Run a module over recorded cases; its lines MISMATCH / RANGE / DONE are the verdicts."""
    env = {"CASES": path}
    env.update(extra_env or {})
    rc, out = tlc(module, cfg, cx.root, env, timeout=max(60, int(cx.left())))
    r = {"bad": [], "range": set(), "done": {}, "out": out}
    for l in out.splitlines():
        l = unq(l)
        if l.startswith("MISMATCH "):
            r["bad"].append(json.loads(l[9:]))
        elif l.startswith("RANGE "):
            r["range"].add(json.loads(l[6:])["id"])
        elif l.startswith("DONE "):
            d = json.loads(l[5:])
            r["done"][d["id"]] = d
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    if m:
        cx.trans += int(m.group(1))
        cx.states += int(m.group(2))
    if "No error has been found" not in out:
        i = out.find("Error:")
        cx.broken("TLC on %s: %s" % (module, out[i:i + 1500]))
    return r


def unq(line):
    """lines printed by PrintT of a string"""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        try:
            return json.loads(line)
        except ValueError:
            return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
    return line


def validate(cases, root, workers=8, timeout=850, formulas=()):
    path = os.path.join(root, "cases.ndjson")
    with open(path, "w") as f:
        for c in cases:
            c = {k: v for k, v in c.items() if k != "yaml"}
            f.write(json.dumps(c) + "\n")
    cfg = os.path.join(root, "PatchMachine.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n")
        for x in formulas:
            f.write("PROPERTY %s\n" % x)
    rc, out = tlc("PatchProps", cfg, root, {"CASES": path}, workers, timeout)
    bad, rng, done = [], set(), {}
    for l in out.splitlines():
        l = unq(l)
        if l.startswith("MISMATCH "):
            bad.append(json.loads(l[9:]))
        elif l.startswith("RANGE "):
            rng.add(json.loads(l[6:])["id"])
        elif l.startswith("DONE "):
            d = json.loads(l[5:])
            done[d["id"]] = d["st"]
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if "No error has been found" not in out:
        return None, out, rng, done, st
    return bad, out, rng, done, st
