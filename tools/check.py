#!/usr/bin/env python3
"""Decide one property: check.py ID TIER

Every property is decided by studies (see props.py).  A study drives the real tool, lets TLC
judge what was recorded against the TLA+ specification, and reports disagreements."""
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
import svdtool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    pass


def listed(pid):
    """known findings of a property: key -> what fails"""
    r = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            if l.startswith("known: property=%s " % pid):
                key, what = l.split(" ", 2)[2].strip().split(" ", 1)
                r[key] = what
    return r


class Ctx:
    """What the studies of one run share and what they found."""

    def __init__(self, pid, tier, seed, root, binary):
        self.pid, self.tier, self.seed, self.root, self.binary = pid, tier, seed, root, binary
        self.viol = []       # dictionaries written to the replay files
        self.known = []      # known findings that still fail
        self.listed = listed(pid)
        self.states = self.trans = self.traces = 0
        self.samples = []
        self.more = {}       # further counts
        self.t0 = time.time()

    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        """seconds this run may still take"""
        return (3000 if self.thorough() else 600) - (time.time() - self.t0)

    def count(self, k, n=1):
        self.more[k] = self.more.get(k, 0) + n

    def violation(self, key=None, **kw):
        """`key`: set when the case is the probe of a known finding"""
        if key and key in self.listed:
            self.known.append("%s %s" % (key, self.listed[key]))
        else:
            self.viol.append(kw)

    def sample(self, s):
        if len(self.samples) < 4:
            s = s if isinstance(s, str) else json.dumps(s)
            self.samples.append(s[:1500])

    def broken(self, why):
        """the check itself does not work: no verdict, unless a violation was already found"""
        raise Broken(why)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = props.PROPS[pid]
    root = svdtool.scratch()
    cx = Ctx(pid, tier, seed, root, None)
    try:
        binary = svdtool.build(root)
        cx.binary = binary
        for study in p["studies"]:
            study(cx)
    except Broken as e:
        print("CHECK ERROR property=%s %s" % (pid, e))
        if not cx.viol:
            sys.exit(2)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    rep = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(rep, ignore_errors=True)
    for t in sorted(set(cx.known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    if cx.viol:
        os.makedirs(rep)
        for i, v in enumerate(cx.viol[:20]):
            path = os.path.join(rep, "%d.json" % i)
            with open(path, "w") as f:
                json.dump(dict(v, property=pid, seed=seed, tier=tier), f, indent=1, default=str)
            if i < 5:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  " + str(v.get("what", ""))[:600])
        print("%d disagreements in all" % len(cx.viol))
    cov = {"states": cx.states, "transitions": cx.trans, "traces_validated_against_impl": cx.traces,
           "samples": cx.samples}
    cov.update(cx.more)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "model_checking"), "coverage": cov,
          "wall_s": round(time.time() - cx.t0, 2), "violations": len(cx.viol),
          "assumptions": p.get("assumptions", props.ASSUME)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d traces validated, %d states, %.0f s, %d violations"
          % (pid, tier, cx.traces, cx.states, time.time() - cx.t0, len(cx.viol)))
    sys.exit(1 if cx.viol else 0)


if __name__ == "__main__":
    main()
