"""The same command with the same files, again and elsewhere."""
import hashlib
import json
import os
import random

import gen
import study_conv
import study_files as F
import study_html as H
import study_view as V
import svdlib as S


def digest(b):
    return hashlib.sha256(b).hexdigest()[:16]


def tree(d, o=None):
    """contents of all files (the name o of an output may stand in them)"""
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as g:
                b = g.read()
            if o:
                # absolute names tell where the files are
                b = b.replace(d.encode(), b"HERE")
            out[os.path.relpath(q, d)] = digest(b.replace(o.encode(), b"OUT") if o else b)
    return out


def files(R):
    dev = V.v_device(R, many=R.choice([1, 2, 3]))
    H.dress(R, dev)
    two = H.vary(R, S.project(S.render(dev))) if R.random() < 0.6 else V.v_device(R, many=1)
    if two is None:
        two = dev
    two = two[0] if isinstance(two, (list, tuple)) else two
    fs = {"a.svd": S.render(dev, R), "b.svd": S.render(two)}
    # one with a name that differs in case only, which takes much longer
    big = S.project(S.render(dev))
    big["n"] = big["n"].swapcase()
    big["pers"].append(S.per("BIG", 0x7000, [S.reg("R%d" % i, 4 * i, [S.field("F%d" % j, j, 1) for j in range(8)]) for i in range(R.choice([10, 120]))]))
    fs["big.svd"] = S.render(big)
    reg = [p["n"] for p in dev["pers"] if not p["df"] and not any(c in p["n"] for c in "[]%")]
    p1 = {"_svd": "a.svd", "_include": ["inc.yaml"], "_modify": {"version": "1.%d" % R.randrange(10)}}
    inc = {}
    if reg:
        p1[R.choice(reg)] = {"_strip": R.sample(["CH1_", "CFG", "T", "X_", "S?"], 2)}
        n = R.choice(reg)
        inc[n] = {"*": {"*": {"_read": {"On": [1, "one"], "Off": [0, "zero"]}}}} if R.random() < 0.4 else \
            {"_modify": {"?~NOSUCH": {"description": "none"}}}
        if R.random() < 0.5:
            inc["_copy"] = {"NEWP": {"from": n}}
    if R.random() < 0.2:
        inc["_delete"] = R.choice([["NOSUCH"], ["?~NOSUCH*"]])
    fs["p.yaml"] = gen.ytext(p1)
    fs["inc.yaml"] = gen.ytext(inc)
    cfg = study_conv.g_cfg(R, 0.85 if R.random() < 0.5 else 0.0)
    fs["cfg.json"] = json.dumps(cfg)
    fs["cfg.yaml"] = "".join('%s: "%s"\n' % (k, v) for k, v in R.sample(sorted(cfg.items()), len(cfg))) or "{}"
    return fs


COMMANDS = [
    (["patch", "p.yaml", "OUT.svd"], ["p.yaml", "inc.yaml", "a.svd"]),
    (["patch", "p.yaml", "OUT.svd", "--enum-derive", "field"], ["p.yaml", "inc.yaml", "a.svd"]),
    (["patch", "p.yaml", "OUT.svd", "--enum-derive", "none", "--format-config", "cfg.json"], ["p.yaml", "inc.yaml", "a.svd", "cfg.json"]),
    (["patch", "p.yaml", "OUT.svd", "--show-patch-on-error"], ["p.yaml", "inc.yaml", "a.svd"]),
    (["patch", "p.yaml", "OUT.svd", "--post-validate"], ["p.yaml", "inc.yaml", "a.svd"]),
    (["expand-patch", "p.yaml"], ["p.yaml", "inc.yaml"]),
    (["expand-patch", "p.yaml", "OUT.yaml"], ["p.yaml", "inc.yaml"]),
    (["makedeps", "p.yaml", "OUT.d"], ["p.yaml", "inc.yaml"]),
    (["interrupts", "a.svd"], ["a.svd"]),
    (["interrupts", "a.svd", "--no-gaps"], ["a.svd"]),
    (["mmap", "a.svd"], ["a.svd"]),
    (["info", "a.svd", "device-name"], ["a.svd"]),
    (["info", "a.svd", "peripheral-names"], ["a.svd"]),
    (["convert", "a.svd", "OUT.json"], ["a.svd"]),
    (["convert", "a.svd", "OUT.yaml", "--expand"], ["a.svd"]),
    (["convert", "a.svd", "OUT.svd", "--expand", "--expand-properties"], ["a.svd"]),
    (["convert", "a.svd", "OUT.svd", "--format-config", "cfg.json"], ["a.svd", "cfg.json"]),
    (["convert", "a.svd", "OUT.svd", "--format-config", "cfg.yaml"], ["a.svd", "cfg.yaml"]),
    (["patch", "p.yaml", "OUT.svd", "--format-config", "cfg.yaml"], ["p.yaml", "inc.yaml", "a.svd", "cfg.yaml"]),
    (["convert", "a.svd", "OUT.svd", "--ignore-enums"], ["a.svd"]),
    (["html", "OUT", "a.svd"], ["a.svd"]),
    (["html", "OUT", "big.svd", "a.svd"], ["a.svd", "big.svd"]),
    (["htmlcompare", "OUT", "a.svd", "b.svd"], ["a.svd", "b.svd"]),
]


def probe(tool, d, key):
    """two files of one device name, the first of which takes longer"""
    small = S.device([S.per("P", 0x1000, [S.reg("R", 0, [S.field("F", 0, 1)])])])
    big = S.device([S.per("P", 0x1000, [S.reg("R%d" % i, 4 * i, [S.field("F%d" % j, j, 1) for j in range(16)]) for i in range(300)])])
    fs = {"a.svd": S.render(small), "big.svd": S.render(big)}
    cmd, runs, home = ["html", "OUT", "big.svd", "a.svd"], [], tool.cwd
    try:
        for n in ("1", "7"):
            place = os.path.join(d, "w" + n)
            os.makedirs(place)
            tool.cwd = place
            for x in fs:
                with open(os.path.join(place, x), "w") as f:
                    f.write(fs[x])
            s, say = tool.run("html", "out", "big.svd", "a.svd", env={"RAYON_NUM_THREADS": n})
            left = sorted([x.replace("out", "OUT"), h] for x, h in tree(place, "out").items() if x.startswith("out"))
            runs.append({"cmd": cmd, "ins": sorted([x, digest(fs[x].encode())] for x in fs), "out": s, "say": "", "left": left, "kept": True})
    finally:
        tool.cwd = home
    return [{"runs": runs, "text": {"files": {"a.svd": fs["a.svd"]}, "commands": [cmd]}, "key": key, "bendable": False}]


def mk_twice(tool, seed, d):
    if seed.startswith("known:"):
        return probe(tool, d, seed[6:])
    R = random.Random(seed)
    fs = files(R)
    cmds = R.sample(COMMANDS, R.choice([5, 7, 9]))
    runs, said = [], []
    home = tool.cwd
    try:
        for k in range(3):
            place = os.path.join(d, ["w", "x y/é", "deep/er/and/deeper"][k])
            os.makedirs(place)
            tool.cwd = place
            names = list(fs)
            R.shuffle(names)
            for n in names:
                with open(os.path.join(place, n), "w") as f:
                    f.write(fs[n])
                if k == 1:
                    t = R.choice([0, 10 ** 9, 2 * 10 ** 9])
                    os.utime(os.path.join(place, n), (t, t))
            if k:
                for n in R.sample(["a.json", "c.svd", "inc.yml", "p.yml", ".svdtools", "index.html", "style.css", "a.svd.patched"], 3):
                    with open(os.path.join(place, n), "w") as f:
                        f.write("noise")
            env = [{}, {"RAYON_NUM_THREADS": "1", "LANG": "de_DE.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Tokyo", "RUST_LOG": "trace"},
                   {"RAYON_NUM_THREADS": "7", "TZ": "America/New_York", "COLUMNS": "20", "NO_COLOR": "1", "RUST_BACKTRACE": "1"}][k]
            todo = [x for x in cmds for _ in range(2 if k == 2 else 1)]
            if k:
                R.shuffle(todo)
            for n, (cmd, ins) in enumerate(todo):
                o = "out%d" % n
                args = [x.replace("OUT", o) for x in cmd]
                # an old output does not matter
                old = R.random() < 0.3 and cmd[-1] != "OUT"
                outs = [x for x in args if x.startswith(o)]
                if outs and cmd[0].startswith("html"):
                    os.mkdir(os.path.join(place, o))
                elif outs and old:
                    with open(os.path.join(place, outs[0]), "w") as f:
                        f.write("old" * R.randrange(10000))
                elif cmd[0].startswith("html"):
                    pass
                was = tree(place)
                if cmd[0] in ("patch", "convert", "mmap", "interrupts", "info") and R.random() < 0.3:
                    args = [os.path.join(place, x) if x in fs or x in outs else x for x in args]
                s, say = tool.run(*args, env=env)
                if cmd[0] == "html":
                    # the files are worked on at the same time
                    say = "\n".join(sorted(say.split("\n")))
                now = tree(place)
                told = tree(place, o)
                changed = {x for x in set(was) | set(now) if was.get(x) != now.get(x)}
                if s == "ok" and outs and not cmd[0].startswith("html"):
                    changed.add(outs[0])
                left = sorted([x.replace(o, "OUT"), told.get(x, "gone")] for x in changed if x.startswith(o))
                if s != "ok" and "big.svd" in cmd:
                    # and how far each of them got when one is refused is left open
                    say, left = "", []
                runs.append({"cmd": cmd, "ins": sorted([x, digest(fs[x].encode())] for x in ins), "out": s,
                             "say": digest(say.replace(place, "HERE").replace(o, "OUT").encode()), "left": left,
                             "kept": not [x for x in changed if not x.startswith(o)]})
    finally:
        tool.cwd = home
    return [{"runs": runs, "text": {"files": fs, "commands": [x[0] for x in cmds]}}]


def bend_twice(c, R):
    r = R.choice(c["runs"])
    k = R.randrange(3)
    if k == 0:
        r["say"] += "0"
    elif k == 1 and r["left"]:
        r["left"][0][1] += "0"
    else:
        r["kept"] = False
    return c


def twice(nq, nt):
    return V.study("Twice", mk_twice, ["Kept"], ["OneAnswer"], bend_twice, nq, nt, "the same command again", lambda: ["known:html-same-page"])
