"""What is said about a patch that is refused: where it failed, and the patch when it was asked for."""
import multiprocessing
import os
import random
import re

import directed
import gen
import study_inc
import study_view as V
import svdlib as S
import svdtool
import trace

QUOTED = re.compile(r"`([^`]*)`")


def heard(err):
    """(names quoted, in order; text of the patch shown)"""
    err = err.split("Stack backtrace:")[0]
    said, shown, inside = [], [], None
    for l in err.splitlines():
        if inside is not None:
            if l.startswith(inside):
                shown.append(l[len(inside):])
                continue
            inside = None
        said += QUOTED.findall(l)
        if "Patches looks like:" in l:
            m = re.match(r"( *)(\d+: )?", l)
            inside = " " * len(m.group(0))
    return said, "\n".join(shown) + "\n" if shown else None


def bare(y):
    """without the notes where it was read"""
    if y["t"] == "m":
        return {"t": "m", "m": [[k, bare(v)] for k, v in y["m"] if k not in ("_path", "_svd")]}
    if y["t"] == "a":
        return {"t": "a", "a": [bare(v) for v in y["a"]]}
    return y


def seen(text):
    try:
        return bare(study_inc.from_yaml(text))
    except Exception as e:
        return {"t": "s", "s": "unreadable: %s" % e}


WORDS = ["x", "a b", " a", "a ", "a: b", "a #b", "- a", "~", "null", "true", "True", "no", "1", "0x10", "1.0", "1e3", ".5", "-", "?", "é", "'", '"', "a'b", 'a"b', "a\\b",
         "{a}", "[a]", "*a", "&a", "!a", "%a", "@a", "a,b", "a\tb", "a\nb", "", "=", "<<", ".inf", ".nan", "0b1", "1_0", "2020-01-01", "'~'", "|", ">", "a|b"]


def aside(R, deep=0):
    """anything that can stand in a patch where it is not looked at"""
    k = R.random()
    if deep > 3 or k < 0.5:
        return R.choice([R.choice(WORDS), R.choice(WORDS), R.randrange(-2 ** 31, 2 ** 40), R.random() < 0.5, None])
    if k < 0.7:
        return [aside(R, deep + 1) for _ in range(R.randrange(0, 4))]
    return {w: aside(R, deep + 1) for w in R.sample(WORDS + ["_delete", "_add", "_copy", "P", "R*"], R.randrange(0, 4))}


_W = {}


def _init(binary, root):
    svdtool.limit()
    d = os.path.join(root, "b%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W["tool"] = svdtool.Tool(binary, d)


def _one(a):
    text, y, patch, ed, asked, trace_on = a
    t = _W["tool"]
    if t.hung > 3:
        return None
    for n, x in (("in.svd", text), ("p.yaml", y)):
        with open(os.path.join(t.cwd, n), "w") as f:
            f.write(x)
    s, _, err = t.run("patch", "p.yaml", "out.svd", "--enum-derive", ed, *(["--show-patch-on-error"] if asked else []), err=True,
                      env={"RUST_BACKTRACE": "1"} if trace_on else None)
    if s == "ok":
        return None
    said, shown = heard(err)
    return {"dev": S.project(text), "patch": patch, "ed": ed, "out": s, "said": said, "asked": asked,
            "shown": [seen(shown)] if shown is not None else [], "text": {"patch": y, "said": err.split("Stack backtrace:")[0], "svd": text}}


def refused(cx, n, R, prof):
    todo = []
    for f, k in ((directed.misses, n // 3), (directed.faulty, n // 3), (directed.every, n // 4)):
        l = f(R)
        for sc in R.sample(l, min(k, len(l))):
            if len(sc) > 3 and (sc[3] or (len(sc) > 4 and sc[4])):
                continue
            todo.append((S.render(sc[0]), sc[1], gen.ymap(sc[1]), sc[2] if len(sc) > 2 else "enum"))
    def more(p):
        # rules that meet nothing, and so say nothing
        if R.random() < 0.3:
            for i in range(R.choice([1, 3, 10, 40])):
                x = aside(R)
                p = dict([("?~NOSUCH%d" % i, x if isinstance(x, dict) else {"x": x})] + list(p.items()))
        return p
    todo = [(t, more(p), ed) for t, p, y, ed in todo]
    todo = [(t, gen.ytext(dict([("_svd", "in.svd")] + list(p.items()))), gen.ymap(p), ed, R.random() < 0.5, R.random() < 0.1) for t, p, ed in todo]
    cases, runs = trace.record(cx.binary, cx.root, prof, "%d/%s/explain" % (cx.seed, cx.pid), max(50, n // 6))
    cx.count("tool_runs", runs)
    for c in cases:
        if c["obs"][-1]["out"] == "err" and not c["files"]:
            todo.append((S.render(c["dev"]), c["yaml"], c["patch"], c["ed"], R.random() < 0.5, R.random() < 0.1))
    with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
        out = [c for c in pool.imap(_one, todo, 8) if c]
    cx.count("tool_runs", len(todo))
    return out


def bend(c, R):
    if c["out"] != "err":
        return None
    if c["asked"] and R.random() < 0.5:
        c["shown"] = []
    elif c["said"]:
        c["said"] = c["said"][1:]
    return c


def explanations(nq, nt, prof):
    """messages of refused patches"""
    def run(cx):
        n = nt if cx.thorough() else nq
        for k in range(0, n, 6000):
            if k and cx.left() < 200:
                break
            R = random.Random("%d/%s/%d" % (cx.seed, cx.pid, k))
            cases = refused(cx, min(6000, n - k), R, prof)
            V.judge(cx, cases, "Blame", [], ["TrailFromTop", "TrailInPatch"], bend, "refused patch", lambda c: c["text"]["patch"], "%d/%d" % (cx.seed, k))
    return run
