"""Readings of scalars: the texts are enumerated by TLC, and the tool is asked what it makes of each."""
import json
import multiprocessing
import os
import random

import svdlib as S
import svdtool
import trace

LETTERS = ["0", "1", "9", "a", "x", "X", "b", "_", "#", "-", "+", ".", "e", "o"]
WORDS = ["true", "True", "TRUE", "false", "False", "FALSE", "yes", "no", "on", "~", "null", "Null", ".inf", "-.inf", ".nan", "nan", "inf",
         "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "9223372036854775807", "9223372036854775808",
         "-9223372036854775808", "-9223372036854775809", "0x7fffffff", "0x80000000", "0xFFFF_FFFF", "0x100000000", "0xffffffff", "0XAB", "0Xab_cd",
         "0x7fffffffffffffff", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "-0x10", "0x-10", "+0x10", "#0110", "#1x0X", "0b1x01", "0b1X", "0B11",
         "0b_1_1", "_1", "1_", "1_000_000", "0o17", "0o18", "017", "1e3", "1.5", "1.", ".5", "12a", "0b", "0x", "#", "1 ", " 1", "0x1 ", "a b", "read-only"]
KINDS = ["u32", "u64", "bool", "str"]
N = 150

_W = {}


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def _init(binary, root):
    svdtool.limit()
    d = os.path.join(root, "x%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    t = _W["tool"] = svdtool.Tool(binary, d)
    regs = [S.reg("R%d" % i, 0x10 * i, d="d") for i in range(N)]
    dev = S.device([S.per("A", 0x1000, regs)])
    with open(os.path.join(d, "u32.svd"), "w") as f:
        f.write(S.render(dev))
    with open(os.path.join(d, "str.svd"), "w") as f:
        f.write(S.render(dev))
    dev = S.device([S.per("P%d" % i, 0x1000 * i, [S.reg("R", 0)]) for i in range(N)])
    with open(os.path.join(d, "u64.svd"), "w") as f:
        f.write(S.render(dev))
    dev = S.device([S.per("A", 0x1000, [S.reg("R", 0)])])
    with open(os.path.join(d, "bool.svd"), "w") as f:
        f.write(S.render(dev))


def ask(kind, texts):
    """what the tool makes of texts as written (one patch for all): readings or "error" """
    t = _W["tool"]
    p = ["_svd: %s.svd" % kind]
    if kind == "u32":
        p += ["A:", "  _modify:"] + ["    R%d:\n      addressOffset: %s" % (i, x) for i, x in enumerate(texts)]
    elif kind == "str":
        p += ["A:", "  _modify:"] + ["    R%d:\n      displayName: %s" % (i, x) for i, x in enumerate(texts)]
    elif kind == "u64":
        p += ["_modify:"] + ["  P%d:\n    baseAddress: %s" % (i, x) for i, x in enumerate(texts)]
    else:
        p += ["_modify:", "  cpu:", "    name: CM0", "    revision: r0p0", "    endian: little", "    mpuPresent: %s" % texts[0], "    fpuPresent: false",
              "    nvicPrioBits: 2", "    vendorSystickConfig: false"]
    with open(os.path.join(t.cwd, "p.yaml"), "w") as f:
        f.write("\n".join(p) + "\n")
    out = os.path.join(t.cwd, "o.svd")
    if os.path.exists(out):
        os.remove(out)
    s, _ = t.run("patch", "p.yaml", "o.svd")
    if s != "ok":
        return "error" if s == "err" else s
    d = S.project(open(out).read())
    if kind == "u32":
        r = {x["n"]: str(x["off"]) for x in d["pers"][0]["regs"][0]}
        return [r["R%d" % i] for i in range(len(texts))]
    if kind == "str":
        r = {x["n"]: "=" + "".join(x["dn"]) for x in d["pers"][0]["regs"][0]}
        return [r["R%d" % i] for i in range(len(texts))]
    if kind == "u64":
        r = {x["n"]: str(int("".join("%04x" % y for y in x["base"]), 16)) for x in d["pers"]}
        return [r["P%d" % i] for i in range(len(texts))]
    c = d["cpu"][0]
    return ["true" if c["mpu"] in (True, [True]) else "false"]


def _batch(a):
    """[(text as written, expected)] that disagree"""
    kind, items = a
    t = _W["tool"]
    if t.hung > 3:
        return [], 0
    r0 = t.runs
    bad = []

    def go(items):
        want = [e for _, e in items]
        got = ask(kind, [x for x, _ in items])
        if len(items) == 1:
            g = got if isinstance(got, str) else got[0]
            if g != want[0]:
                bad.append((kind, items[0][0], want[0], g))
        elif isinstance(got, str):
            h = len(items) // 2
            go(items[:h])
            go(items[h:])
        else:
            bad.extend((kind, x, e, g) for (x, e), g in zip(items, got) if e != g)
    go(items)
    return bad, t.runs - r0


def scalars(nq, nt):
    def run(cx):
        cfg = os.path.join(cx.root, "Scalars.cfg")
        laws = ["QuotesAlike", "DecimalsExact", "UnderscoresIgnored", "BoolsAlike", "Signed"]
        words = set(WORDS)
        words |= {s + x for x in WORDS for s in "-+_0"}
        words = {x for x in words if x.strip() == x or cx}
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  MaxLen = %d\n  Letters = {%s}\n  Words = {%s}\n" % (
                4 if cx.thorough() else 3, ", ".join('"%s"' % x for x in LETTERS), ", ".join('"%s"' % x for x in sorted(words))))
            f.write("".join("INVARIANT %s\n" % x for x in laws))
        rc, out = trace.tlc("Scalars", cfg, cx.root)
        if "No error has been found" not in out:
            cx.broken("TLC on Scalars: " + "\n".join(l for l in out.splitlines() if "SCALAR" not in l)[-2500:])
        import re
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        cx.trans += int(m.group(1))
        cx.states += int(m.group(2))
        R = random.Random(cx.seed)
        fine, wrong = {k: [] for k in KINDS}, []
        seen = set()
        for l in out.splitlines():
            l = trace.unq(l)
            if not l.startswith("SCALAR "):
                continue
            c = json.loads(l[7:])
            if c["text"] in seen:
                continue
            seen.add(c["text"])
            forms = [(q(c["text"]), c["quoted"])]
            if c["plain"] and c["text"].strip() == c["text"] and " " not in c["text"]:
                forms.append((c["text"], c["plain"][0]))
            for w, e in forms:
                for k in KINDS:
                    if k == "str" and (e[k] == "=" or e[k] != e[k].strip()):
                        continue        # texts are trimmed when the output is read
                    if e[k] == "error":
                        wrong.append((k, [(w, e[k])]))
                    elif k == "bool":
                        wrong.append((k, [(w, e[k])]))
                    else:
                        fine[k].append((w, e[k]))
        n = nt if cx.thorough() else nq
        # all that have to be refused together would hide each other: one by one
        bools = [x for x in wrong if x[1][0][1] != "error"]
        wrong = [x for x in wrong if x[1][0][1] == "error"]
        todo = bools + (wrong if len(wrong) <= n else R.sample(wrong, n))
        for k in KINDS[:2] + KINDS[3:]:
            todo += [(k, fine[k][i:i + N]) for i in range(0, len(fine[k]), N)]
        bad = []
        with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
            for b, runs in pool.imap(_batch, todo, 4):
                bad += b
                cx.count("tool_runs", runs)
        cx.traces += sum(len(i) for _, i in todo)
        cx.count("texts", len(seen))
        cx.count("readings_accepted", sum(len(v) for v in fine.values()) + len(bools))
        cx.count("readings_refused", len(todo) - len(bools))
        # the comparison itself works: a wrong expectation is noticed
        _init(cx.binary, cx.root)
        if fine["u32"] and not bad and not _batch(("u32", [(fine["u32"][0][0], "1" + fine["u32"][0][1])]))[0]:
            cx.broken("a wrong expectation was accepted")
        for k, w, e, g in sorted(bad, key=lambda x: len(x[1])):
            cx.violation(what="as %s, %s has to be %s but is %s" % (k, w, e, g), kind=k, written=w, expected=e, observed=g)
        for x in R.sample(todo, min(4, len(todo))):
            cx.sample({"as": x[0], "written": x[1][0][0], "expected": x[1][0][1]})
    return run
