"""Directed scenarios: small devices and patches enumerated around the decisions a rule takes.

Each function returns a list of (device, patch) or (device, patch, enum-derive mode).  They are run
on the real tool like the guided ones and judged by the same module of the specification."""
import copy
import itertools
import json
import multiprocessing
import os
import random
import shutil

import gen
import study
import svdlib as S
import svdtool

DESC = {"description": "t"}


def shuffled(R, h):
    ks = list(h)
    R.shuffle(ks)
    return {k: h[k] for k in ks}


def one(*regs, **k):
    return S.device([S.per("P", 0x1000, list(regs), **k)])


# ------------------------------------------------------------------ names and specifications
def strings(alpha, lo, hi):
    return ["".join(x) for n in range(lo, hi + 1) for x in itertools.product(alpha, repeat=n)]


NAMES = strings("AB1_", 1, 3)
WILD = ["*", "?", "[AB]", "[!A]", "[A-B]", "[0-9]", "[!0-9_]", "{A,B}", "{1,AB}", "{A*,1}"]


def specs(R=None, n=None):
    lit = ["A", "B", "1", "_"]
    items = lit + WILD
    l = list(items) + [a + b for a in items for b in items if a in WILD or b in WILD]
    l += [a + b + c for a in lit for b in WILD for c in lit]
    l += [a + b + c for a in WILD for b in lit for c in WILD if not ("{" in a and "{" in c)]
    l += [a + "," + b for a in ["A", "AB", "A*", "?", "B_", "1?", "_"] for b in ["B", "BA", "*1", "[AB]", "A_", "__", "a"]]
    l += ["A,B,1", "A, B", "AA,,B", "A_,B_", "_A", "A_", "AB_", "a", "a*", "[a-z]", "[A-Z]", "[A-Z][A-Z]", "**", "*?*", "?*",
          "A**B", "AB1", "A?1", "\\A", "\\*", "A\\?", "[]A]", "[_A]", "[1-1]", "{A}", "{A,B}{A,B}", "{AA,A}", "{A,}B"]
    return list(dict.fromkeys(l))


def kids_named(names):
    return [S.reg(n, 4 * i) for i, n in enumerate(names)]


def names(R):
    """every specification against every name, at every level"""
    out = []
    ss = specs()
    R.shuffle(ss)
    big = [n for n in NAMES if len(n) < 3] + R.sample([n for n in NAMES if len(n) == 3], 24) + ["a", "aB", "Ab", "ABA1"]
    for i in range(0, len(ss), 6):
        part = ss[i:i + 6]
        pers = [S.per("P%d" % j, 0x1000 * (j + 1), kids_named(big)) for j in range(len(part))]
        patch = {"P%d" % j: {"_delete": [s]} for j, s in enumerate(part)}
        out.append((S.device(pers), patch))
    few = ["A", "B", "AB", "BA", "A1", "B1", "A_", "_A", "a", "AB1", "A1B", "1", "__"]
    for i in range(0, len(ss), 3):
        part = ss[i:i + 3]
        regs = [S.reg("R%d" % j, 4 * j, [S.field(n, k, 1) for k, n in enumerate(few)]) for j in range(len(part))]
        out.append((one(*regs), {"P": {"R%d" % j: {"_delete": [s]} for j, s in enumerate(part)}}))
        regs = [S.clu("C%d" % j, 0x100 * j, kids_named(few) + [S.clu("AC", 0x80, [S.reg("X", 0)]), S.clu("AB", 0x90, [S.reg("Y", 0)])])
                for j in range(len(part))]
        out.append((one(*regs), {"P": {"C%d" % j: {"_delete": {R.choice(["_registers", "_clusters"]): [s]}} if R.random() < 0.7
                                       else {"_delete": [s]} for j, s in enumerate(part)}}))
    for s in ss:
        pers = [S.per(n, 0x1000 * (k + 1), [S.reg("R", 0, [S.field("F", 0, 2, evs=[S.evs([S.ev("V", 1)])])])],
                      ints=[{"n": "I" + n, "d": [], "v": k}]) for k, n in enumerate(few) if n not in ("1", "__")]
        k = R.randrange(6)
        if k == 0:
            patch = {"_delete": [s]}
        elif k == 1:
            patch = {"_modify": {s: {"description": "X"}}}
        elif k == 2:
            patch = {"_clear_fields": [s]}
        elif k == 3:
            patch = {"?~" + s: {"_modify": {"R": {"description": "`block_path`"}}}}
        elif k == 4:
            patch = {s: {"_modify": {"R": {"size": 8}}}}
        else:
            patch = {"*": {"_delete": {"_interrupts": ["I" + s]}}}
        out.append((S.device(pers), patch))
        regs = kids_named(few[:8]) + [S.clu("CB", 0x80, kids_named(few[:5])), S.clu("A1B", 0xa0, kids_named(few[:3]))]
        for r in regs[:8]:
            r["fs"] = [[S.field("F", 0, 2, evs=[S.evs([S.ev("V", 1)])])]]
        o = R.choice(["", "?~"])
        patch = [{"_modify": {o + s: {"description": "`register`"}}}, {"_modify": {"_registers": {o + s: {"description": "q"}}}},
                 {"_modify": {"_clusters": {o + s: {"description": "q"}}}}, {"_clear_fields": [s]},
                 {o + s: {"_prefix": "Z"}}, {"_clusters": {o + s: {"_prefix": "Z"}}}, {"C?": {o + s: {"_clear": ["F"]}}},
                 {o + s: {"F": [0, 1]}}, {o + s: {"?~F": {"_replace_enum": {"N": [0, "n"]}}}}][R.randrange(9)]
        out.append((one(*regs), {"P": patch}))
        fs = [S.field(n, 2 * k, 2, evs=[S.evs([S.ev("V", 1)])]) for k, n in enumerate(few)]
        rule = [{"_modify": {o + s: {"description": "`register_path`"}}}, {"_clear": [s]}, {o + s: [0, 1]},
                {o + s: {"_replace_enum": {"N": [0, "n"]}}}, {o + s: {"_W1C": {}}}, {"_merge": {"M": [s]}}, {o + s: {"_RM": {}}}][R.randrange(7)]
        out.append((one(S.reg("R", 0, fs)), {"P": {"R": rule}}))
    return out


def blanks(R):
    """specifications with blanks, empty parts and marks in the wrong place, in every kind of rule"""
    ss = ["A, B", " A", "A ", "A ,B", " A,B", "A,B ", "{A, B}", "{A ,B}", "?~ A", " ?~A", "?~A, B", ", A", "A,", ",A", ",", "A,?~B", "A,,B",
          "[A ]", "* B", "B *", "A\tB", "A,\tB", "{A,B }", "?~?~A", "A?~", "~A", "?~A ,B", "a,B", "A;B", "A B", "\u00a0A", "A,\u00a0B"]
    few = ["A", "B", "AB"]
    out = []
    for s in ss:
        o = "" if "?~" in s else "?~"
        pers = [S.per(n, 0x1000 * (k + 1), [S.reg("R", 0, [S.field("F", 0, 2, evs=[S.evs([S.ev("V", 1)])])])],
                      ints=[{"n": "I" + n, "d": [], "v": k}]) for k, n in enumerate(few)]
        for patch in ({"_delete": [s]}, {"_delete": s}, {"_modify": {s: {"description": "X"}}}, {"_clear_fields": [s]},
                      {o + s: {"_modify": {"R": {"description": "q"}}}}, {s: {"_modify": {"R": {"description": "q"}}}}):
            out.append((S.device(pers), patch))
        regs = [S.reg(n, 4 * i, [S.field("F", 0, 2, evs=[S.evs([S.ev("V", 1)])])]) for i, n in enumerate(few)]
        both = regs + [S.clu(n + "C", 0x80 + 0x10 * i, kids_named(few)) for i, n in enumerate(few)]
        for q in ({"_delete": [s]}, {"_delete": {"_registers": [s]}}, {"_modify": {o + s: {"description": "q"}}}, {"_modify": {s: {"description": "q"}}},
                  {"_modify": {"_registers": {o + s: {"description": "q"}}}}, {"_clear_fields": [s]}, {o + s: {"F": [0, 1]}}, {s: {"F": [0, 1]}}):
            out.append((one(*regs), {"P": q}))
        for q in ({"AC": {"_delete": [s]}}, {"AC": {"_modify": {o + s: {"description": "q"}}}}, {"AC": {o + s: {"_clear": ["F"]}}}):
            out.append((one(*both), {"P": q}))
        fs = [S.field(n, 2 * k, 2, evs=[S.evs([S.ev("V", 1)])]) for k, n in enumerate(few)]
        for q in ({"_delete": [s]}, {"_modify": {o + s: {"description": "q"}}}, {"_clear": [s]}, {o + s: [0, 1]}, {s: [0, 1]},
                  {o + s: {"_replace_enum": {"N": [0, "n"]}}}, {o + s: {"_RM": {}}}, {s: {"_W1C": {}}}):
            out.append((one(S.reg("R", 0, fs)), {"P": {"R": q}}))
    return out


# ------------------------------------------------------------------ beginnings and ends of names
def affixes(R):
    pool = strings("AB1", 1, 3)
    globs = list(dict.fromkeys(["A", "B", "1", "AB", "AA", "A1", "BB", "AB1", "ABA", "A*", "*A", "*", "?", "??", "???", "[AB]", "[!A]",
                                "[A-B]1", "{A,B}", "{A,AB}", "{AB,A}", "{1,B1}", "A?", "?A", "*1", "1*", "?*", "A*B", "{,A}", "a",
                                "[0-9]", "[AB][AB]", "*[0-9]", "B?A", "{A,}"]))
    out = []
    for g in globs:
        for end in (0, 1):
            key = "_strip_end" if end else "_strip"
            ns = R.sample(pool, 12) + ["A", "AB", "AAA", "B1A", "X", "XX"]
            regs = []
            for i, n in enumerate(dict.fromkeys(ns)):
                regs.append(S.reg(n, 4 * i, dn=R.choice([None, n, n + "A", "A" + n]), ar=R.choice([None, None, "A1", n, "AB"]),
                                  ag=R.choice([None, None, "AB", "A"])))
            ns = [r["n"] for r in regs]
            regs += [S.clu(n, 0x200 + 0x10 * i, [S.reg("AB", 0), S.reg("BA", 4)], ac=R.choice([None, "AC", "CA", "AB1", "A", "1A", "XX"]),
                           hs=R.choice([None, None, "AC", "CA", "AB1", "A"])) for i, n in enumerate(["AC", "CA", "ABC1", "ZZ", "X9"])]
            out.append((one(*regs), {"P": {key: [g]}}))
            out.append((one(*regs), {"P": {key: g}}))
            fs = [S.field(n, i, 1) for i, n in enumerate(ns[:14])]
            out.append((one(S.reg("AB", 0, fs)), {"P": {"AB": {key: [g]}}}))
            out.append((one(S.clu("C", 0, copy.deepcopy(regs[:8]))), {"P": {"_clusters": {"C": {key: [g, R.choice(globs)]}}}}))
    arr = [S.reg("AR%s", 0, dim=S.dim(2, 4), dn="AR%s"), S.reg("A[%s]", 0x10, dim=S.dim(2, 4)), S.reg("%sA", 0x20, dim=S.dim(2, 4, ["X", "Y"])),
           S.reg("AD", 0x30, df="AR%s"), S.reg("AE", 0x34, ar="AR%s")]
    for key in ("_prefix", "_suffix"):
        for v in ("A", "_", "Z1"):
            for extra in ({}, {"_strip": ["A"]}, {"_strip_end": ["1"]}, {"_modify": {v + "*": {"description": "d"}}}):
                regs = [S.reg(n, 4 * i, dn=R.choice([None, n]), ar=R.choice([None, "A1"])) for i, n in enumerate(["A1", "B", "AB"])]
                out.append((one(*(regs + copy.deepcopy(arr) + [S.clu("AC%s", 0x100, [S.reg("A", 0)], dim=S.dim(2, 4)), S.clu("ZC", 0x200, [S.reg("A", 0)], ac=R.choice(["A1", "AC%s", "Z1Z"]), hs=R.choice([None, "A1"]))])),
                            {"P": dict({key: v}, **extra)}))
                fs = [S.field("A1", 0, 1), S.field("BX", 1, 1), S.field("AF%s", 2, 1, dim=S.dim(2, 1)), S.field("G", 8, 1, df="A1")]
                out.append((one(S.reg("R", 0, fs)), {"P": {"R": dict({key: v}, **({} if "_modify" in extra else extra))}}))
    return out


# ------------------------------------------------------------------ the order of the sections
def order(R, n=900):
    out = []
    F = ["A", "X", "AX", "B1", "B2", "B3", "PA", "AS"]
    for _ in range(n // 3):
        fs = []
        off = 0
        for nm in R.sample(F, R.choice([3, 4, 5])):
            wd = R.choice([1, 1, 1, 2])
            evs = [S.evs([S.ev("V", 0)], n=R.choice([None, nm + "E"]))] if R.random() < 0.4 else []
            fs.append(S.field(nm, off, wd, d=R.choice([None, nm, "x"]), evs=evs,
                              wc=S.wc_range(0, 1) if R.random() < 0.2 else None))
            off += wd + R.choice([0, 0, 0, 1])
        rg = S.reg("R", 0, fs)
        sp = lambda: R.choice(F + ["A*", "B?", "*X", "B*", "?"])
        secs = {"_delete": lambda: [sp()], "_strip": lambda: [R.choice(["A", "P", "B"])], "_strip_end": lambda: [R.choice(["X", "S", "1"])],
                "_prefix": lambda: R.choice(["A", "P"]), "_suffix": lambda: R.choice(["X", "S", "1"]), "_clear": lambda: [sp()],
                "_modify": lambda: {"?~" + sp(): R.choice([{"name": R.choice(F)}, {"description": "m"}, {"bitOffset": R.randrange(8)}])},
                "_add": lambda: {R.choice(F): {"bitOffset": R.randrange(20), "bitWidth": 1}},
                "_derive": lambda: {R.choice(F): {"_from": R.choice(["B1", "A"]), "bitOffset": 20, "bitWidth": 1}},
                "_merge": lambda: {"AX": [sp(), sp()]}, "_split": lambda: {"?~" + sp(): {"name": R.choice(["B%s", "A%s"])}},
                "f": lambda: R.choice([[0, 1], {"N": [0, "n"]}, {"_replace_enum": {"N": [0, "n"]}}, {"_W1C": {}}]),
                "_array": lambda: {"?~B?": {}}}
        ks = R.sample(list(secs), 2 if R.random() < 0.7 else 3)
        rule = {}
        for k in ks:
            v = secs[k]()
            rule["?~" + sp() if k == "f" else k] = v
        out.append((one(rg), {"P": {"R": rule}}))
    N = ["A", "X", "AX", "B1", "B2", "B3", "PA", "AS"]
    for _ in range(n // 3):
        regs = []
        off = 0
        for nm in R.sample(N, R.choice([2, 3, 4])):
            regs.append(S.reg(nm, off, [S.field("F", 0, 1, evs=[S.evs([S.ev("V", 0)])])], d=R.choice([None, nm, "x"]), dn=R.choice([None, nm])))
            off += 4
        if R.random() < 0.6:
            regs.append(S.reg("D%s", 0x40, dim=S.dim(2, 4), fs=[S.field("F", 0, 1)]))
        if R.random() < 0.8:
            regs.append(S.clu("C%s", 0x80, [S.reg("A", 0), S.reg("B1", 4)], dim=S.dim(2, 8)))
        sp = lambda: R.choice(N + ["A*", "B?", "*X", "B*", "?", "C*", "D*", "D0"])
        regm = lambda: R.choice([{"name": R.choice(N)}, {"description": "m"}, {"addressOffset": 4 * R.randrange(6)}, {"size": 16}])
        secs = {"_delete": lambda: R.choice([[sp()], {"_registers": [sp()]}, {"_clusters": ["C*"]}]),
                "_copy": lambda: {R.choice(N): {"_from": R.choice(["A", "B1", "X"]), "addressOffset": 0x20}},
                "_strip": lambda: [R.choice(["A", "P", "B", "D"])], "_strip_end": lambda: [R.choice(["X", "S", "1"])],
                "_prefix": lambda: R.choice(["A", "P"]), "_suffix": lambda: R.choice(["X", "S", "1"]),
                "_modify": lambda: R.choice([{"?~" + sp(): regm()}, {"_registers": {"?~" + sp(): regm()}},
                                             {"_clusters": {"?~C*": R.choice([{"name": "C2%s"}, {"addressOffset": 0x100}])}}]),
                "_clear_fields": lambda: [sp()],
                "_add": lambda: R.choice([{R.choice(N): {"addressOffset": 4 * R.randrange(9)}},
                                          {"_clusters": {R.choice(["C2", "A"]): {"addressOffset": 0x60, "registers": {"A": {"addressOffset": 0}}}}}]),
                "_derive": lambda: {R.choice(["PA", "AS", "Q"]): {"_from": R.choice(["B1", "A"]), "addressOffset": 0x30}},
                "child": lambda: R.choice([{"_modify": {"?~F": {"description": "c"}}}, {"_prefix": "Q"}, {"_delete": ["F"]}]),
                "_expand_array": lambda: {R.choice(["D*", "D%s"]): {}},
                "_array": lambda: {"?~" + R.choice(["B?", "D?"]): {}}, "_cluster": lambda: R.choice(
                    [{"G": {"?~" + sp(): {}}}, {"G%s": {"?~B?": {"name": "A"}}}]),
                "_clusters": lambda: {"?~C*": R.choice([{"_prefix": "A"}, {"_delete": ["A"]}, {"_modify": {"?~A": {"name": "X"}}}])},
                "_expand_cluster": lambda: R.choice([["C*"], {"C*": {"_noprefix": True}}, "C*"])}
        ks = R.sample(list(secs), 2 if R.random() < 0.7 else 3)
        rule = {}
        for k in ks:
            v = secs[k]()
            if k == "child":
                k = "?~" + sp()
            rule[k] = v
        if R.random() < 0.25:
            for k in ("_expand_cluster",):
                rule.pop(k, None)
            if rule:
                out.append((one(S.clu("CC", 0, regs)), {"P": {R.choice(["CC", "C*"]): rule} if R.random() < .5 else {"_clusters": {"CC": rule}}}))
        else:
            out.append((one(*regs), {"P": rule}))
    P = ["A", "X", "AX", "B1", "B2"]
    for _ in range(n // 3):
        pers = []
        for i, nm in enumerate(R.sample(P, R.choice([2, 3, 4]))):
            src = [p["n"] for p in pers if not p["df"]]
            if src and R.random() < 0.35:
                pers.append(S.per(nm, 0x1000 * (i + 1), None, df=R.choice(src), ints=[{"n": "I" + nm, "d": [], "v": i}]))
            else:
                pers.append(S.per(nm, 0x1000 * (i + 1), [S.reg("R" + nm, 0, [S.field("F", 0, 1, evs=[S.evs([S.ev("V", 0)])])])],
                                  ints=[{"n": "I" + nm, "d": [], "v": i}]))
        plain = [p["n"] for p in pers if not p["df"]]
        ns = [p["n"] for p in pers]
        sp = lambda: R.choice(P + ["A*", "B?", "*X", "*"])
        secs = {"_delete": lambda: [R.choice(P + ["B?"])], "_copy": lambda: {R.choice(P + ["N"]): {"from": R.choice(plain)}},
                "_modify": lambda: {sp(): R.choice([{"name": R.choice(["N", "X"])}, {"description": "m"}, {"baseAddress": 0x9000}])},
                "_clear_fields": lambda: [sp()],
                "_add": lambda: {R.choice(["N", "X"]): {"baseAddress": 0x1800, "registers": {"R": {"addressOffset": 0}}}},
                "_derive": lambda: dict([(lambda a, b: (a, {"_from": b, "baseAddress": 0xA000}))(*R.sample(ns + ["N"], 2))]),
                "_rebase": lambda: dict([R.sample(ns, 2)]),
                "per": lambda: R.choice([{"_modify": {"?~*": {"description": "p"}}}, {"_add": {"RN": {"addressOffset": 8}}},
                                         {"_add": {"_interrupts": {"IN": {"value": 9}}}}, {"_prefix": "Q"}])}
        ks = R.sample(list(secs), 2 if R.random() < 0.7 else 3)
        patch = {}
        for k in ks:
            v = secs[k]()
            patch["?~" + sp() if k == "per" else k] = v
        out.append((S.device(pers), patch))
    return out


# ------------------------------------------------------------------ sequences: arrays, clusters
def seq_regs(R, base, n, gaps, idx, kind, masks, fileorder, pad=()):
    regs, off = [], 0
    fs0 = [S.field("F", 0, 4)]
    for i in range(n):
        ix = idx[i]
        fs = copy.deepcopy(fs0)
        if masks == "last" and i == n - 1:
            fs[0]["off"] = 1
        elif masks == "mid" and i == n // 2:
            fs = [S.field("F", 0, 2), S.field("G", 2, 2)]
        d = {"none": None, "same": "text", "idx": "text %s of" % ix, "odd": "text %s" % (ix if i < n - 1 else "z"),
             "twice": "%s and %s" % (ix, ix)}[kind]
        regs.append(S.reg(base % ix, off, fs, d=d))
        off += gaps[i] if i < len(gaps) else 4
    regs = [regs[j] for j in fileorder]
    return regs


def arrays(R):
    out = []
    gapsets = [g for n in (2, 3, 4) for g in itertools.product([2, 4, 6], repeat=n - 1)]
    gapsets += [(0,), (4, 0), (0, 4), (0, 0), (8, 8), (4, 4, 4, 4), (4, 4, 8, 4), (2, 6, 2, 6), (4, 8, 4, 8), (6, 4, 4, 2)]
    for g in gapsets:
        n = len(g) + 1
        for opt in ({}, {"_start_from_zero": ""}):
            fo = list(range(n))
            R.shuffle(fo)
            idx = [str(i + R.choice([0, 1])) for i in range(n)] if False else [str(i) for i in range(n)]
            if R.random() < 0.4:
                R.shuffle(idx)
            kind = R.choice(["none", "same", "idx", "odd", "twice"])
            regs = seq_regs(R, "R%s", n, g, idx, kind, R.choice(["", "", "", "last", "mid"]), fo)
            h = dict(opt)
            if R.random() < 0.3:
                h["description"] = R.choice(["D %s", "_original"])
            if R.random() < 0.3:
                h["name"] = R.choice(["ARR%s", "ARR[%s]"])
            out.append((one(*(regs + [S.reg("RX", 0x80)])), {"P": {"_array": {R.choice(["R?", "R[0-9]", "R[0-3]", "R[01]", "?~R?"]): h}}}))
            # the same with fields
            wd = R.choice([1, 2, 2, 4])
            fs, off = [], R.choice([0, 1])
            for i in range(n):
                d = {"none": None, "same": "t", "idx": "t %s" % idx[i], "odd": "t %s" % (idx[i] if i else "q"), "twice": "%s%s" % (idx[i], idx[i])}[kind]
                fs.append(S.field("F%s" % idx[i], off, wd + (1 if R.random() < 0.04 else 0), d=d,
                                  evs=[S.evs([S.ev("V", 0)])] if R.random() < 0.1 else []))
                off += g[i] if i < len(g) else 1
            fs = [fs[j] for j in fo]
            out.append((one(S.reg("R", 0, fs)), {"P": {"R": {"_array": {R.choice(["F?", "F[0-3]", "?~F?"]): dict(h)}}}}))
    # indices of several digits, letters, tokens in the middle
    for names_, spec in [(["A8X", "A9X", "A10X", "A11X"], "A*X"), (["A08", "A09", "A10"], "A??"), (["CHA", "CHB", "CHC"], "CH[A-C]"),
                         (["CHA", "CHC", "CHD"], "CH?"), (["C1_1", "C1_2"], "C1_?"), (["T1M1", "T1M2"], "T?M?"), (["AB", "AC"], "A{B,C}"),
                         (["R0", "R1"], "R0,R1"), (["R0", "R1", "R2"], "R?,R1"), (["R0", "R1"], "R0"), (["R1"], "R?")]:
        for opt in ({}, {"_start_from_zero": ""}, {"dimIncrement": 8}, {"name": "Z%s"}):
            regs = [S.reg(n, 4 * i, d="reg " + n, dn=R.choice([None, n])) for i, n in enumerate(names_)]
            out.append((one(*regs), {"P": {"_array": {spec: dict(opt)}}}))
            out.append((one(S.clu("C", 8, copy.deepcopy(regs))), {"P": {"_clusters": {"C": {"_array": {spec: dict(opt)}}}}}))
            fs = [S.field(n, 2 * i, 1, d="bit " + n) for i, n in enumerate(names_)]
            out.append((one(S.reg("R", 0, fs)), {"P": {"R": {"_array": {spec: {k: v for k, v in opt.items() if k != "dimIncrement"}}}}}))
    return out


def clusters(R):
    out = []
    for n in (1, 2, 3):
        perms = list(itertools.permutations(range(n)))
        for p1 in perms:
            for p2 in perms:
                for inc1, inc2, o2 in ((8, 8, 4), (8, 4, 4), (4, 4, 4 * n), (8, 8, 2), (12, 8, 4), (8, 8, 8), (16, 16, 12)):
                    a = [S.reg("A%d_R" % (i + 1), inc1 * k, [S.field("F", 0, 4)], d="r") for k, i in enumerate(p1)]
                    b = [S.reg("A%d_S" % (i + 1), o2 + inc2 * k, [S.field("G", 0, 2)], d="s") for k, i in enumerate(p2)]
                    if R.random() < 0.15 and n > 1:
                        b[-1]["fs"] = [[S.field("G", 1, 2)]]
                    if R.random() < 0.1:
                        b.pop()
                    if R.random() < 0.15:
                        for x in b:
                            x["n"] += "%s"
                            x["dim"] = S.dim(2, 2)
                        if R.random() < 0.5 and b:
                            b[-1]["dim"] = S.dim(2, R.choice([1, 2]), R.choice([None, ["0", "1"]]))
                    regs = a + b
                    R.shuffle(regs)
                    sfx = "%s" if b and b[0]["dim"] else ""
                    sp = {"A?_R": R.choice([{}, {"name": "R"}, {"description": "x", "name": "RR"}]),
                          "A?_S" + ("*" if sfx else ""): {"name": "S" + sfx}}
                    if R.random() < 0.5:
                        sp = dict(reversed(list(sp.items())))
                    h = dict(sp, **R.choice([{}, {}, {"dimIncrement": R.choice([8, 16])}, {"description": "cl"}]))
                    if R.random() < 0.15:
                        h[R.choice(["?~B?_R", "?~B?_R", "?~B?_R", "B?_R"])] = {}
                        h = shuffled(R, h)
                    h = {R.choice(["A%s", "A[%s]"]): h}
                    out.append((one(*(regs + [S.reg("LAST", 0x80)])), {"P": {"_cluster": h}}))
    # which of them are arrays, and of what kind
    dims = [None, S.dim(2, 2), S.dim(2, 4), S.dim(3, 2), S.dim(2, 2, ["0", "1"]), S.dim(2, 2, ["A", "B"])]
    for n in (2, 3):
        for kinds in itertools.product(dims[:4] if n == 3 else dims, repeat=n):
            if n == 3 and R.random() < 0.4:
                continue
            sfx = "%s" if any(kinds) else ""
            regs = [S.reg("A%d_S%s" % (i, "%s" if x else ""), 0x10 * i, [S.field("G", 0, 2)], dim=x or ()) for i, x in enumerate(kinds)]
            R.shuffle(regs)
            out.append((one(*regs), {"P": {"_cluster": {"A%s": {"A?_S*": {"name": "S" + sfx}}}}}))
    for k in range(90):
        regs = [S.reg(x, 4 * i, [S.field("F", 0, 1)], d=x) for i, x in enumerate(["A", "B", "C", "D"])]
        if R.random() < 0.3:
            regs[1]["dim"], regs[1]["n"] = S.dim(2, 2), "B%s"
        pick = R.sample(["A", "B*", "C", "D"], R.choice([1, 2, 3, 4]))
        R.shuffle(regs)
        rules = {("?~" if R.random() < 0.2 else "") + x: R.choice([{}, {}, {"name": "N" + x.replace("*", "%s")}, {"_modify": {"F": {"name": "G"}}}]) for x in pick}
        if R.random() < 0.2:
            rules["?~NO"] = {}
        if R.random() < 0.2:
            rules["description"] = "`peripheral` cluster"
        rules.update(R.choice([{}, {}, {"_prefix": "Z"}, {"_add": {"NEW": {"addressOffset": 0x20}}}, {"_delete": ["A"]},
                               {"_modify": {"?~A": {"addressOffset": 0x10}}}, {"_strip": ["B"]}]))
        rules = shuffled(R, rules)
        dev = one(*regs) if R.random() < 0.7 else one(S.clu("O", 0x20, regs))
        rule = {"_cluster": {"G": rules}}
        out.append((dev, {"P": rule if dev["pers"][0]["regs"][0][0]["k"] == "r" else {"O": rule}}))
    return out


def expands(R):
    out = []
    for n in (1, 2, 3):
        for inc in (4, 6, 0x10):
            for ix in (None, [str(i) for i in range(n)], [str(i + 1) for i in range(n)], list("ABC"[:n])):
                for nm in ("D%s", "D%s_X", "D[%s]"):
                    if "[" in nm and ix is not None and R.random() < 0.6:
                        continue
                    r = S.reg(nm, R.choice([0, 8]), [S.field("F", 0, 2), S.field("G%s", 4, 1, dim=S.dim(2, 1))], d=R.choice([None, "n %s", "n"]),
                              dim=S.dim(n, inc, ix), dn=R.choice([None, nm, "Q%s", "Q"]),
                              df=None)
                    rest = [S.reg("E", 0x80), S.reg("Z", 0x84, df=nm if R.random() < 0.2 else None)]
                    out.append((one(r, *rest), {"P": {"_expand_array": {R.choice(["D*", nm.replace("[%s]", "*"), "?*", "D%s*"]): {}}}}))
                    out.append((one(S.clu("C", 4, [copy.deepcopy(r)] + rest)), {"P": {"C": {"_expand_array": {"D*": {}}}}}))
                    if ix is not None:
                        m = R.choice([0, n - 1, n + 1, n + 2]) or n + 1
                        out.append((one(copy.deepcopy(r), *rest), {"P": {"_modify": {"D*": {"dim": m}}, "_expand_array": {"D*": {}}}}))
                    for opt in ({}, {"_noprefix": True}, {"_preindex": "_"}, {"_postindex": "__"}, {"_zeroindex": False}, {"_zeroindex": True},
                                {"_preindex": "", "_postindex": "_", "_zeroindex": True}, {"_noprefix": True, "_zeroindex": True},
                                {"_noprefix": False}):
                        if R.random() < 0.5:
                            continue
                        ch = [S.reg("A", 0, [S.field("F", 0, 1)]), S.reg("B", 4, d="b")]
                        if R.random() < 0.4:
                            ch.append(S.reg("H%s", 8, dim=S.dim(2, 4)))
                        if R.random() < 0.3:
                            ch.append(S.clu("I", 0x20, [S.reg("A", 0)]))
                        c = S.clu(nm, R.choice([0, 0x10]), ch, dim=S.dim(n, max(inc, 8), ix) if R.random() < 0.85 else (),
                                  d=R.choice([None, "c"]))
                        if not c["dim"]:
                            c["n"] = nm.replace("[%s]", "").replace("%s", "")
                        if R.random() < 0.5:                # what the contents take from the array goes with them
                            if R.random() < 0.3:
                                ch.append(S.reg("DV", 0x28, df="E"))
                            for x in [c] + ch:
                                if R.random() < 0.6:
                                    x["p"] = gen.g_props(R)
                        v = [c["n"].replace("[%s]", "*").replace("%s", "*")]
                        out.append((one(c, *rest), {"P": {"_expand_cluster": {v[0]: opt} if opt or R.random() < 0.5 else R.choice([v, v[0]])}}))
    return out


# ------------------------------------------------------------------ references between peripherals
def forests(n):
    for f in itertools.product(range(-1, n), repeat=n):
        ok = True
        for i in range(n):
            seen, j = set(), i
            while j != -1 and j not in seen:
                seen.add(j)
                j = f[j]
            ok = ok and j == -1
        if ok:
            yield f


def circles(n):
    """maps of n names to their sources with at least one circle"""
    fs = set(forests(n))
    return [f for f in itertools.product(range(-1, n), repeat=n) if f not in fs]


def reg_refs(R):
    """derivations between the registers of a block"""
    out = []
    N = ["A", "B", "C"]
    for f in list(forests(3)) + circles(3)[::3]:
        regs = [S.reg(N[i], 4 * i, [S.field("F" + N[i], 0, 1)] if p < 0 else None, df=N[p] if p >= 0 else None, d="d" + N[i]) for i, p in enumerate(f)]
        for order_ in R.sample(list(itertools.permutations(range(3))), 2):
            rs = [regs[i] for i in order_]
            for x in N + ["NEW", "?~NO", "[AB]", "[A-C]", "*", "NEW%s"]:
                for y in N + ["NO", "K.A", "P.A", "Q.K.Z"]:
                    o = {"_derive": {x: R.choice([y, {"_from": y, "addressOffset": 0x20}, {"_from": y, "addressOffset": 0x20, "description": "z", "dim": 2, "dimIncrement": 8}])}}
                    if R.random() < 0.15:
                        o = {"_derive": {"_registers": o["_derive"]}}
                    if R.random() < 0.2:
                        o = dict(o, _modify={"C": {"derivedFrom": R.choice(N)}})
                    if R.random() < 0.25:
                        o["_derive"] = dict(o["_derive"], B=R.choice(N))
                    clu = S.clu("K", 0x40, rs) if R.random() < 0.3 else None
                    out.append((one(S.reg("A", 0), clu), {"P": {"K": o}}) if clu else (one(*(rs + [S.clu("K", 0x40, [S.reg("A", 0)])])), {"P": o}))
    return out


def refs(R):
    out = []
    N = ["A", "B", "C", "D"]

    def dev(f, order_=None, full=True):
        pers = []
        for i, p in enumerate(f):
            ints = [{"n": "I" + N[i], "d": [], "v": i}] if (i != 1) else []
            if p < 0:
                pers.append(S.per(N[i], 0x1000 * (i + 1), [S.reg("R" + N[i], 0, [S.field("F", 0, 1)])], ints=ints, gn="G" + N[i], d="d" + N[i],
                                  ab=[{"off": 0, "sz": 0x100, "us": "registers", "pr": []}] if i % 2 == 0 else None))
            else:
                # a derived peripheral may have registers of its own
                own = None
                if full and R.random() < 0.3:
                    own = [S.reg(R.choice(["OWN", "R" + N[p]]), 0, [S.field("F", 0, 2, evs=[S.evs([S.ev("V", 0)])], wc=S.wc_range(0, 1))]), S.reg("OWN2", 4)]
                pers.append(S.per(N[i], 0x1000 * (i + 1), own, ints=ints, df=N[p], d=R.choice([None, "own"])))
        if order_:
            pers = [pers[i] for i in order_]
        return S.device(pers)

    def ops(f):
        n = len(f)
        ns = N[:n]
        for x in ns:
            yield {"_modify": {x: {"name": "N"}}}
            yield {"_modify": {R.choice(["[%s]", "{%s,X}", "X,%s", "%s,Y", "{%s}", "[%s]*", "%s*", "*%s"]) % x: {"name": "N"}}}
            yield {"_modify": {"_peripherals": {x: {"name": "N"}}}}
            yield {"_modify": {x: {"description": "q", "baseAddress": 0x7000}}}
            yield {"_delete": [x]}
            yield {x: {"_add": {"NEW": {"addressOffset": 8}, "_interrupts": {"IN": {"value": 9}}}}}
            yield {x: {"_modify": {"R*": {"description": "z"}, "_interrupts": {"I*": {"value": 33}}}}}
            yield {x: {"_delete": {"_interrupts": ["I*"]}, "?~R*": {"_modify": {"?~F": {"description": "f"}}}}}
            yield {"_clear_fields": [x]}
            for y in ns + ["NOPE"]:
                yield {"_derive": {x: y}}
                yield {"_derive": {x: {"_from": y, "description": "z", "baseAddress": 0x8000}}}
                yield {"_rebase": {y: x}}
                if y != x:
                    yield {"_modify": {x: {"derivedFrom": y}}} if y != "NOPE" else {"_derive": {"N": {"_from": x, "baseAddress": 0x9000}}}
                    if y != "NOPE" and f[ns.index(x)] == -1:
                        yield {"_copy": {y: {"from": x}}}
        yield {"*": {"_prefix": "Q"}}
        yield {"*": {"_add": {"NEW": {"addressOffset": 8}}}}
        yield {"_modify": {"*": {"description": "all"}}}
        yield {"_modify": {"[AB]": {"groupName": "GG"}}}

    def cyclic(f, o):
        """would leave a peripheral derived from itself or a cycle"""
        g = {N[i]: (N[p] if p >= 0 else None) for i, p in enumerate(f)}
        for k in ("_modify",):
            for x, v in o.get(k, {}).items():
                y = v if isinstance(v, str) else v.get("_from") or v.get("derivedFrom")
                if y in g and x in g and isinstance(y, str):
                    z = y
                    for _ in range(len(f) + 1):
                        if z == x:
                            return True
                        z = g.get(z)
        return False

    fs = list(forests(3)) + [f for f in forests(4) if sum(1 for x in f if x >= 0) >= 2] + circles(3)
    for f in fs:
        perms = list(itertools.permutations(range(len(f))))
        os_ = [o for o in ops(f) if not cyclic(f, o)]
        if len(f) == 4:
            os_ = R.sample(os_, 12)
        for o in os_:
            out.append((dev(f, R.choice(perms)), o))
        for _ in range(8 if len(f) == 3 else 3):
            # two operations; the sections run in their fixed order
            a, b = R.sample(os_, 2)
            if set(a) & set(b):
                continue
            out.append((dev(f, R.choice(perms)), dict(a, **b)))
    return out


def clears(R):
    """clearing fields by patterns, among elements that are derived and elements that are not"""
    out = []
    N = ["A", "B", "C"]

    def f(n, o):
        return S.field(n, o, 2, evs=[S.evs([S.ev("V", 0)])] if R.random() < 0.7 else [], wc=S.wc_range(0, 1) if R.random() < 0.5 else None)

    def regs(g, depth=1):
        l = [S.reg("R" + N[i], 4 * i, [f("F", 0), f("G", 4)] if p < 0 or R.random() < 0.4 else None, df="R" + N[p] if p >= 0 else None) for i, p in enumerate(g)]
        if R.random() < 0.3:
            l[2]["dim"], l[2]["n"] = S.dim(2, 4), "RC%s"
        if depth and R.random() < 0.6:
            l.insert(R.randrange(4), S.clu("K", 0x40, regs(R.choice(G), depth - 1)))
        return l

    G = list(forests(3))
    for g in G:
        for spec in ("*", "A", "[AB]", "[BC]", "B,C", "?", "NO", "?~*"):
            pers = []
            for i, p in enumerate(g):
                own = regs(R.choice(G)) if p < 0 or R.random() < 0.5 else None
                pers.append(S.per(N[i], 0x1000 * (i + 1), own, df=N[p] if p >= 0 else None))
            R.shuffle(pers)
            out.append((S.device(pers), {"_clear_fields": R.choice([[spec], spec, [spec, "C"]])}))
            sub = R.choice(["R*", "RA", "R[AB]", "R[BC]*", "*", "RB"])
            rs = regs(g)
            R.shuffle(rs)
            dev = one(*rs)
            c = {"_clear_fields": [sub]}
            out.append((dev, {"P": R.choice([c, c, {"?~K": c}, {"_clusters": {"?~K": c}}, {sub: {"_clear": [R.choice(["*", "F", "G", "[FG]"])]}}])}))
    return out


# ------------------------------------------------------------------ texts with placeholders
def texts(R):
    T = ["`peripheral`", "`block_path`", "`register`", "`register_path`", "in `peripheral`: `block_path` / `register_path`",
         "`peripheral``peripheral`", "``peripheral``", "`periphera`", "`Peripheral` `register`s", "`field` `block_path`"]
    out = []

    def regs():
        return [S.reg("R1", 0, [S.field("F", 0, 1), S.field("G%s", 4, 1, dim=S.dim(2, 1))]), S.reg("R2", 4, [S.field("F", 0, 2)]),
                S.reg("AR%s", 8, [S.field("F", 0, 1)], dim=S.dim(2, 4))]

    def dev():
        return S.device([S.per("P", 0x1000, regs() + [S.clu("C", 0x40, regs() + [S.clu("IN%s", 0x40, regs(), dim=S.dim(2, 0x20))]),
                                                      S.clu("CA[%s]", 0x100, regs(), dim=S.dim(2, 0x40))]),
                         S.per("PQ", 0x2000, regs()), S.per("PD", 0x3000, None, df="P")])
    for t in T:
        regrules = [{"_modify": {"F": {"description": t}}}, {"_modify": {"*": {"description": t, "derivedFrom": t}}},
                    {"_add": {"N": {"bitOffset": 9, "bitWidth": 1, "description": t}}},
                    {"_derive": {"N": {"_from": "F", "bitOffset": 9, "bitWidth": 1, "description": t}}},
                    {"_derive": {"N": "R1.F"}}, {"_derive": {"N": {"_from": t.replace(" ", ""), "bitOffset": 3, "bitWidth": 1}}},
                    {"_split": {"?~F": {"description": t}}}, {"?~F": {"V": [0, t]}}, {"_array": {"?~F": {"description": t}}},
                    {"_merge": {"M": ["F"]}}]
        blkrules = [{"_modify": {"R?": {"description": t}}}, {"_modify": {"*": {"description": t}}}, {"_modify": {"R1": {"derivedFrom": t}}},
                    {"_modify": {"?~C*": {"description": t}}}, {"_modify": {"R1": {"displayName": t, "alternateRegister": "R2"}}},
                    {"_modify": {"_clusters": {"?~*": {"description": t}}}},
                    {"_add": {"NR": {"addressOffset": 0x30, "description": t, "fields": {"F": {"bitOffset": 0, "bitWidth": 1, "description": t}}}}},
                    {"_add": {"_clusters": {"NC": {"addressOffset": 0x30, "description": t, "registers": {"R": {"addressOffset": 0, "description": t}}}}}},
                    {"_derive": {"NR": {"_from": "R1", "addressOffset": 0x30, "description": t}}}, {"_copy": {"NR": {"_from": "R1", "addressOffset": 0x30, "description": t}}},
                    {"_array": {"R?": {"description": t}}}, {"_cluster": {"K": {"R1": {"description": t, "_modify": {"F": {"description": t}}}, "description": t}}},
                    {"_cluster": {"K%s": {"R?": {"description": t, "name": "Z", "_modify": {"F": {"description": t}}}}}},
                    {"_array": {"R?": {"description": "x", "_modify": {"F": {"description": t}}}}}, {"_expand_array": {"AR*": {}}}]
        for r in regrules:
            k = R.choice(["R1", "R?", "AR*", "*1"])
            for wrap in (lambda x: {"P": {k: x}}, lambda x: {"P*": {k: x}}, lambda x: {"P": {"C": {k: x}}},
                         lambda x: {"P": {"_clusters": {"C": {"IN*": {k: x}}}}}, lambda x: {"P": {"CA*": {k: x}}},
                         lambda x: {"?~P": {"C*": {"?~" + k: x}}}):
                out.append((dev(), wrap(copy.deepcopy(r))))
        for r in blkrules:
            for wrap in (lambda x: {"P": x}, lambda x: {"P*": x}, lambda x: {"P": {"C": x}}, lambda x: {"P": {"C": {"_clusters": {"IN*": x}}}},
                         lambda x: {"P": {"CA*": x}}, lambda x: {"P": {"C*": x}}):
                out.append((dev(), wrap(copy.deepcopy(r))))
        out.append((dev(), {"_modify": {"P": {"description": t}}}))
        out.append((dev(), {"_add": {"NP": {"baseAddress": 0x5000, "description": t, "registers": {"R": {"addressOffset": 0, "description": t}}}}}))
    return out


# ------------------------------------------------------------------ enumerated values
def enums(R):
    out = []
    V = lambda x: [S.ev(x, 0), S.ev(x + "1", 1)]
    states = [[], [("", None, None)], [("E", None, None)], [("E", None, "read")], [("E", None, "write")], [("E", None, "read-write")],
              [("E", None, "read"), ("W", None, "write")], [("W", None, "write"), ("", None, "read")], [("", "SRC", None)]]
    bodies = [{"N": [0, "n"]}, {"_name": "NM", "N": [1, "n"], "M": [0, "m"]}, {"_derivedFrom": "SRC"}, {"_replace_enum": {"N": [0, "n"]}},
              {"_replace_enum": {"_derivedFrom": "SRC"}}, {"D": [-1, "default"], "N": [1, "n"]}]
    forms = [lambda b: b, lambda b: {"_read": b}, lambda b: {"_write": b}, lambda b: {"_read": b, "_write": {"Q": [1, "q"]}},
             lambda b: {"_W1C": b}, lambda b: {"_RM": b}]
    accs = [(None, None), (None, "read-only"), (None, "write-only"), (None, "read-write"), ("read-only", "read-write"), ("write-only", None),
            ("read-write", "read-only"), ("writeOnce", None), (None, "writeOnce"), ("read-writeOnce", "read-only")]
    for st in states:
        for b in bodies:
            for fm in forms:
                for fa, ra in accs:
                    evs = [S.evs([] if df else V("O"), n=n or None, us=us, df=df) for n, df, us in st]
                    su = R.choice([None, None, "read", "write"])
                    fs = [S.field("SRC", 8, 2, evs=[S.evs(V("S"), n="SRC", us=su)]), S.field("F1", 0, 2, ac=fa, evs=evs)]
                    k = R.random()
                    if k < 0.3:
                        fs.append(S.field("F0", 2, 2, ac=R.choice([fa, fa, "read-only"]), evs=copy.deepcopy(evs) if R.random() < 0.5 else []))
                    elif k < 0.4:
                        fs.append(S.field("F%s", 4, 2, ac=fa, dim=S.dim(2, 2)))
                    if R.random() < 0.3:
                        R.shuffle(fs)
                    sp = R.choice(["F1", "F1", "F*", "F?", "?~F1"])
                    out.append((one(S.reg("R", 0, fs, p=S.props(ac=ra))), {"P": {"R": {sp: fm(copy.deepcopy(b))}}}, R.choice(["enum", "enum", "field", "none"])))
    # values and widths
    for wd in (1, 2, 3, 8, 31, 32):
        for v in (0, 1, 2 ** wd - 1, 2 ** wd, 2 ** wd + 1, -1, -2):
            for us in ("", "_read", "_write"):
                b = {"N": [v, "n"]}
                if R.random() < 0.3:
                    b["M"] = [R.choice([0, v]), "m"]
                out.append((one(S.reg("R", 0, [S.field("F", 0, wd)])), {"P": {"R": {"F": {us: b} if us else b}}}))
    # the same values for several fields
    for order_ in itertools.permutations(range(3)):
        for ws in ((1, 1, 1), (1, 1, 2)):
            for ed in ("enum", "field", "none"):
                for us in ("", "_read", "_write"):
                    fs = [S.field("F%d" % i, 4 * k, ws[k], d="f") for k, i in enumerate(order_)]
                    fs = [fs[j] for j in R.choice(list(itertools.permutations(range(3))))]
                    fs.insert(R.randrange(4), S.field("G", 20, 1))
                    b = {"N": [0, "n"]}
                    if R.random() < 0.3:
                        b["_name"] = "NM"
                    if R.random() < 0.3:
                        b = {"_replace_enum": b}
                        fs[R.randrange(4)]["evs"] = [S.evs(V("O"))]
                    out.append((one(S.reg("R", 0, fs)), {"P": {"R": {"F?": {us: b} if us else b}}}, ed))
    return out


def shares(R):
    """values shared by fields of every pair of accesses, in registers of every access"""
    out = []
    accs = [None] + gen.ACC
    for ra in accs:
        for a in accs:
            for b in accs:
                for us in ("", "_read", "_write"):
                    for ed in ("enum", "field", "none"):
                        if us and R.random() < 0.5:
                            continue
                        fs = [S.field("F0", 0, 2, ac=a), S.field("F1", 4, 2, ac=b)]
                        if R.random() < 0.3:
                            fs.append(S.field("F2", 8, 2, ac=R.choice([a, b, None])))
                        R.shuffle(fs)
                        v = {"N": [0, "n"]}
                        if R.random() < 0.2:
                            v = {"_replace_enum": v}
                            fs[R.randrange(2)]["evs"] = [S.evs([S.ev("O", 0)], us=R.choice([None, "read", "write"]))]
                        m = {"F?": {us: v} if us else v}
                        if R.random() < 0.15:
                            m["F1"] = {R.choice(["_read", "_write"]): {"_derivedFrom": "F0"}}
                        out.append((one(S.reg("R", 0, fs, p=S.props(ac=ra))), {"P": {"R": m}}, ed))
    return out


def actions(R):
    out = []
    keys = ["_read", "_RM", "_RS", "_RC", "_RME", "_write", "_WM", "_WS", "_WC", "_W1S", "_W0C", "_W1C", "_W0S", "_W1T", "_W0T"]
    for k in keys:
        for b in ({}, {"N": [0, "n"]}, {"_replace_enum": {"N": [0, "n"]}}):
            for st in range(4):
                evs = [[], [S.evs([S.ev("O", 0)])], [S.evs([S.ev("O", 0)], us="read"), S.evs([S.ev("O", 0)], us="write")], [S.evs([S.ev("O", 1)], n="E")]][st]
                f = S.field("F", 0, 2, evs=evs, ac=R.choice([None, None, "read-only", "write-only"]), mwv=R.choice([None, "clear", "modify"]),
                            ra=R.choice([None, "set"]), wc=R.choice([None, S.wc_range(0, 1)]))
                sp = R.choice(["F", "*", "?~F", "F?"])
                other = R.choice([{}, {R.choice(keys): {}}])
                rule = dict({k: b}, **{x: y for x, y in other.items() if (x[:2] == "_R" or x == "_read") != (k[:2] == "_R" or k == "_read")})
                out.append((one(S.reg("R", 0, [f, S.field("FG", 4, 2), S.field("H", 8, 1)])), {"P": {"R": {sp: rule}}}))
    # values under one key and the action under another, in both orders, and for both directions at once
    for vk, acts in (("_read", keys[1:5]), ("_write", keys[6:])):
        for act in acts:
            for vals in ({"N": [0, "n"]}, {"_replace_enum": {"N": [0, "n"]}}, {}):
                pairs = [(vk, vals), (act, {})] if R.random() < 0.7 else [(vk, {}), (act, vals)]
                pairs += [(R.choice(keys[6:] if vk == "_read" else keys[1:5]), {})] if R.random() < 0.4 else []
                R.shuffle(pairs)
                f = S.field("F", 0, 2, evs=R.choice([[], [], [S.evs([S.ev("O", 0)])]]), mwv=R.choice([None, "clear"]), ra=R.choice([None, "set"]))
                out.append((one(S.reg("R", 0, [f, S.field("FG", 4, 2), S.field("H", 8, 1)])), {"P": {"R": {R.choice(["F", "*", "?~F", "F?", "?~NO"]): dict(pairs)}}}))
    for wd in (1, 2, 4, 8, 32):
        for lo, hi in itertools.product((0, 1, 2 ** wd - 1, 2 ** wd), repeat=2):
            for sp in ("F", "?~F", "F*", "NO", "?~NO"):
                if R.random() < 0.6 and sp != "F":
                    continue
                dev = one(S.reg("R", 0, [S.field("F", 0, wd, wc=R.choice([None, {"k": "enum", "min": S.w(0), "max": S.w(0)}]))] +
                                ([S.field("FX", wd, 1)] if wd < 32 else [])))
                out.append((dev, {"P": {"R": {sp: [lo, hi]}}}))
                out.append((dev, {"P": {"R": {"_modify": {sp: {R.choice(["_write_constraint", "writeConstraint"]): [lo, hi]}}}}}))
    full = lambda n, o: S.field(n, o, 2, d="d", ac="read-write", evs=[S.evs([S.ev("O", 0)], n=n + "E")], wc=S.wc_range(0, 1), mwv="clear", ra="set")
    for sp in ("F", "F?", "*", "NO", "?", "F1,G", "{F,G}", "[!F]*", "F*"):
        fs = [full("F", 0), full("F1", 2), full("G", 4), S.field("D", 8, 2, df="F", evs=[S.evs([S.ev("X", 1)])], wc=S.wc_range(0, 2))]
        regs = [S.reg("F", 0, fs), S.reg("F1", 4, copy.deepcopy(fs)), S.reg("D", 8, copy.deepcopy(fs), df="F"), S.clu("C", 0x40, [S.reg("F1", 0, copy.deepcopy(fs)),
                                                                                                S.clu("F1", 0x10, [S.reg("G", 0, copy.deepcopy(fs))])])]
        pers = [S.per("F", 0x1000, regs), S.per("F1", 0x2000, copy.deepcopy(regs)), S.per("G", 0x3000, None, df="F"), S.per("H", 0x4000, [])]
        for p in ({"_clear_fields": [sp]}, {"_clear_fields": sp}, {"F": {"_clear_fields": [sp]}}, {"F*": {"_clear_fields": sp}}, {"F": {"C": {"_clear_fields": [sp]}}},
                  {"F": {"F": {"_clear": [sp]}}}, {"F*": {"*": {"_clear": sp}}}, {"F": {"D": {"_clear": [sp]}}}, {"F": {"C": {"F1": {"_clear": [sp]}}}},
                  {"F": {"_modify": {"F": {"_write_constraint": "none"}}}}, {"F": {"F": {"_modify": {sp if sp != "NO" else "?~NO": {"_write_constraint": "none"}}}}}):
            out.append((S.device(copy.deepcopy(pers)), p))
    return out


# ------------------------------------------------------------------ bits
def bits(R):
    out = []
    for offs in itertools.permutations([0, 2, 4]):
        for ws in ((2, 2, 2), (1, 2, 2), (2, 1, 3)):
            for rule in ({"_merge": ["F?"]}, {"_merge": "F?"}, {"_merge": {"M": "F?"}}, {"_merge": {"M": ["F0", "F2"]}}, {"_merge": {"M": ["F2", "F1"]}},
                         {"_merge": {"M": ["F?", "F1"]}}, {"_merge": {"F1": ["F0", "F1"]}}, {"_merge": ["F[01]"]}, {"_merge": {"G": ["F*"]}}, {"_merge": ["F1"]},
                         {"_merge": {"M": ["NO"]}}, {"_merge": {"M": ["F0"], "M2": ["F1", "F2"]}}):
                if R.random() < 0.35:
                    continue
                fs = [S.field("F%d" % i, offs[i], ws[i], d=R.choice([None, "d%d" % i]), ac=R.choice([None, "read-only"]),
                              evs=[S.evs([S.ev("V", 0)])] if R.random() < 0.2 else []) for i in range(3)]
                fs.insert(R.randrange(4), S.field("G", 20, 1))
                out.append((one(S.reg("R", 0, fs)), {"P": {R.choice(["R", "R*"]): rule}}))
    for wd in range(1, 9):
        for off in (0, 3, 24):
            for h in (None, {}, {"name": "S%s"}, {"name": "%sS"}, {"description": "bit %s"}, {"name": "A%sB%s", "description": "%s/%s"}, {"description": ""}):
                if R.random() < 0.3:
                    continue
                fs = [S.field("F", off, wd, d=R.choice([None, "of %s", "t"]), ac=R.choice([None, "read-only"])), S.field("G", 12, 1)]
                R.shuffle(fs)
                out.append((one(S.reg("R", 0, fs)), {"P": {"R": {"_split": ["F"] if h is None else {R.choice(["F", "?~F", "F*"]): h}}}}))
    for sp in ("F?", "NO", "?~NO", "F%s", "F1"):
        for sec in ("_merge", "_split"):
            fs = [S.field("F1", 0, 2), S.field("F2", 2, 2), S.field("FA%s", 8, 2, dim=S.dim(2, 2))]
            out.append((one(S.reg("R", 0, fs)), {"P": {"R": {sec: [sp] if sec == "_split" else {"M": [sp]}}}}))
    return out


# ------------------------------------------------------------------ adding
def adds(R):
    out = []
    offs = (0, 4, 8)
    for perm in itertools.permutations(offs):
        for new in (0, 2, 4, 6, 8, 12):
            for kind in ("reg", "clu", "per", "field", "regs"):
                ns = ["A", "B", "C"]
                if kind == "per":
                    dev = S.device([S.per(n, 0x1000 + 0x100 * o, [S.reg("R", 0)]) for n, o in zip(ns, perm)])
                    patch = {"_add": {R.choice(["N", "N", "N", "B"]): {"baseAddress": 0x1000 + 0x100 * new,
                                      "registers": {"NR": {"addressOffset": 0}}, "interrupts": {"I": {"value": 3, "description": "i"}},
                                      "addressBlock": {"offset": 0, "size": 16, "usage": "registers"}}}}
                elif kind == "field":
                    dev = one(S.reg("R", 0, [S.field(n, o, 1) for n, o in zip(ns, perm)]))
                    patch = {"P": {"R": {"_add": {R.choice(["N", "N", "N", "B"]): {"bitOffset": new, "bitWidth": 1}}}}}
                else:
                    kids = [S.reg(n, o) if R.random() < 0.6 else S.clu(n, o, [S.reg("X", 0)]) for n, o in zip(ns, perm)]
                    n = R.choice(["N", "N", "N", "B", "A"])
                    if kind == "clu":
                        rule = {"_add": {"_clusters": {n: {"addressOffset": new, "registers": {"Y": {"addressOffset": 0}}}}}}
                    elif kind == "reg":
                        rule = {"_add": {n: {"addressOffset": new}}}
                    else:
                        rule = {"_add": {"_registers": {n: {"addressOffset": new}, "N2": {"addressOffset": R.choice([0, 4, 6, 10])}}}}
                    if R.random() < 0.3:
                        dev, patch = one(S.clu("K", 0x10, kids)), {"P": {"K": rule}}
                    else:
                        dev, patch = one(*kids), {"P": rule}
                out.append((dev, patch))
    for ints in ([], ["A"], ["A", "B"]):
        for n in ("A", "N"):
            for v in (0, 1, 5):
                dev = S.device([S.per("P", 0x1000, [S.reg("R", 0)], ints=[{"n": x, "d": [], "v": i} for i, x in enumerate(ints)]),
                                S.per("Q", 0x2000, None, df="P", ints=[{"n": x, "d": [], "v": i} for i, x in enumerate(ints)])])
                out.append((dev, {R.choice(["P", "Q"]): {"_add": {"_interrupts": {n: {"value": v}}}}}))
    return out


# ------------------------------------------------------------------ attributes
def attrs(R):
    out = []
    ints = [0, 1, 7, "1", "0x1F", "0X10", "#101", "0b11", "", "x", "0x", "1_0", "0b2", "-1", True, None, [], "true", 8.5, " 2", "2 "]
    bools = [True, False, 0, 1, "true", "false", "TRUE", "yes", "0", "", None, 2, "True"]
    texts_ = ["t", "", 5, True, None, [], "`register`"]
    accs = gen.ACC + ["", "read", 1]
    full_f = dict(d="d", ac="read-only", mwv="clear", ra="set", wc=S.wc_range(0, 1), evs=[S.evs([S.ev("V", 0)])])
    full_r = dict(d="d", dn="DN", ag="AG", ar="R2", p=S.props(16, "read-only", "s", 5, 7), dt="uint32_t", mwv="clear", ra="set", wc=S.wc_range(0, 1))

    def dev(full):
        k = full_f if full else {}
        regs = [S.reg("R", 0, [S.field("F", 0, 4, **copy.deepcopy(k)), S.field("F2", 8, 4)], **copy.deepcopy(full_r if full else {})), S.reg("R2", 4),
                S.reg("A%s", 8, dim=S.dim(2, 4, None if not full else ["0", "1"])),
                S.clu("C", 0x40, [S.reg("R", 0)], **(dict(d="d", hs="H", ac="X", p=S.props(8, "read-only", None, 1, 3)) if full else {}))]
        per = S.per("P", 0x1000, regs, ints=[{"n": "I", "d": S.opt("d" if full else None), "v": 4}, {"n": "J", "d": [], "v": 5}],
                    ab=[{"off": 0, "sz": 16, "us": "registers", "pr": ["s"]}] if full else None,
                    **(dict(d="d", dn="DN", ver="1", ap="R2", gn="G", ptn="p", atn="a", hsn="h", p=S.props(8, "write-only", "n", 1, 3)) if full else {}))
        cpu = {"n": "CM4", "rev": "r0p1", "en": "little", "mpu": False, "fpu": False, "fdp": [True], "dsp": [], "ic": [], "dc": [], "it": [],
               "dt": [], "vtor": [False], "prio": 3, "vst": True, "ni": [5], "sau": []} if full else None
        return S.device([per, S.per("Q", 0x2000, None, df="P")], cpu=cpu, **(dict(ven="V", vid="VI", ser="S", lic="L", hsf="f", hdp="p",
                                                                                    p=S.props(32, "read-only", "s", 0, 1)) if full else {}))
    T = {"bits": ["[3:0]", "[0:3]", "[3]", "", 3, "[31:0]"]}
    fk = {"description": texts_, "name": ["N", "", 5], "access": accs, "bitOffset": ints, "bitWidth": ints, "bitRange": T["bits"],
          "modifiedWriteValues": gen.MWV + ["", "x"], "readAction": gen.RA + ["", "x"],
          "_write_constraint": [[0, 3], ["0x1", "#11"], "enum", "none", "x", 5, [3, 0], [0, 99]], "writeConstraint": [[0, 3], "enum", "none"],
          "derivedFrom": ["F2", "R2.F"], "dim": [2], "protection": ["s"], "bogus": [1]}
    props = {"size": ints, "access": accs, "resetValue": ints + [2 ** 33, "0xFFFFFFFFFF"], "resetMask": ints, "protection": ["s", "n", "p", "", "x", "S"]}
    rk = dict(props, description=texts_, displayName=texts_, name=["N", ""], addressOffset=ints, alternateGroup=texts_, alternateRegister=["R2", ""],
              _write_constraint=fk["_write_constraint"], derivedFrom=["R2"], bogus=[1], dataType=["uint8_t"], modifiedWriteValues=["clear"],
              fields=[{"N": {"bitOffset": 1, "bitWidth": 1}}, {}, {"N": {"bitOffset": 1}}])
    ck = dict(props, description=texts_, name=["N", ""], addressOffset=ints, derivedFrom=["C2"], headerStructName=["x"],
              registers=[{"NR": {"addressOffset": 4}}])
    pk = dict(props, description=texts_, displayName=texts_, name=["N"], version=texts_, groupName=texts_, baseAddress=ints + ["0x40000000", 2 ** 40],
              addressBlock=[{"offset": 4}, {"size": 8}, {"offset": 1, "size": 2, "usage": "buffer"}, {"usage": "x"}, {"offset": "zz"}],
              addressBlocks=[[{"offset": 0, "size": 4, "usage": "registers"}, {"offset": 8, "size": 4, "usage": "reserved"}]],
              interrupts=[{"I": {"value": 9}}, {"J": {"name": "JJ", "description": "x"}}, {"NO": {"value": 1}}], registers=[{"NR": {"addressOffset": 4}}],
              derivedFrom=["Q2"], headerStructName=["x"])
    ik = {"name": ["N", "", 5], "description": texts_, "value": ints}
    cpu = {"name": ["X", "", 5], "revision": texts_, "endian": ["little", "big", "selectable", "other", "bogus", 1], "nvicPrioBits": ints, "deviceNumInterrupts": ints,
           "sauNumRegions": ints, "mpuPresent": bools, "fpuPresent": bools, "fpuDP": bools, "dspPresent": bools, "icachePresent": bools, "dcachePresent": bools,
           "itcmPresent": bools, "dtcmPresent": bools, "vtorPresent": bools, "vendorSystickConfig": bools}
    dk = dict(props, vendor=texts_, vendorID=texts_, name=["N", 5], series=texts_, version=texts_, description=texts_, licenseText=texts_,
              headerSystemFilename=texts_, headerDefinitionsPrefix=texts_, addressUnitBits=ints, width=ints)
    for full in (False, True):
        d = dev(full)
        for k, vs in fk.items():
            for v in vs:
                out.append((d, {"P": {"R": {"_modify": {R.choice(["F", "F*"]) if k != "name" else "F": {k: v}}}}}))
        for k, vs in rk.items():
            for v in vs:
                if isinstance(v, list) and len(v) == 1:
                    continue
                out.append((d, {"P": {"_modify": R.choice([{"R": {k: v}}, {"_registers": {"R": {k: v}}}, {"A*": {k: v}}])}}))
        for k, vs in ck.items():
            for v in vs:
                out.append((d, {"P": {"_modify": R.choice([{"C": {k: v}}, {"_clusters": {"C": {k: v}}}])}}))
        for k, vs in pk.items():
            for v in vs:
                out.append((d, {"_modify": R.choice([{"P": {k: v}}, {"_peripherals": {"P": {k: v}}}, {"?": {k: v}} if k != "name" else {"Q": {k: v}}])}))
        for k, vs in ik.items():
            for v in vs:
                out.append((d, {"P": {"_modify": {"_interrupts": {"I": {k: v}}}}}))
        for k, vs in cpu.items():
            for v in vs:
                h = {k: v}
                if not full and R.random() < 0.5:
                    h = dict({"name": "CM3", "revision": "r0p0", "endian": "little", "mpuPresent": False, "fpuPresent": True, "nvicPrioBits": 4,
                              "vendorSystickConfig": False}, **h)
                out.append((d, {"_modify": {"cpu": h}}))
        for k, vs in dk.items():
            for v in vs:
                out.append((d, {"_modify": {k: v}}))
    # positions in all notations together
    for a, b in itertools.product((0, 3, 31, "0x4"), repeat=2):
        for h in ({"lsb": a, "msb": b}, {"bitOffset": a, "bitWidth": b}, {"lsb": a}, {"msb": b}, {"lsb": a, "bitWidth": b}, {"bitRange": "[%s:%s]" % (b, a)},
                  {"bitRange": "[7:4]", "bitOffset": a, "bitWidth": b}, {"lsb": a, "msb": b, "bitRange": "[9:8]"}):
            out.append((one(S.reg("R", 0, [S.field("F", 8, 2)])), {"P": {"R": R.choice([{"_modify": {"F": h}}, {"_add": {"N": h}}])}}))
    # arrays: what of the dimension is given
    dims = {"dim": [1, 2, 3, "0x2"], "dimIncrement": [4, "8"], "dimIndex": ["0-1", "A,B", ["X", "Y"], "1-2", "B-C"], "dimName": ["DN"],
            "dimArrayIndex": [{"headerEnumName": "H", "V": [0, "zero"]}, {"V": [0, "z"], "W": [1, "w"]}]}
    for ks in itertools.chain.from_iterable(itertools.combinations(dims, n) for n in (1, 2, 3)):
        for tgt in ("reg", "arr", "field", "farr", "clu", "carr"):
            h = {k: R.choice(dims[k]) for k in ks}
            if "dim" in h and "dimIndex" in h:
                h["dim"] = 2
            name = "A%s" if "arr" in tgt else "A"
            dm = S.dim(2, 4, R.choice([None, ["0", "1"]])) if "arr" in tgt else ()
            if "dim" in h and h["dim"] not in (2, "0x2") and dm and dm[0]["ix"]:
                continue
            if tgt in ("reg", "arr"):
                x, rule = S.reg(name, 0, dim=dm), {"_modify": {"A*": h}}
            elif tgt in ("clu", "carr"):
                x, rule = S.clu(name, 0, [S.reg("X", 0)], dim=dm), {"_modify": {"A*": h}}
            else:
                x, rule = S.reg("R", 0, [S.field(name, 0, 1, dim=dm)]), {"R": {"_modify": {"A*": h}}}
            if "arr" not in tgt:
                h["name"] = "A%s"
            out.append((one(x), {"P": rule}))
    return out


# ------------------------------------------------------------------ copies
def copies(R):
    out = []
    full = lambda n, o: S.reg(n, o, [S.field("F", 0, 2, evs=[S.evs([S.ev("V", 0)])])], d="d" + n, dn="D" + n, p=S.props(16, "read-only", "s", 1, 3),
                              ag="AG", ar="B", dt="uint8_t", mwv="clear", ra="set", wc=S.wc_range(0, 1))
    mods = [{}, {"addressOffset": 0x20}, {"addressOffset": 0x20, "description": "n"}, {"addressOffset": 0x20, "displayName": "n", "size": 32},
            {"addressOffset": 0x20, "access": "write-only", "resetValue": 9, "resetMask": 9}, {"addressOffset": 0x20, "fields": {"N": {"bitOffset": 0, "bitWidth": 1}}},
            {"addressOffset": 0x20, "alternateRegister": "C", "alternateGroup": "", "_write_constraint": "enum"}, {"description": "`register_path`"}]
    for m in mods:
        for src in ("A", "B", "AR%s", "NOPE", "D"):
            for to in ("N", "B", "A", "AR%s", "C"):
                regs = [full("A", 0), S.reg("B", 4), S.reg("AR%s", 8, [S.field("G", 0, 1)], dim=S.dim(2, 4)), S.reg("D", 0x14, df="A"), S.clu("C", 0x40, [S.reg("A", 0)])]
                rule = {"_copy": {to: dict({"_from": src}, **m)}}
                if R.random() < 0.3:
                    rule = {"_copy": {"_registers": rule["_copy"]}}
                if R.random() < 0.3:
                    out.append((one(S.clu("K", 0, regs)), {"P": {"K": rule}}))
                else:
                    out.append((one(*regs), {"P": rule}))
    def dev():
        return S.device([S.per("A", 0x1000, [full("R", 0)], d="dA", gn="G", ints=[{"n": "IA", "d": [], "v": 1}], dn="DA", ver="2", p=S.props(8),
                               ab=[{"off": 0, "sz": 16, "us": "registers", "pr": []}]),
                         S.per("B", 0x2000, [S.reg("S", 0)], d="dB", ints=[{"n": "IB", "d": [], "v": 2}]), S.per("C", 0x3000, [S.reg("T", 0)]),
                         S.per("D", 0x4000, None, df="B", ints=[{"n": "ID", "d": [], "v": 3}]), S.per("E", 0x5000, [S.reg("U", 0)], df=None)])
    other = S.device([S.per("A", 0x7000, [S.reg("OA", 0)], ints=[{"n": "OIA", "d": ["x"], "v": 7}]), S.per("O", 0x8000, [S.reg("OO", 0)], d="o"),
                      S.per("X", 0x9000, [S.reg("OX", 0)], ints=[{"n": "OIX", "d": [], "v": 8}], gn="GX")])
    for src in ("A", "B", "C", "NOPE", "o.svd:A", "o.svd:O", "o.svd:X", "o.svd:NOPE", "no.svd:A", "o.svd:A:B"):
        for to in ("N", "A", "B", "C", "D", "E"):
            out.append((dev(), {"_copy": {to: {"from": src}}}, "enum", other))
            out.append((dev(), {"_copy": {to: {"from": src}, "M": {"from": R.choice(["C", "A", "o.svd:X"])}}}, "enum", other))
            out.append((dev(), R.choice([{"_copy": {to: {"from": src}}, "_modify": {to: {"baseAddress": 0x9900, "description": "z"}}},
                                         {"_copy": {to: {"from": src}}, "?~" + to: {"_modify": {"*": {"description": "y"}}}},
                                         {"_copy": {to: {"from": src}}, "_derive": {"C": to}} if to != "C" else {"_copy": {to: {"from": src}}, "_delete": ["B"]}]), "enum", other))
    # sources that are derived, over several steps, from nothing, in circles, from namesakes; each gives what it says itself
    def chain(n, end, tag):
        pers = []
        for i in range(n):
            last = i == n - 1
            some = lambda k, v: {k: v} if R.random() < 0.4 else {}
            pers.append(S.per("%s%d" % (tag, i), 0x1000 * (i + 1), [S.reg("R%d" % i, 0)] if (last and end is None) or R.random() < 0.12 else None,
                              df=end if last else "%s%d" % (tag, i + 1),
                              ints=[{"n": "I%s%d" % (tag, i), "d": [], "v": i}] if R.random() < 0.5 else [],
                              ab=[{"off": 0, "sz": 16 + i, "us": "registers", "pr": []}] if last or R.random() < 0.3 else None,
                              **dict(some("d", "d%d" % i), **some("dn", "D%d" % i), **some("ver", "v%d" % i), **some("gn", "g%d" % i), **some("ptn", "p%d" % i),
                                     **some("atn", "a%d" % i), **some("hsn", "h%d" % i),
                                     p=S.props(*[R.choice([None, v]) for v in (8 << (i % 3), gen.ACC[i % 5], "snp"[i % 3], i, i + 1)]))))
        return pers
    for n in range(1, 7):
        for end in (None, None, "NO", "A%d" % (n - 1), "A0", "A%d" % (n // 2)):
            for k in range(min(n, 3)):
                pers, there = chain(n, end, "A"), chain(n, end.replace("A", "O") if end else None, "O")
                if R.random() < 0.3:
                    pers.append(S.per("A%d" % R.randrange(n), 0x9000, [S.reg("TWIN", 0)]))
                R.shuffle(pers)
                pers.append(S.per("Z", 0xA000, [S.reg("Z", 0)], ints=[{"n": "IZ", "d": [], "v": 30}]))
                for to in ("N", "Z"):
                    src = R.choice(["A%d" % k, "A%d" % k, "o.svd:O%d" % k])
                    out.append((S.device(pers), {"_copy": {to: {"from": src}}}, "enum", S.device(there)))
    return out


# ------------------------------------------------------------------ optional marks and misses
def bare_of(v):
    """the same rule with nothing asked of what it names"""
    return {k: ({} if not k.startswith("_") or k == "_derivedFrom" else bare_of(x)) for k, x in v.items()} if isinstance(v, dict) else v


def misses(R):
    out = []
    for glob in ("F*", "F?", "F[12]", "NO", "NO*", "*", "f*", "?", "X,Y"):      # nothing to collect, with and without options
        for opt in ("", "?~"):
            for body in ({}, {"description": "x"}, {"_start_from_zero": True}, {"name": "Z%s"}):
                no = [S.reg("A1", 0, [S.field("H1", 0, 1), S.field("I", 1, 1)]), S.reg("G", 4, [])]
                yes = [S.reg("F1", 0, [S.field("F1", 0, 1), S.field("F2", 1, 1)]), S.reg("F2", 4, [S.field("F1", 0, 1), S.field("F2", 1, 1)])]
                for regs in (no, yes, []):
                    out.append((one(*regs), {"P": {"_array": {opt + glob: body}}}))
                    out.append((one(S.clu("C", 0, regs) if regs else S.reg("A", 0)), {"P": {"_clusters": {R.choice(["C", "?~C"]): {"_array": {opt + glob: body}}}}}))
                    out.append((one(*(regs or [S.reg("A1", 0, [])])), {"P": {R.choice(["A1", "?~A1", "F1", "G", "*"]): {"_array": {opt + glob: body}}}}))
                    out.append((one(*regs), {"P": {"_cluster": {R.choice(["K%s", "K"]): {opt + glob: body if "name" in body else {}}}}}))
    fs = lambda: [S.field("F1", 0, 2), S.field("F2", 2, 2), S.field("G", 4, 1)]
    dev = lambda: S.device([S.per("P", 0x1000, [S.reg("R1", 0, fs()), S.reg("R2", 4, fs()), S.reg("AR%s", 8, fs(), dim=S.dim(2, 4)), S.clu("C", 0x40, [S.reg("R1", 0, fs()), S.clu("I", 0x10, [S.reg("Q", 0, fs())])])],
                                  ints=[{"n": "I", "d": [], "v": 1}]), S.per("Q", 0x2000, [S.reg("R1", 0, fs())]), S.per("E", 0x3000, []), S.per("D", 0x4000, None, df="P")])
    hit = {"p": ["P", "P,NO", "[PQ]", "*"], "r": ["R1", "R?", "R[12]", "AR*"], "f": ["F1", "F?", "F*", "G"], "c": ["C", "C*"]}
    for opt in ("", "?~"):
        for lvl in range(40):
            r, f, c, p = (R.choice(hit[k] + ["NO", "NO*", "r1"]) if R.random() < 0.6 else R.choice(hit[k]) for k in ("r", "f", "c", "p"))
            frules = [{opt + f: [0, 1]}, {opt + f: {"V": [0, "v"]}}, {opt + f: {"_read": {"V": [0, "v"]}}}, {opt + f: {"_W1C": {}}}, {opt + f: {"_RC": {}}},
                      {opt + f: {"_derivedFrom": "X"}}, {opt + f: {"_replace_enum": {"V": [0, "v"]}}}, {"_modify": {opt + f: {"description": "x"}}},
                      {"_split": [opt + f]}, {"_split": {opt + f: {}}}, {"_merge": [opt + f]}, {"_merge": opt + f}, {"_merge": {opt + "M": [f, "NO"]}}, {"_merge": {opt + "M": f}}, {"_merge": {"M": [f, opt + "G"]}}, {"_merge": {"M": opt + f}}, {"_array": {opt + f: {"description": "x"}}},
                      {"_delete": [opt + f]}, {"_delete": opt + f}, {"_clear": [opt + f]}, {"_derive": {opt + f: "G"}}, {"_derive": {opt + f: {"_from": "G", "bitOffset": 9, "bitWidth": 1}}},
                      {"_strip": [f]}]
            brules = [{"_modify": {opt + r: {"description": "x"}}}, {"_modify": {"_registers": {opt + r: {"description": "x"}}}}, {"_modify": {"_clusters": {opt + c: {"description": "x"}}}},
                      {"_modify": {opt + c: {"description": "x"}}}, {"_modify": {"_interrupts": {opt + "NO": {"description": "x"}}}}, {opt + r: {"_delete": ["F1"]}}, {opt + c: {"_delete": ["R1"]}},
                      {"_clusters": {opt + c: {"_delete": ["R1"]}}}, {"_array": {opt + r: {"description": "x"}}}, {"_cluster": {"K": {opt + r: {}}}},
                      {"_cluster": {"K%s": {opt + r: {"name": "Z"}}}}, {"_expand_array": {opt + r: {}}}, {"_expand_array": {opt + R.choice(["AR*", "AR?*", "*", "NO*"]): {}}}, {"_expand_cluster": [opt + c]}, {"_expand_cluster": {opt + c: {"_noprefix": True}}},
                      {"_delete": [opt + r]}, {"_delete": opt + r}, {"_delete": {"_clusters": [opt + c]}}, {"_delete": {"_registers": [opt + r]}}, {"_delete": {"_interrupts": [opt + R.choice(["I", "NO"])]}},
                      {"_modify": {"_interrupts": {opt + "I": {"description": "x"}}}}, {"_clear_fields": [opt + r]}, {"_derive": {opt + r: {"_from": "R2", "addressOffset": 0x30}}}, {"_copy": {"N": {"_from": r, "addressOffset": 0x30}}},
                      {opt + c: {opt + R.choice(["I", "NO"]): {"_modify": {"Q": {"description": "x"}}}}}]
            fr = R.choice(frules)
            bare = lambda r: {k: bare_of(v) for k, v in r.items()} if R.random() < 0.35 else r
            fr = bare(fr)
            brules = [bare(b) for b in brules]
            out.append((dev(), {p: {R.choice(["R1", "R?"]): fr}}))
            out.append((dev(), {"P": {r: fr}}))
            out.append((dev(), {"P": {"C": {"R1": R.choice(frules)}}}))
            out.append((dev(), {R.choice(["P", "P", p, "?~" + p]): R.choice(brules)}))
            out.append((dev(), {R.choice(["P", "E", "D", "Q"]): R.choice(brules)}))
            out.append((dev(), {"P": {"C": R.choice(brules[:9] + brules[14:])}}))
            out.append((dev(), {opt + p: {}}))
            out.append((dev(), R.choice([{"_delete": [opt + p]}, {"_modify": {opt + p: {"description": "x"}}}, {"_modify": {"_peripherals": {opt + p: {"description": "x"}}}}, {"_clear_fields": [opt + p]}, {"_derive": {"N": {"_from": p, "baseAddress": 1}}},
                                         {"_rebase": {"Q": p}}, {"_rebase": {p: "P"}} if p != "P" else {}, {"_copy": {"N": {"from": p}}}])))
    return out


# ------------------------------------------------------------------ one entry of a patch in error
def faulty(R):
    """patches with every kind of section; each time another entry is replaced by something else"""
    fs = lambda: [S.field("F0", 0, 2), S.field("F1", 2, 2), S.field("G", 4, 1, evs=[S.evs([S.ev("V", 0)], n="GE")]), S.field("D%s", 8, 1, dim=S.dim(2, 1))]
    dev = S.device([S.per("A", 0x1000, [S.reg("R0", 0, fs()), S.reg("R1", 4, fs()), S.reg("X", 8, fs()), S.reg("AR%s", 0x10, [S.field("F", 0, 1)], dim=S.dim(2, 4)),
                                        S.reg("W", 0x20, df="X"), S.clu("C", 0x40, [S.reg("S0", 0, fs()), S.reg("S1", 4, fs())]), S.clu("K%s", 0x60, [S.reg("Z", 0)], dim=S.dim(2, 8))],
                          ints=[{"n": "I0", "d": [], "v": 1}, {"n": "I1", "d": [], "v": 2}], ab=[{"off": 0, "sz": 0x100, "us": "registers", "pr": []}]),
                    S.per("B", 0x2000, [S.reg("R0", 0, fs()), S.reg("R1", 4, fs())]), S.per("E", 0x3000, None, df="B")])
    dim = {"dim": 2, "dimIncrement": 4}
    patches = [
        {"_delete": ["E", "NO"], "_copy": {"N": {"from": "A"}}, "_modify": {"A": {"description": "x", "addressBlock": {"offset": 0, "size": 8, "usage": "registers"},
                                                                             "interrupts": {"I0": {"description": "i", "value": 3}}}, "cpu": {"name": "CM0", "revision": "r0p0", "endian": "little", "mpuPresent": False, "fpuPresent": False, "nvicPrioBits": 2, "vendorSystickConfig": False}}},
        {"_modify": {"version": "2", "width": 32, "_peripherals": {"B": {"name": "B2", "displayName": "q"}}}, "_clear_fields": ["A"]},
        {"_add": {"M": {"baseAddress": 0x5000, "description": "m", "addressBlocks": [{"offset": 0, "size": 8, "usage": "registers"}], "interrupts": {"IM": {"value": 9}},
                        "registers": {"R": {"addressOffset": 0, "size": 16, "access": "read-only", "resetValue": 5, "fields": {"F": {"bitOffset": 0, "bitWidth": 2}}}}}}},
        {"_derive": {"M": {"_from": "A", "baseAddress": 0x6000}}, "_rebase": {"E": "B"}},
        {"_derive": {"M": "B", "E": "A"}},
        {"A": {"_delete": ["X", "K*"], "_strip": ["R"], "_strip_end": ["x"], "_prefix": "Q_", "_suffix": "_S"}},
        {"A": {"_delete": {"_registers": ["X"], "_clusters": ["C"], "_interrupts": ["I0"]}, "_clear_fields": ["R*"]}},
        {"A": {"_modify": {"R0": {"description": "x", "addressOffset": 0x30, "access": "read-only", "size": 16, "resetValue": 1, "resetMask": 3, "displayName": "n"},
                           "C": {"description": "c", "addressOffset": 0x80}, "_interrupts": {"I1": {"value": 7}}, "_registers": {"R1": {"name": "RX"}}, "_clusters": {"K*": {"dim": 3}}}}},
        {"A": {"_add": {"NR": dict(dim, addressOffset=0x90, dimIndex=["a", "b"], name="n%s"), "_registers": {"N2": {"addressOffset": 0xa0, "fields": {"F": {"bitRange": "[3:1]"}}}},
                        "_clusters": {"NC": {"addressOffset": 0xb0, "registers": {"T": {"addressOffset": 0}}}}, "_interrupts": {"IN": {"value": 5, "description": "d"}}}}},
        {"A": {"_copy": {"NR": {"_from": "R0", "addressOffset": 0x90}, "_registers": {"N2": {"_from": "R1"}}}, "_derive": {"N3": {"_from": "R0", "addressOffset": 0x94}, "_registers": {"R1": "R0"}}}},
        {"A": {"_copy": {"_clusters": {"N": {"_from": "C"}}}}}, {"A": {"_derive": {"_clusters": {"C": "K"}}}},
        {"A": {"_array": {"R*": {"description": "x", "dimIncrement": 4}}, "C": {"_array": {"S?": {"name": "T%s", "_start_from_zero": True}}}}},
        {"A": {"_cluster": {"Q%s": {"description": "x", "R?": {"name": "M"}}}, "_expand_cluster": ["K*"], "_expand_array": {"AR*": {}}}},
        {"A": {"_cluster": {"Q": {"R0": {"name": "M"}, "R1": {}}}, "_expand_cluster": {"K*": {"_noprefix": True}}}},
        {"A": {"_clusters": {"C": {"S0": {"_delete": ["G"]}, "_modify": {"S1": {"description": "s"}}}}, "C": {"S*": {"G": {"_replace_enum": {"Y": [0, "y"]}}}}}},
        {"A": {"R0": {"_delete": ["G"], "_strip": ["F"], "_modify": {"F0": {"description": "d", "bitOffset": 5, "bitWidth": 1}, "F1": {"access": "read-only", "readAction": "clear"}},
                      "_add": {"N": {"bitOffset": 10, "bitWidth": 3}, "N2": {"lsb": 14, "msb": 15}}}}},
        {"A": {"R0": {"_merge": {"M": ["F0", "F1"]}, "_split": ["M"], "_derive": {"N": {"_from": "G", "bitOffset": 12}}}}},
        {"A": {"R0": {"_merge": ["F*"], "_split": {"F": {"name": "S%s", "description": "bit %s"}}, "_derive": {"D*": "G"}, "_clear": ["G"]}}},
        {"A": {"R0": {"_array": {"F?": {"description": "x", "name": "Y%s"}}}}},
        {"A": {"R0": {"F?": {"V0": [0, "v"], "V1": [1, "v"], "_name": "NM"}, "G": [0, 1]}}},
        {"A": {"R0": {"F0": {"_read": {"V0": [0, "v"]}, "_W1C": {"V1": [1, "v"]}}, "F1": {"_RC": {}, "_WS": {}}}}},
        {"A": {"R0": {"G": {"_replace_enum": {"Y": [0, "y"], "Z": [-1, "z"]}}, "F0": {"_derivedFrom": "GE"}}}},
    ]
    out = []
    for p in patches:
        out.append((dev, p))
        for sp in gen.spots(p):
            for j in range(len(gen.JUNK) + 2):
                q = copy.deepcopy(p)
                home, k = gen.at(q, sp[:-1]), sp[-1]
                if j < len(gen.JUNK):
                    home[k] = copy.deepcopy(gen.JUNK[j])
                elif j == len(gen.JUNK):
                    del home[k]
                elif isinstance(home, dict):
                    v = home.pop(k)
                    home[R.choice(gen.SECTIONS)] = v
                out.append((dev, q, R.choice(["enum", "enum", "field", "none"])))
    return out


def globs(R):
    """patterns that are no patterns, which is a known finding"""
    dev = S.device([S.per("A", 0x1000, [S.reg("R0", 0, [S.field("F0", 0, 2)])])])
    return [(dev, p, "enum", None, "invalid-patterns") for p in (
        {"A": {"[0": {"F0": {"X": [0, "x"]}}}}, {"[A": {"R0": {"F0": {"X": [0, "x"]}}}}, {"A": {"_clear_fields": ["R]", "[R", "R{a"], "B": {}}},
        {"A": {"R0": {"[F": {"X": [0, "x"]}}}}, {"A": {"_modify": {"{R0": {"description": "x"}}}})]


# ------------------------------------------------------------------ everything that stands beside
def kin(R):
    """one rule on an element that others name, resemble or stand in"""
    ev = lambda: S.evs([S.ev("V", 0)], n="E")
    dup = lambda: [S.field("F", 0, 2, evs=[ev()]), S.field("F1", 2, 2, d="f"), S.field("G", 4, 1, df="F1")]

    def block():
        rs = [S.reg("A", 0, dup(), d="dA", ar="B", dn="A"), S.reg("B", 4, dup(), d="dB", dn="Bdn"), S.reg("DA", 8, df="A", d="own"),
              S.reg("DB", 0x0c, [S.field("OWN", 7, 1)], df="B"), S.reg("AR%s", 0x10, dup(), dim=S.dim(2, 4)), S.reg("DR", 0x18, df="AR%s", ar="A"),
              S.reg("A1", 0x20, dup()), S.reg("A2", 0x24, dup()), S.reg("DDA", 0x28, df="DA"), S.reg("DP", 0x2c, df="P.A")]
        return rs

    def dev():
        k = S.clu("K", 0x80, [S.reg("A", 0, dup()), S.reg("DA", 4, df="A"), S.reg("B", 8, df="P.B")], d="dK", ac="L")
        l = S.clu("L", 0x100, [S.reg("A", 0, dup()), S.clu("M", 8, [S.reg("A", 0), S.reg("DA", 4, df="A")])])
        ks = S.clu("KS%s", 0x140, [S.reg("A", 0), S.reg("DA", 4, df="A")], dim=S.dim(2, 0x10))
        return S.device([S.per("P", 0x1000, block() + [k, l, ks], ints=[{"n": "A", "d": ["i"], "v": 1}, {"n": "B", "d": [], "v": 2}], gn="G",
                               ab=[{"off": 0, "sz": 0x400, "us": "registers", "pr": []}]),
                         S.per("P1", 0x2000, block(), ints=[{"n": "A", "d": [], "v": 3}]), S.per("Q", 0x3000, df="P", ints=[{"n": "Q", "d": [], "v": 4}]),
                         S.per("A", 0x4000, [S.reg("A", 0, dup())])])
    N = ["A", "B", "DA", "DB", "AR%s", "A1", "K", "L", "KS%s", "N", "DDA"]
    rules = []
    for x in N:
        for y in N[:8] + ["A2"]:
            rules += [{"_copy": {x: {"_from": y, "addressOffset": 0x60}}}, {"_copy": {x: {"_from": y}}},
                      {"_derive": {x: {"_from": y, "addressOffset": 0x60}}}, {"_derive": {x: y}}]
        rules += [{"_delete": [x]}, {"_add": {x: {"addressOffset": 0x60, "fields": {"F": {"bitOffset": 0, "bitWidth": 1}}}}},
                  {"_add": {"_cluster": {x: {"addressOffset": 0x60}}}}, {"_modify": {x: {"name": "N", "description": "z"}}},
                  {"_modify": {x: {"name": "N"}}}, {"_modify": {x: {"addressOffset": 0x70}}}, {"_modify": {x: {"size": 16, "access": "read-only"}}},
                  {"_clear_fields": [x]}, {x: {"_delete": ["F"]}}, {x: {"_add": {"N": {"bitOffset": 9, "bitWidth": 1}}}},
                  {x: {"_modify": {"F1": {"name": "N"}}}}, {x: {"_modify": {"F": {"description": "z", "name": "N"}}}}, {x: {"_clear": ["F"]}},
                  {x: {"F1": {"W": [1, "w"]}}}, {x: {"F": {"_read": {"W": [1, "w"]}}}}, {x: {"F": {"V": [0, "w"]}}}, {x: {"F1": [0, 1]}}, {x: {"F1": "set"}},
                  {x: {"_split": ["F1"]}}, {x: {"_merge": ["F*"]}}, {x: {"_strip": ["F"]}}, {x: {"_prefix": "Z"}}, {x: {"_array": {"F*": {}}}},
                  {x: {"_derive": {"F1": "G"}}}, {x: {"_derive": {"G": "F"}}}, {x: {"F1": {"_derivedFrom": "F"}}}, {x: {"F1": {"_derivedFrom": "P.B.F.E"}}},
                  {"_clusters": {x: {"_modify": {"A": {"name": "N", "description": "z"}}}}}, {"_clusters": {x: {"_delete": ["A"]}}},
                  {"_clusters": {x: {"_derive": {"A": "DA"}}}}, {"_clusters": {x: {"_add": {"A9": {"addressOffset": 9}}}}}, {"_clusters": {x: {"A": {"F": {"W": [1, "w"]}}}}},
                  {"_expand_cluster": [x]}, {"_expand_array": [x]}]
    rules += [{"_array": {"A[12]": {}}}, {"_array": {"A[12]": {"name": "A%s"}}}, {"_array": {"?": {}}}, {"_cluster": {"C%s": {"A[12]": {"name": "A"}}}},
              {"_cluster": {"C": {"A": {}, "B": {}}}}, {"_cluster": {"A": {"A1": {}}}}, {"_strip": ["A"]}, {"_strip": ["D"]}, {"_prefix": "Z_"}, {"_suffix": "_Z"},
              {"_strip_end": ["1"]}, {"_delete": {"_interrupts": ["A"]}}, {"_modify": {"_interrupts": {"A": {"name": "N"}}}}, {"_add": {"_interrupts": {"N": {"value": 7}}}},
              {"_delete": {"_clusters": ["*"]}}, {"_delete": {"_registers": ["[AB]"]}}, {"_modify": {"_cluster": {"K": {"description": "z"}}}}]
    out = []
    for r in rules:
        x = R.random()
        out.append((dev(), {R.choice(["P", "P", "P", "P*", "Q", "*", "A"]): r} if x < 0.75 else
                    {"P": {"_clusters": {R.choice(["K", "L", "*", "KS*"]): r}}} if "_clusters" not in r and x < 0.9 else {"P": {"L": {"M": r}}} if x < 0.93 else
                    {"P": dict(r, **R.choice([{"_suffix": "Q"}, {"A": {"F": {"Y": [3, "y"]}}}, {"_modify": {"B": {"description": "bb"}}}]))}, R.choice(["enum", "enum", "field", "none"])))
    D = ["P", "P1", "Q", "A", "N"]
    for x in D:
        for y in D[:4]:
            out += [(dev(), {"_copy": {x: {"from": y}}}), (dev(), {"_derive": {x: {"_from": y, "baseAddress": 0x9000}}}), (dev(), {"_rebase": {x: y}}), (dev(), {"_derive": {x: y}})]
        out += [(dev(), {"_delete": [x]}), (dev(), {"_modify": {x: {"name": "N"}}}), (dev(), {"_modify": {x: {"baseAddress": 0x10, "description": "z"}}}),
                (dev(), {"_clear_fields": [x]}), (dev(), {"_add": {x: {"baseAddress": 0x9000, "interrupts": {"A": {"value": 7}}, "registers": {"A": {"addressOffset": 0}}}}})]
    return out


def twins(R):
    """one rule on elements of the same name"""
    ev = lambda v="V": S.evs([S.ev(v, 0)], n="E")
    I = lambda n, v: {"n": n, "d": ["i%d" % v], "v": v}

    def fs():
        return [S.field("F", 0, 2, evs=[ev()]), S.field("G", 2, 2), S.field("F", 4, 1, d="other"), S.field("H", 5, 1, df="F"), S.field("G", 6, 2, evs=[ev("W")])]

    def dev():
        rs = [S.reg("R", 0, fs(), d="one"), S.reg("S", 4, fs()), S.reg("R", 8, [S.field("X", 0, 1)], d="two"), S.reg("D", 0x0c, df="R"), S.reg("R", 0x10, fs(), ar="S")]
        cs = [S.clu("C", 0x40, [S.reg("R", 0, fs()), S.reg("R", 4, [S.field("Y", 0, 1)])]), S.clu("K", 0x60, [S.reg("R", 0)]), S.clu("C", 0x80, [S.reg("S", 0, fs())], ac="C"),
              S.clu("R", 0xa0, [S.reg("Q", 0)])]
        l = rs + cs
        if R.random() < 0.5:
            R.shuffle(l)
        return S.device([S.per("P", 0x1000, l, d="one", ints=[I("I", 1), I("J", 2), I("I", 3)]), S.per("Q", 0x2000, [S.reg("R", 0, fs())], ints=[I("I", 4)]),
                         S.per("P", 0x3000, [S.reg("S", 0, fs()), S.reg("S", 4, fs())], d="two", ints=[I("J", 5)]), S.per("E", 0x4000, None, df="P"),
                         S.per("P", 0x5000, None, df="Q", d="three")])
    out = []
    field = [{"_delete": ["F"]}, {"_delete": ["F", "G"]}, {"_delete": ["[FG]"]}, {"_delete": ["F", "F"]}, {"_delete": "F*"}, {"_modify": {"F": {"description": "z"}}}, {"_modify": {"F": {"name": "G"}}},
             {"_modify": {"F": {"name": "N", "description": "n"}}}, {"_add": {"F": {"bitOffset": 20, "bitWidth": 1}}}, {"_clear": ["F"]}, {"F": {"A": [1, "a"]}}, {"F": {"_read": {"A": [1, "a"]}}}, {"G": {"A": [1, "a"]}},
             {"G": [0, 1]}, {"F": {"_replace_enum": {"A": [1, "a"]}}}, {"H": {"A": [0, "a"]}}, {"H": {"_derivedFrom": "F"}}, {"_derive": {"H": "G"}}, {"_derive": {"F": "G"}}, {"_derive": {"N": {"_from": "F", "bitOffset": 20}}},
             {"_merge": {"M": ["F", "G"]}}, {"_merge": ["G"]}, {"_split": ["G"]}, {"_split": {"F": {"name": "B%s"}}}, {"_array": {"F": {}}}, {"_array": {"?": {}}}, {"_strip": ["F"]}, {"_prefix": "F"}]
    block = [{"_delete": ["R"]}, {"_delete": ["R", "S"]}, {"_delete": ["C"]}, {"_delete": ["R", "R"]}, {"_delete": {"_registers": ["R"]}}, {"_delete": {"_clusters": ["C"]}}, {"_delete": {"_clusters": ["R"]}}, {"_delete": {"_clusters": "C,K"}},
             {"_modify": {"R": {"description": "z"}}}, {"_modify": {"R": {"name": "S"}}}, {"_modify": {"S": {"name": "R"}}}, {"_modify": {"C": {"description": "z"}}}, {"_modify": {"C": {"name": "K"}}},
             {"_modify": {"_registers": {"R": {"description": "z", "size": 16}}}}, {"_modify": {"_clusters": {"C": {"name": "CC"}}}}, {"_modify": {"_clusters": {"R": {"description": "c"}}}},
             {"_add": {"R": {"addressOffset": 0x200}}}, {"_add": {"_clusters": {"C": {"addressOffset": 0x200}}}}, {"_copy": {"N": {"_from": "R", "addressOffset": 0x200}}}, {"_copy": {"R": {"_from": "S", "addressOffset": 0x200}}},
             {"_copy": {"S": {"_from": "R"}}}, {"_copy": {"_clusters": {"N": {"_from": "C", "addressOffset": 0x200}}}}, {"_copy": {"_clusters": {"C": {"_from": "K"}}}}, {"_derive": {"N": {"_from": "R", "addressOffset": 0x200}}},
             {"_derive": {"S": "R"}}, {"_derive": {"R": "S"}}, {"_derive": {"D": "S"}}, {"_derive": {"_clusters": {"K": "C"}}}, {"_clear_fields": ["R"]}, {"_clear_fields": ["*"]}, {"_clusters": {"C": {"_delete": ["R"]}}},
             {"C": {"R": {"_delete": ["F"]}}}, {"C": {"_modify": {"R": {"description": "z"}}}}, {"_array": {"R": {}}}, {"_array": {"?": {}}}, {"_cluster": {"N": {"R": {}}}}, {"_cluster": {"N%s": {"R": {"name": "T"}}}},
             {"_expand_cluster": ["C"]}, {"_expand_cluster": ["K"]}, {"_expand_cluster": {"C": {"_noprefix": True}}}, {"_strip": ["R"]}, {"_prefix": "R"}, {"_suffix": "S"}]
    block += [{k: r} for k in ("R", "S", "[RS]", "?") for r in field]
    inter = [{"_delete": {"_interrupts": ["I"]}}, {"_delete": {"_interrupts": ["I", "J"]}}, {"_delete": {"_interrupts": "I"}}, {"_modify": {"_interrupts": {"I": {"value": 9}}}}, {"_modify": {"_interrupts": {"I": {"name": "J"}}}},
             {"_modify": {"_interrupts": {"*": {"description": "z"}}}}, {"_add": {"_interrupts": {"I": {"value": 9}}}}, {"_add": {"_interrupts": {"N": {"value": 9}}}}]
    for r in block + inter:
        for k in ("P", R.choice(["*", "[PQ]", "P,Q", "?"])):
            out.append((dev(), {k: r}, R.choice(["enum", "enum", "field", "none"])))
    for r in [{"_delete": ["P"]}, {"_delete": "P"}, {"_delete": ["P", "Q"]}, {"_delete": ["P", "P"]}, {"_delete": ["P", "E"]}, {"_delete": ["?"]}, {"_delete": ["[PE]"]}, {"_delete": ["Q", "P"]}, {"_delete": "P,E"},
              {"_copy": {"N": {"from": "P"}}}, {"_copy": {"P": {"from": "Q"}}}, {"_copy": {"Q": {"from": "P"}}}, {"_copy": {"P": {"from": "P"}}}, {"_copy": {"E": {"from": "P"}}},
              {"_modify": {"P": {"description": "z"}}}, {"_modify": {"P": {"name": "N"}}}, {"_modify": {"Q": {"name": "P"}}}, {"_modify": {"P": {"name": "Q"}}}, {"_modify": {"P": {"baseAddress": 0x10}}},
              {"_modify": {"P": {"interrupts": {"I": {"value": 9}}}}}, {"_modify": {"_peripherals": {"P": {"description": "z"}}}}, {"_clear_fields": ["P"]}, {"_clear_fields": "P"},
              {"_add": {"P": {"baseAddress": 0x9000}}}, {"_derive": {"N": "P"}}, {"_derive": {"Q": "P"}}, {"_derive": {"P": "Q"}}, {"_derive": {"N": {"_from": "P", "baseAddress": 0x9000}}}, {"_derive": {"P": "E"}},
              {"_rebase": {"P": "Q"}}, {"_rebase": {"E": "P"}}, {"_rebase": {"P": "E"}}, {"_rebase": {"Q": "P"}}, {"P": {"_prefix": "X"}, "_delete": ["P"]}, {"P": {}, "_modify": {"P": {"name": "Q"}}}]:
        for _ in range(3):
            out.append((dev(), r))
    return out


def corners(R):
    """rules that are rare in any mix, at every place they can stand in"""
    out = []

    def wraps():
        return [lambda x: {"P": x}, lambda x: {"P": {"C": x}}, lambda x: {"P": {"C": {"K": x}}}, lambda x: {"P": {"_clusters": {"C": x}}},
                lambda x: {"P": {"A%s": x}}, lambda x: {"P": {"A*": {"_clusters": {"K": x}}}}]

    def kids():
        f = [S.field("F", 0, 4, evs=[S.evs([S.ev("V", 1)], n="FV")]), S.field("G", 4, 4), S.field("A%s", 8, 1, dim=S.dim(2, 2)), S.field("H", 12, 1, evs=[S.evs([], df="FV")])]
        return [S.reg("R", 0, copy.deepcopy(f)), S.reg("S", 4, copy.deepcopy(f[:2])), S.reg("E", 8), S.reg("AR%s", 0x10, [S.field("F", 0, 1)], dim=S.dim(2, 4))]

    def dev():
        k = S.clu("K", 0x40, kids())
        return one(*(kids() + [S.clu("C", 0x100, kids() + [k]), S.clu("A%s", 0x300, kids() + [copy.deepcopy(k)], dim=S.dim(2, 0x100)), copy.deepcopy(k)]))

    block = [{"_copy": {"_clusters": {"N": {"_from": "K", "addressOffset": 0x80}}}}, {"_copy": {"_clusters": {}}}, {"_copy": {"_registers": {"N": {"_from": "R", "addressOffset": 0x80}}}},
             {"_derive": {"_clusters": {"N": "K"}}}, {"_derive": {"_clusters": {}}}, {"_derive": {"_registers": {"N": {"_from": "R", "addressOffset": 0x80}}}},
             {"_derive": {"_registers": {"?~NO*": "R", "E": "S"}}}, {"_derive": {"N%s": {"_from": "R", "addressOffset": 0x80, "dim": 2, "dimIncrement": 4}}},
             {"_derive": {"E": {"_from": "S", "dim": 2, "dimIncrement": 4}}}, {"_copy": {"N%s": {"_from": "R", "addressOffset": 0x80, "dim": 2, "dimIncrement": 4}}},
             {"_copy": {"N%s": {"_from": "AR%s", "addressOffset": 0x80}}}, {"_copy": {"AR%s": {"_from": "R"}}}, {"_copy": {"R": {"_from": "AR%s"}}},
             {"_cluster": {"N%s": {"R": {}, "S": {}}}}, {"_cluster": {"N%s": {"[R][S]": {}}}}, {"_cluster": {"N%s": {"{R,S}": {}}}}, {"_cluster": {"N": {"{R,S}": {}}}},
             {"_cluster": {"N%s": {"R": {"name": "X"}}}}, {"_cluster": {"N": {"AR%s": {}}}}, {"_cluster": {"N%s": {"AR*": {}}}}, {"_array": {"AR*": {}}}, {"_array": {"{R,S}": {}}},
             {"_array": {"[RS]": {}}}, {"_array": {"[RS]": {"name": "X%s"}}}, {"_array": {"R": {"dimIncrement": 4}}}, {"_array": {"E": {"dimIncrement": 4, "name": "E%s"}}},
             {"_add": {"N%s": {"addressOffset": 0x80, "dim": 2, "dimIncrement": 4}}}, {"_add": {"N": {"addressOffset": 0x80, "dim": 2, "dimIncrement": 4}}},
             {"_modify": {"R": {"dim": 2, "dimIncrement": 0x40}}}, {"_modify": {"AR*": {"dim": 3}}}, {"_modify": {"AR*": {"dimIndex": "A-B"}}}, {"_modify": {"AR*": {"dimIndex": ["X", "Y"]}}},
             {"_modify": {"AR*": {"dimIndex": "A,B,C"}}}, {"_modify": {"AR*": {"dimName": "DN"}}}, {"_modify": {"AR*": {"dimIncrement": 8, "name": "B%s"}}}, {"_modify": {"AR*": {"name": "B"}}}]
    # a cluster with several elements which is given another name, then expanded
    for nm in ("B", "B%s", "B[%s]", "B%sX", "%sB"):
        for ix in (None, "A-B", "5-6", "X,Y", "A-C"):
            m = {"name": nm, "dimIndex": ix} if ix else {"name": nm}
            block.append({"_modify": {"_clusters": {"K": dict(m, dim=2, dimIncrement=0x40)}}, "_expand_cluster": {R.choice(["B*", "*B*", "K"]): R.choice([{}, {"_preindex": "", "_postindex": "x"}])}})
            block.append({"_modify": {"AR*": m}, "_expand_array": {R.choice(["B*", "*B*", "AR*"]): {}}})
    for d in ("*", "R", ["R", "S", "E", "AR*"], ["R", "S"]):
        block.append({"K": {"_delete": d}, "_expand_cluster": ["K"]})
        block.append({"K": {"_delete": d}, "_expand_cluster": {"K": {"_noprefix": True}}})
        block.append({"K": {"_delete": d, "_add": {"N": {"addressOffset": 0}}}})
        block.append({"K": {"_delete": d, "_array": {"?~A*": {}}}, "_delete": "?~R"})
    for r in block:
        for w in wraps():
            out.append((dev(), w(copy.deepcopy(r))))
    rules = [{"_split": "F"}, {"_split": "NO"}, {"_split": "?~NO"}, {"_split": ["F", "G"]}, {"_split": "?"}, {"_split": "A%s"}, {"_split": "A*"}, {"_split": None}, {"_split": {}}, {"_split": []},
             {"_split": {"F": {}}}, {"_split": {"F": {"name": "B%s", "description": "b %s"}}}, {"_split": {"F": {"name": "B"}}}, {"_split": 5}, {"_merge": 5}, {"_merge": "NO"}, {"_merge": "?"},
             {"_merge": "[FG]"}, {"_merge": ["[FG]"]}, {"_merge": {"FG": "[FG]"}}, {"_merge": {"FG": ["F", "G"]}}, {"_merge": {"FG": "A*"}}, {"_merge": "A*"}, {"_merge": None}, {"_merge": {"FG": 5}},
             {"_derive": {"N%s": {"_from": "F", "bitOffset": 16, "bitWidth": 2, "dim": 2, "dimIncrement": 4}}}, {"_derive": {"N": {"_from": "F", "bitOffset": 16, "bitWidth": 2, "dim": 2, "dimIncrement": 4}}},
             {"_derive": {"G": {"_from": "F", "dim": 2, "dimIncrement": 4}}}, {"_derive": {"A*": {"_from": "F", "dim": 3}}}, {"_derive": {"N": 5}}, {"_derive": {"N": {"bitOffset": 16}}},
             {"_add": {"N%s": {"bitOffset": 16, "bitWidth": 2, "dim": 2, "dimIncrement": 4}}}, {"_modify": {"F": {"dim": 2, "dimIncrement": 16}}}, {"_modify": {"A*": {"dimIndex": "X,Y"}}},
             {"_modify": {"A*": {"dimIndex": 5}}}, {"_modify": {"A*": {"dimIndex": ["X", 5]}}}, {"_modify": {"F": {"_write_constraint": 5}}}, {"_modify": {"F": {"writeConstraint": [1]}}},
             {"_modify": {"F": {"writeConstraint": [1, 2, 3]}}}, {"_modify": {"F": {"writeConstraint": "enum"}}}, {"_modify": {"F": {"writeConstraint": "none"}}},
             {"G": {"_derivedFrom": "FV"}}, {"G": {"_derivedFrom": "H"}}, {"G": {"_name": "GV", "A": [0, "a"]}}, {"_array": {"?": {}}}, {"_array": {"[FG]": {}}}, {"_array": {"[FG]": {"name": "X%s"}}},
             {"_array": {"[FG]": {"name": "X%s", "_write_constraint": [0, 3]}}}, {"_array": {"A*": {}}}, {"_array": {"F": {"name": "F%s", "dimIncrement": 4}}}]
    for r in rules:
        for w in wraps():
            out.append((dev(), w({R.choice(["R", "?~R", "[RX]"]): copy.deepcopy(r)})))
    # more lists of values than a field may have
    for us in itertools.product([None, "read", "write", "read-write"], repeat=2):
        for more in ([], [S.evs([S.ev("T", 3)], n="TV", us="read")]):
            f = S.field("F", 0, 4, evs=[S.evs([S.ev("V", 1)], n="AV", us=us[0]), S.evs([S.ev("U", 2)], n="BV", us=us[1])] + copy.deepcopy(more), ac="read-write")
            for r in ({"F": {"_read": {"Q": [1, "q"]}}}, {"F": {"_write": {"_replace_enum": {"Q": [1, "q"]}}}}, {"F": {"_replace_enum": {"Q": [1, "q"]}}}, {"F": {"Q": [1, "q"]}},
                      {"F": {"_read": {"_replace_enum": {"Q": [1, "q"]}}, "_write": {"W": [1, "w"]}}}, {"G": {"_derivedFrom": "AV"}}, {"_clear": "F"}):
                out.append((one(S.reg("R", 0, [copy.deepcopy(f), S.field("G", 4, 4, ac="read-write")])), {"P": {"R": copy.deepcopy(r)}}))
    return out


def every(R):
    """some of everything else"""
    out = []
    for f in (order, attrs, names, misses, adds, copies, refs, reg_refs, affixes, bits, arrays, clusters, expands, enums, shares, clears, actions, texts, twins):
        l = f(R)
        out += R.sample(l, min(45, len(l)))
    return out


# ------------------------------------------------------------------ the study
def run_one(tool, sc, cid):
    dev, patch = sc[0], sc[1]
    ed = sc[2] if len(sc) > 2 else "enum"
    files = []
    text = S.render(dev)
    with open(os.path.join(tool.cwd, "in.svd"), "w") as f:
        f.write(text)
    if len(sc) > 3 and sc[3]:
        ot = S.render(sc[3])
        with open(os.path.join(tool.cwd, "o.svd"), "w") as f:
            f.write(ot)
        files = [{"n": "o.svd", "pers": S.project(ot)["pers"]}]
    y = gen.ytext(dict([("_svd", "in.svd")] + list(patch.items())))
    with open(os.path.join(tool.cwd, "p.yaml"), "w") as f:
        f.write(y)
    out = os.path.join(tool.cwd, "out.svd")
    if os.path.exists(out):
        os.remove(out)
    s, _ = tool.run("patch", "p.yaml", "out.svd", "--enum-derive", ed)
    dev0 = S.project(text)
    d = None
    if s == "ok":
        try:
            with open(out) as f:
                d = S.project(f.read())
        except (OSError, S.Shape):
            s = "shape"
    return {"id": cid, "dev": dev0, "files": files, "patch": gen.ymap(patch), "ed": ed, "yaml": y, "key": sc[4] if len(sc) > 4 else "",
            "obs": [{"at": "end", "out": s, "dev": d if d is not None else dev0}]}


_W = {}


def _init(binary, root):
    svdtool.limit()
    d = os.path.join(root, "d%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    _W["tool"] = svdtool.Tool(binary, d)


def _one(a):
    sc, cid = a
    t = _W["tool"]
    if t.hung > 3:
        return None
    return run_one(t, sc, cid)


def scenarios(fun, nq, formulas=()):
    """the scenarios of fun: a sample of nq of them, or all when thorough"""
    def run(cx):
        rounds = 4 if cx.thorough() else 1
        for k in range(rounds):
            if k and cx.left() < 150:
                break
            R = random.Random("%d/%s/%s/%d" % (cx.seed, cx.pid, fun.__name__, k))
            l = fun(R)
            cx.more["scenarios_" + fun.__name__] = cx.more.get("scenarios_" + fun.__name__, 0) + len(l)
            if not cx.thorough() and len(l) > nq:
                l = R.sample(l, nq)
            for i in range(0, len(l), 4000):
                with multiprocessing.Pool(8, _init, (cx.binary, cx.root)) as pool:
                    cases = [c for c in pool.imap(_one, [(x, "s%d-%d-%d" % (k, i, j)) for j, x in enumerate(l[i:i + 4000])], 8) if c]
                cx.count("tool_runs", len(cases))
                study.judge(cx, cases, formulas, R)
    return run
