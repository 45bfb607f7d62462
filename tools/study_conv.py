"""Studies of documents written under a format configuration, and of expansion."""
import json
import os
import random
import re
import xml.etree.ElementTree as ET

import yaml

import gen
import study_view as V
import svdjson
import svdlib as S
from study_files import explicit

NUM = ["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin"]
IDS = ["Camel", "Pascal", "Snake", "Constant"]
NAMES = ["peripheral_name", "cluster_name", "register_name", "field_name", "enumerated_values_name", "enumerated_value_name",
         "dim_array_index_header_enum_name", "interrupt_name"]
NUMBERS = ["peripheral_base_address", "address_block_offset", "address_block_size", "cluster_address_offset", "register_address_offset",
           "register_size", "register_reset_value", "register_reset_mask", "enumerated_value_value", "dim_dim", "dim_increment"]
ODD = ["FooBar", "ABCDef", "a_b", "x9Y", "CH%s", "Ch%sData", "Data[%s]", "ABC9DEf", "_x", "aBC", "A__B", "X_", "i2cDMA", "lower", "%s", "T%s_X"]


class Nota(random.Random):
    """always the same notation of bit ranges"""


def tokens(text):
    def go(e, out):
        kids = list(e)
        df = e.attrib.get("derivedFrom")
        if kids or e.tag in ("registers", "peripherals", "device", "peripheral", "register", "cluster", "field", "fields",
                             "enumeratedValues", "enumeratedValue", "interrupt", "addressBlock", "cpu", "dimArrayIndex", "writeConstraint",
                             "range"):
            out.append("<" + e.tag)
            if df is not None:
                out.append("@derivedFrom=" + df)
            for k in e.attrib:
                if k != "derivedFrom" and e.tag != "device":
                    out.append("@" + k)
            if (e.text or "").strip():
                out.append("text " + e.text.strip())
            for k in kids:
                go(k, out)
                if (k.tail or "").strip():
                    out.append("text " + k.tail.strip())
            out.append(">" + e.tag)
        else:
            out.append(e.tag + "=" + (e.text or "") + "".join(" @" + k for k in e.attrib))
    out = []
    go(ET.fromstring(text), out)
    return out


def g_cfg(R, much=0.0):
    m = {}
    for k in NUMBERS:
        if R.random() < max(0.35, much):
            m[k] = R.choice(NUM)
    for k in NAMES:
        if R.random() < max(0.25, much):
            m[k] = R.choice(IDS)
    if R.random() < 0.4:
        m["field_bit_range"] = R.choice(["BitRange", "OffsetWidth", "MsbLsb"])
    how = ["Offset", "OffsetReversed", "Name"]
    def order(more):
        l = R.sample(how, R.choice([0, 1, 1, 1, 2])) + [x for x in more if R.random() < 0.4]
        R.shuffle(l)
        return ",".join(l + (["Unknown"] if R.random() < 0.05 else []))
    for k, more in (("peripheral_sorting", ["DerivedLast"]), ("register_cluster_sorting", ["DerivedLast", "RegistersFirst", "ClustersFirst"]),
                    ("field_sorting", ["DerivedLast"])):
        if R.random() < 0.5:
            m[k] = order(more)
    l = list(m.items())
    R.shuffle(l)
    return dict(l[:R.choice([1, 3, 99, 99]) if not much else 99])


def rename(R, dev):
    """names that make a difference to the conversion of case"""
    for p in dev["pers"]:
        if not p["dim"] and R.random() < 0.15:
            old, p["n"] = p["n"], R.choice([n for n in ODD if "%" not in n]) + R.choice(["", "X"])
            for q in dev["pers"]:
                if q["df"] == [old]:
                    q["df"] = [p["n"]]
        for i in p["ints"]:
            if R.random() < 0.2:
                i["n"] = R.choice([n for n in ODD if "%" not in n])
        for x in V.walk(p["regs"][0] if p["regs"] else []):
            if not x["df"] and R.random() < 0.25:
                x["n"] = R.choice([n for n in ODD if ("%" in n) == bool(x["dim"])])
            if R.random() < 0.1:
                x["off"] = R.choice([0, 0x7FFFFFFF, 0x7FFFFFF0, 4, 4, 0x10000])
            if x["k"] == "r":
                if R.random() < 0.05:
                    x["ar"] = [R.choice([n for n in ODD if "%" not in n])]
                if R.random() < 0.05:
                    x["dt"] = [R.choice(["uint8_t", "uint32_t *", "int16_t"])]
                for f in (x["fs"][0] if x["fs"] else []):
                    if R.random() < 0.2:
                        f["n"] = R.choice([n for n in ODD if ("%" in n) == bool(f["dim"])])
                    for e in f["evs"]:
                        if e["n"] and R.random() < 0.2:
                            e["n"] = [R.choice(ODD)]
                        for v in e["vals"]:
                            if R.random() < 0.2:
                                v["n"] = R.choice(ODD)
            elif R.random() < 0.05:
                x["ac"] = ["FooBar"]


def mk_format(tool, seed, d):
    R = random.Random(seed)
    dev = V.v_device(R, texts=False, many=R.choice([1, 2, 3, 4]))
    rename(R, dev)
    nota = R.choice(["OffsetWidth", "MsbLsb", "BitRange"])
    t = S.render(dev, None, nota)
    dev = S.project(t)
    cfg = g_cfg(R)
    if cfg and R.random() < 0.1:
        k = R.choice(list(cfg))
        cfg[k] = R.choice(["", "Upper", "dec", "snake", "Hex", cfg[k] + " ", cfg[k].lower(), "Snake", "Dec", "BitRange", "0", "Unknown", "true"])
        if R.random() < 0.2:
            cfg["no_such_key"] = R.choice(["", "Snake", "Dec", "x"])
    name = os.path.join(d, "cfg." + R.choice(["yaml", "yml", "json"]))
    with open(name, "w") as f:
        f.write(json.dumps(cfg) if name.endswith("json") or R.random() < 0.5 else yaml.safe_dump(cfg))
    old = R.random() < 0.3
    patched = R.random() < 0.35
    given = not patched or R.random() < 0.5     # else next to the device
    src, out = os.path.join(d, "a.svd"), os.path.join(d, "o.svd" if given else "a.svd.patched")
    with open(src, "w") as f:
        f.write(t)
    if old:
        with open(out, "w") as f:
            f.write("old")
    used = bool(cfg) or R.random() < 0.8
    more = ["--format-config", name] if used else []
    if patched:
        with open(os.path.join(d, "p.yaml"), "w") as f:
            f.write("_svd: a.svd\n_modify:\n  version: \"9.9\"\n")
        dev["ver"] = "9.9"
        more += R.choice([[], [], ["--show-patch-on-error"], ["--enum-derive", R.choice(["field", "enum", "none"])]])
        args = ["patch", os.path.join(d, "p.yaml")] + [out] * given
        if R.random() < 0.5:
            args[1:1] = more
        else:
            args += more
        s, o = tool.run(*args)
    else:
        s, o = tool.run("convert", src, out, *more)
    toks = []
    wrote = (open(out).read() if os.path.exists(out) else None) != ("old" if old else None)
    if s == "ok":
        try:
            toks = tokens(open(out).read())
        except (ET.ParseError, OSError) as e:
            s = "unreadable: %s" % e
    return [{"dev": dev, "cfg": [[k, v] for k, v in cfg.items()] if used else [], "nota": nota, "out": s, "wrote": wrote, "toks": toks,
             "text": {"svd": t, "config": cfg, "used": used}}]


def bend_format(c, R):
    if c["out"] != "ok":
        return None
    i = R.choice([i for i, t in enumerate(c["toks"]) if "=" in t])
    k = R.randrange(3)
    if k == 0:
        c["toks"][i] += "x"
    elif k == 1:
        del c["toks"][i]
    else:
        c["toks"].append("<extra")
    return c


def formats(nq, nt):
    return V.study("Written", mk_format, ["Forward"], ["NumbersRead", "NothingLost"], bend_format, nq, nt, "format")


# ------------------------------------------------------------------ expansion
def places(dev):
    """(kind, path, element, list of siblings) of everything that may be referred to, in order"""
    l = []
    def kids(xs, path):
        for x in xs:
            l.append((x["k"], path + [x["n"]], x, xs))
            if x["k"] == "c":
                kids(x["ch"], path + [x["n"]])
            else:
                for f in (x["fs"][0] if x["fs"] else []):
                    l.append(("f", path + [x["n"], f["n"]], f, x["fs"][0]))
                    for e in f["evs"]:
                        l.append(("e", path + [x["n"], f["n"], e["n"][0] if e["n"] else None], e, f["evs"]))
    for p in dev["pers"]:
        kids(p["regs"][0] if p["regs"] else [], [p["n"]])
    return l


def one_name(R, path, x):
    """a name by which the last element of the path is found"""
    if x.get("dim") and R.random() < 0.4:
        ix = x["dim"][0]["ix"]
        i = R.choice(ix[0] if ix else ["%d" % k for k in range(x["dim"][0]["n"])])
        return path[:-1] + [x["n"].replace("[%s]", i).replace("%s", i)]
    return path


def refer(R, dev, p=0.2):
    l = places(dev)
    order = l[:]
    if R.random() < 0.5:
        order = l[::-1]
    broken = R.random() < 0.06
    for i, (k, path, x, sib) in enumerate(order):
        if x["df"] or R.random() > p:
            continue
        src = [y for y in order[:i] if y[0] == k and y[1] != path and y[1][-1] is not None and path[:len(y[1])] != y[1] and
               y[1][:len(path)] != path]
        near = [y for y in src if y[1][:-1] == path[:-1]]
        if near and R.random() < 0.7:
            src = near
        if k == "e":
            here = [y for y in src if y[1][:-2] == path[:-2]]
            if here and R.random() < 0.7:
                src = here
        if not src:
            continue
        y = R.choice(src)
        q = one_name(R, y[1], y[2])
        if k == "e":
            ways = [q]
            if q[:-2] == path[:-2]:
                ways += [q[-1:], q[-2:]]
            if q[:-3] == path[:-3]:
                ways += [q[-3:]]
        else:
            ways = [q] + ([q[-1:]] * 2 if q[:-1] == path[:-1] else [])
        v = R.choice(ways)
        if k == "f" and len(v) == 2:
            continue
        if broken and R.random() < 0.5:
            v = v[:-1] + [R.choice(["GONE", path[-1] or "GONE"])]
            if k == "f" and len(v) == 2:
                continue
        x["df"] = [".".join(v)]
        if R.random() < 0.6:
            if k == "r":
                x["fs"] = []
            elif k == "c" and x["ch"]:
                x["ch"] = []
            elif k == "f":
                x["evs"] = []
            elif k == "e":
                x["vals"] = []
        if R.random() < 0.3 and "p" in x:
            x["p"] = dict(S.NOPROPS)


def mk_expand(tool, seed, d):
    R = random.Random(seed)
    dev = V.v_device(R, texts=False, many=R.choice([1, 2, 3, 4]), chain=0.5)
    refer(R, dev, R.choice([0.0, 0.15, 0.3]))
    fmt = R.choice(["svd", "svd", "json", "yaml"])
    if fmt != "svd":
        explicit(dev)
        for _, _, x, _ in places(dev):
            if x.get("fs") == [[]]:
                x["fs"] = []
    t = S.render(dev) if fmt == "svd" else svdjson.render(dev, fmt)
    dev = S.project(t) if fmt == "svd" else svdjson.project(t, fmt)
    src, out = os.path.join(d, "a." + fmt), os.path.join(d, "o." + R.choice(["svd", "json", "yaml"]))
    with open(src, "w") as f:
        f.write(t)
    ex, xp, ign = R.random() < 0.75, R.random() < 0.35, fmt == "svd" and R.random() < 0.2
    s, o = tool.run("convert", src, out, *[x for b, x in ((ex, "--expand"), (xp, "--expand-properties"), (ign, "--ignore-enums")) if b])
    got = {"pers": []}
    if s == "ok":
        try:
            text = open(out).read()
            got = S.project(text) if out.endswith("svd") else svdjson.project(text, out.rsplit(".", 1)[1])
        except (S.Shape, OSError) as e:
            s = "unreadable: %s" % e
    return [{"dev": dev, "xp": xp, "ex": ex, "ign": ign, "svd": fmt == "svd", "out": s, "got": got,
             "text": {"input": t, "format": fmt, "expand": ex, "expand_properties": xp, "ignore_enums": ign}}]


def bend_expand(c, R):
    if c["out"] != "ok" or not c["got"]["pers"]:
        return None
    p = R.choice(c["got"]["pers"])
    k = R.randrange(3)
    regs = p["regs"][0] if p["regs"] else []
    if k == 0 or not regs:
        p["n"] += "x"
    elif k == 1:
        R.choice(regs)["off"] += 1
    else:
        del regs[R.randrange(len(regs))]
        if not regs:
            return None
    return c


def expansion(nq, nt):
    return V.study("Expanded", mk_expand, ["PlacesKept"], ["Plain", "PropsReach", "NoValues"], bend_expand, nq, nt, "convert")
