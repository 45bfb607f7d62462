"""Studies of the pages `svdtools html` and `svdtools htmlcompare` make."""
import json
import os
import random
import re
import resource
import signal
import subprocess
from html.parser import HTMLParser

import gen
import study_view as V
import svdlib as S
import study_conv

# elements whose end may be left out
OMIT = {"html", "head", "body", "p", "li", "thead", "tbody", "tr", "td", "th"}
VOID = {"meta", "link", "br", "img", "input", "hr"}


class Bad(Exception):
    pass


class Node:
    def __init__(self, tag, attrs=()):
        self.tag, self.attrs, self.kids = tag, dict(attrs), []

    def cls(self):
        return (self.attrs.get("class") or "").split()

    def all(self, tag=None, cls=None):
        for k in self.kids:
            if isinstance(k, Node):
                if (tag is None or k.tag == tag) and (cls is None or cls in k.cls()):
                    yield k
                yield from k.all(tag, cls)

    def one(self, tag=None, cls=None):
        return next(self.all(tag, cls))

    def own(self, tag=None):
        return [k for k in self.kids if isinstance(k, Node) and (tag is None or k.tag == tag)]

    def text(self):
        return "".join(k if isinstance(k, str) else "\n" if k.tag == "br" else k.text() for k in self.kids)

    def sq(self):
        return " ".join(re.split(r"[ \t\n\r\f]+", self.text())).strip()


class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = Node("root")
        self.stack = [self.root]

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs)
        self.stack[-1].kids.append(n)
        if tag not in VOID:
            self.stack.append(n)

    def handle_startendtag(self, tag, attrs):
        self.stack[-1].kids.append(Node(tag, attrs))

    def handle_endtag(self, tag):
        if not self.strict and tag not in [n.tag for n in self.stack]:
            return
        while self.stack[-1].tag != tag and self.stack[-1].tag in OMIT:
            del self.stack[-1]
        if self.stack[-1].tag != tag:
            raise Bad("</%s> within <%s>" % (tag, self.stack[-1].tag))
        del self.stack[-1]

    def handle_data(self, d):
        k = self.stack[-1].kids
        if k and isinstance(k[-1], str):
            k[-1] += d
        else:
            k.append(d)


def tree(text, strict=True):
    t = Tree()
    t.strict = strict
    t.feed(text)
    t.close()
    for n in t.stack[1:]:
        if n.tag not in OMIT:
            raise Bad("<%s> is never closed" % n.tag)
    return t.root


def match(rx, text):
    m = re.fullmatch(rx, text, re.S)
    if not m:
        raise Bad("%r does not look like %r" % (text[:200], rx))
    return m


def pct(bar):
    """thousandths of a percent of a progress bar"""
    v = float(match(r"width: ?([0-9.]+)%", bar.attrs["style"].strip())[1])
    return int(v * 1000 + 1e-7)


def covered(n):
    m = match(r"(?:Overall: )?(\d+) ?/ ?(\d+) fields (?:covered|documented)\.?", n)
    return int(m[1]), int(m[2])


def p_cells(tr):
    out = []
    for td in tr.own("td"):
        a = next(td.all("a"), None)
        w = int(td.attrs.get("colspan", "1"))
        if a is None:
            if td.sq():
                raise Bad("text in an empty cell: " + td.sq())
            if td.cls():
                raise Bad("an empty cell with " + td.attrs["class"])
            out.append({"n": "", "w": w, "ac": "", "doc": False, "cut": False})
        else:
            name = a.sq()
            rest = td.sq()
            if not rest.startswith(name):
                raise Bad("cell " + rest)
            out.append({"n": name, "w": w, "ac": rest[len(name):].strip(), "doc": "text-success" in a.cls(), "cut": "separated" in td.cls(), "to": a.attrs.get("href", "")})
    return out


def p_reg(pname, div, tr):
    h4 = div.own("h4")[0]
    name = h4.sq()
    if h4.attrs["id"] != pname + ":" + name:
        raise Bad("anchor %r of register %s" % (h4.attrs["id"], name))
    ps = [p for p in div.own("p")]
    desc = ps[0].sq()
    m = match(r"Offset: 0x([0-9a-f]+), size: (\d+), reset: (0x[0-9A-F]+), access: ([A-Za-z-]+)(?:, allowed values: (\d+-\d+))?", ps[1].sq())
    fs = []
    det = div.one("details", "fields")
    if det.attrs["id"] != "%s-%s-fields" % (pname, name):
        raise Bad("anchor %r of the fields of %s" % (det.attrs["id"], name))
    for k in det.own():
        if k.tag == "h4":
            fs.append({"n": k.sq(), "doc": None, "d": None})
            if k.attrs["id"] != "%s:%s:%s" % (pname, name, fs[-1]["n"]):
                raise Bad("anchor %r of field %s" % (k.attrs["id"], fs[-1]["n"]))
        elif k.tag == "p":
            f = fs[-1]
            if f["d"] is None:
                b = match(r"Bits? (\d+)(?:-(\d+))?: ?(.*)", k.sq())
                f["lo"], f["hi"], f["d"] = int(b[1]), int(b[2] or b[1]), b[3]
                if k.sq().startswith("Bits") != (b[2] is not None):
                    raise Bad("bits " + k.sq())
            elif f["doc"] is None:
                f["doc"] = k.sq()
            else:
                raise Bad("three paragraphs for a field")
    for f in fs:
        f["doc"] = f["doc"] or ""
    em = [p for p in ps[2:]]
    doc, tot = covered(em[0].sq()) if em else (0, 0)
    rows = []
    for t in div.all("table", "bitfield"):
        trs = t.own("tr")
        if len(trs) % 2:
            raise Bad("%d rows in the table of fields" % len(trs))
        for a, b in zip(trs[::2], trs[1::2]):
            heads = [int(x.sq()) for x in a.own("th")]
            if heads != list(range(heads[0], heads[0] - 16, -1)):
                raise Bad("headers %s" % heads)
            cells = p_cells(b)
            for c in cells:
                to = c.pop("to", "")
                if c["n"] and to != "#%s:%s:%s" % (pname, name, c["n"]):
                    raise Bad("link " + to)
            rows.append({"top": heads[0], "cells": cells})
    if em == [] and rows:
        raise Bad("a table without fields")
    tds = tr.own("td")
    m2 = match(r"0x([0-9a-f]+)(?: \((\d+)-bit\))?", tds[0].sq())
    if (m2[1], m2[2] or "32") != (m[1], m[2]) or tds[1].sq() != name or tds[1].one("a").attrs["href"] != "#%s:%s" % (pname, name):
        raise Bad("register map line of %s: %s" % (name, tds[0].sq()))
    line = Node("tr")
    line.kids = tds[2:]
    bits, cut = [], []
    for c in p_cells(line):
        bits += [c["n"]] * c["w"]
        cut += [c["cut"]] * c["w"]
        if c["ac"] or (c["n"] and c.get("to") != "#%s:%s:%s" % (pname, name, c["n"])):
            raise Bad("register map cell %s" % c)
    return {"n": name, "off": int(m[1], 16), "size": int(m[2]), "d": desc, "ac": m[4], "rst": m[3], "wc": m[5] or "", "doc": doc, "tot": tot,
            "pct": pct(div.one(cls="progress-bar")), "bits": bits, "cut": cut, "rows": rows, "fs": fs}


def p_page(text):
    t = tree(text)
    box = [x for x in t.all("div", "container")][1]
    row = box.own("div")[0]
    bar = row.one(cls="progress-bar")
    doc, tot = covered(next(x.sq() for x in row.all("div") if x.sq().startswith("Overall") and not x.own("div")))
    menu = []
    for a in t.one("nav", "menu").all("a"):
        if a.attrs["href"] != "#" + a.sq():
            raise Bad("menu " + a.sq())
        menu.append(a.sq())
    pers = []
    for p in box.all("div", "peripheral"):
        name = p.own("h3")[0].sq()
        if p.own("h3")[0].attrs["id"] != name:
            raise Bad("anchor of " + name)
        ps = p.own("p")
        m = match(r"(0x[0-9a-f]+): ?(.*)", ps[0].sq())
        pd, pt = covered(ps[1].sq())
        trs = p.one("details", "register-map").one("table").own("tr")
        head = [x.sq() for x in trs[0].own("th")]
        if head != ["Offset", "Name"] + [str(i) for i in range(31, -1, -1)]:
            raise Bad("register map head")
        divs = [x for x in p.one("details", "registers").own("div")]
        if len(divs) != len(trs) - 1:
            raise Bad("%d lines in the register map, %d registers" % (len(trs) - 1, len(divs)))
        pers.append({"n": name, "base": m[1], "d": m[2], "doc": pd, "tot": pt, "pct": pct(p.own("div")[0].one(cls="progress-bar")),
                     "regs": [p_reg(name, d, r) for d, r in zip(divs, trs[1:])]})
    name = match(r"(.*) Peripheral Coverage", t.one("title").sq())[1]
    return {"n": name, "doc": doc, "tot": tot, "pct": pct(bar), "menu": menu, "pers": pers}


def p_index(text):
    t = tree(text)
    out = []
    for row in t.all("div", "row"):
        bars = [x for x in row.all(cls="progress-bar")]
        if not bars:
            continue
        a = [x for x in row.all("a")]
        name = a[0].sq()
        if a[0].attrs["href"] != name + ".html":
            raise Bad("link of " + name)
        m = match(re.escape(name) + r" \(svd\): (\d+ ?/ ?\d+ fields documented)", row.sq())
        doc, tot = covered(m[1])
        out.append({"n": name, "doc": doc, "tot": tot, "pct": pct(bars[0])})
    return out


# ------------------------------------------------------------------ one page
def dress(R, dev):
    """values, limits and accesses that a page shows"""
    for p in dev["pers"]:
        if R.random() < 0.2:
            p["n"] = p["n"].lower() if not p["df"] and not any(q["df"] == [p["n"]] for q in dev["pers"]) else p["n"]
        for x in V.walk(p["regs"][0] if p["regs"] else []):
            if x["k"] != "r" or not x["fs"]:
                continue
            if R.random() < 0.1:
                x["p"]["sz"] = [R.choice([8, 16, 32, 64])]
            if R.random() < 0.1:
                x["wc"] = S.opt(S.wc_range(R.choice([0, 1]), R.choice([3, 255]))) if not isinstance(S.wc_range(0, 1), list) else S.wc_range(R.choice([0, 1]), 255)
            for f in x["fs"][0]:
                if R.random() < 0.15:
                    f["ac"] = [R.choice(["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"])]
                if R.random() < 0.15:
                    f["mwv"] = [R.choice(["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"])]
                if R.random() < 0.1:
                    f["ra"] = [R.choice(["clear", "set", "modify", "modifyExternal"])]
                if R.random() < 0.08 and not f["dim"]:
                    f["off"] = R.choice([f["off"], max(0, 31 - f["w"] + 1), 15, 16, 14])
                for e in f["evs"]:
                    if e["vals"] and R.random() < 0.2:
                        v = e["vals"][-1]
                        v["v"], v["def"] = [], [True]


def trim(dev):
    """descriptions as they are read: without the white space around them"""
    def one(x, blank=False):
        x["d"] = [t.strip() for t in x["d"] if blank or t.strip()]
    for p in dev["pers"]:
        one(p)
        for x in V.walk(p["regs"][0] if p["regs"] else []):
            one(x, x["k"] == "r")
            for f in (x["fs"][0] if x["k"] == "r" and x["fs"] else []):
                one(f)
                for e in f["evs"]:
                    for v in e["vals"]:
                        one(v)
    return dev


def mk_page(tool, seed, d):
    R = random.Random(seed)
    dev = V.v_device(R, many=R.choice([1, 2, 3, 4]), chain=0.4)
    dress(R, dev)
    if R.random() < 0.6:
        study_conv.refer(R, dev, R.choice([0.1, 0.25]))
    t = S.render(dev, R if R.random() < 0.3 else None)
    dev = trim(S.project(t))
    with open(os.path.join(d, "a.svd"), "w") as f:
        f.write(t)
    h = os.path.join(d, "h")
    s, o = tool.run("html", h, os.path.join(d, "a.svd"))
    page, line = {"pers": []}, {}
    if s == "ok":
        try:
            page = p_page(open(os.path.join(h, dev["n"] + ".html")).read())
            ix = p_index(open(os.path.join(h, "index.html")).read())
            line = ix[0] if len(ix) == 1 else {"lines": len(ix)}
        except (Bad, StopIteration, IndexError, KeyError, ValueError, OSError) as e:
            s = "unreadable: %s %s" % (type(e).__name__, e)
    return [{"dev": dev, "out": s, "page": page, "line": line, "text": {"svd": t}}]


def bend_page(c, R):
    if c["out"] != "ok" or not c["page"]["pers"]:
        return None
    p = R.choice(c["page"]["pers"])
    k = R.randrange(4)
    if k == 0 or not p["regs"]:
        p["tot"] += 1
    elif k == 1:
        del p["regs"][R.randrange(len(p["regs"]))]
    else:
        r = R.choice(p["regs"])
        if r["fs"] and k == 2:
            R.choice(r["fs"])["doc"] += "x"
        else:
            r["off"] += 4
    return c


def pages(nq, nt):
    return V.study("Page", mk_page, [], ["CountsAddUp", "Sorted", "BitsShown", "AllShown"], bend_page, nq, nt, "html")


# ------------------------------------------------------------------ pages over time
EPOCH = 1600000000
FUTURE = 900000


def small(R, name):
    """a small device with that name; the number of its registers tells versions apart"""
    regs = []
    for i in range(R.choice([1, 2, 3, 5])):
        fs = [S.field("F%d" % j, 2 * j, 2, evs=[S.evs([S.ev("A", 0, "x"), S.ev("B", 1)])] if R.random() < 0.5 else []) for j in range(R.choice([0, 1, 2, 4]))]
        regs.append(S.reg("R%d" % i, 4 * i, fs, d="register %d" % R.randrange(1000)))
    d = S.device([S.per("P%d" % R.randrange(100), 0x1000, regs)])
    d["n"] = name
    return d


class Shelf:
    """a directory with SVD files and pages, and what they show"""

    def __init__(self, tool, d):
        self.tool, self.d, self.vers, self.page, self.text = tool, d, [], {}, {}
        os.makedirs(os.path.join(d, "in"))
        os.makedirs(os.path.join(d, "ref"))

    def version(self, text, name=None):
        i = len(self.vers) + 1
        self.text[text] = i
        v = {"n": "", "doc": 0, "tot": 0, "ok": False}
        if name:
            r = os.path.join(self.d, "ref", str(i))
            p = r + ".svd"
            open(p, "w").write(text)
            s, o = self.tool.run("html", r, p)
            if s == "ok":
                t = open(os.path.join(r, name + ".html")).read()
                ix = p_index(open(os.path.join(r, "index.html")).read())
                self.page[t] = i
                v = {"n": name, "doc": ix[0]["doc"], "tot": ix[0]["tot"], "ok": True}
        self.vers.append(v)
        return i

    def look(self, step):
        svd, page, index = [], [], []
        for sub in ("in", "h"):
            top = os.path.join(self.d, sub)
            for f in sorted(os.listdir(top)) if os.path.isdir(top) else []:
                p = os.path.join(top, f)
                t = int(os.stat(p).st_mtime)
                if EPOCH + FUTURE * 10 < t:
                    t = EPOCH + 1000 * step       # written in this step
                    os.utime(p, (t, t))
                x = open(p, errors="replace").read()
                if f.endswith(".svd"):
                    svd.append({"n": sub + "/" + f, "v": self.text.get(x, 0), "t": t - EPOCH})
                elif f == "index.html":
                    try:
                        index = [[{q: l[q] for q in ("n", "doc", "tot")} for l in p_index(x)]]
                    except (Bad, StopIteration, IndexError, KeyError):
                        index = [[{"n": "unreadable", "doc": 0, "tot": 0}]]
                elif f.endswith(".html"):
                    page.append({"n": f[:-5], "v": self.page.get(x, 0), "t": t - EPOCH})
        return {"svd": svd, "page": page, "index": index}


def mk_renew(tool, seed, d):
    R = random.Random(seed)
    sh = Shelf(tool, d)
    names = R.sample(["DA", "da", "DB", "Dc", "X1"], R.choice([1, 2, 3]))
    if "DA" in names and "da" in names and R.random() < 0.5:
        names.remove("da")
    texts = {}
    for n in names:
        texts[n] = []
        for _ in range(R.choice([2, 3, 4])):
            t = S.render(small(R, n))
            if t not in sh.text:
                sh.version(t, n)
                texts[n].append(t)
    bad = ["", "<device>", S.render(small(R, "E")).replace("</device>", ""), S.render(small(R, "E")).replace("<baseAddress>", "<baseAddress>z")]
    for t in bad:
        sh.version(t)
    path = {n: "in/%s.svd" % (n.lower() + ("2" if n == "da" else "")) for n in names}
    # files and pages may be reached through links
    os.makedirs(os.path.join(d, "real"))
    links = {f for f in path.values() if R.random() < 0.25}
    if R.random() < 0.1:
        os.makedirs(os.path.join(d, "site"))
        os.symlink("site", os.path.join(d, "h"))
    steps, log = [], []
    start = {"svd": [], "page": [], "index": []}
    pre = start
    last = None
    for k in range(1, R.choice([4, 6, 8, 10]) + 1):
        out = "ok"
        r = R.random()
        have = [x["n"] for x in pre["svd"] if x["n"].startswith("in/")]
        if r < 0.35 or not have:
            n = R.choice(names)
            t = R.choice(texts[n]) if R.random() < 0.9 else R.choice(bad)
            f = path[n]
            if R.random() < 0.15 and "h/" in "".join(x["n"] for x in pre["svd"]):
                f = "h/" + os.path.basename(f)
            if f.startswith("h/") and not os.path.isdir(os.path.join(d, "h")):
                continue
            pages = [x["t"] for x in pre["page"] if x["n"] == n]
            at = R.choice([1000 * k] * 4 + [1000 * k - 1, 500, FUTURE] + [x for x in pages] + [x + 1 for x in pages])
            if t in (texts[n][0],) and not os.path.exists(os.path.join(d, f)) and R.random() < 0.5:
                at = 1000 * k
            p = os.path.join(d, f)
            if f in links and not os.path.islink(p):
                os.symlink("../real/" + os.path.basename(f), p)
            open(p, "w").write(t)
            os.utime(p, (EPOCH + at, EPOCH + at))
            if f in links:
                to = EPOCH + R.choice([400, 1000 * k, FUTURE])
                os.utime(p, (to, to), follow_symlinks=False)    # says nothing about the file
            cmd = {"k": "put", "f": f, "v": sh.text[t], "t": at}
        elif r < 0.45 and pre["page"]:
            x = R.choice(pre["page"])
            p = os.path.join(d, "h", x["n"] + ".html")
            if R.random() < 0.5:
                os.remove(p)
            else:
                at = R.choice([500, 1000 * k, x["t"] - 1])
                os.utime(p, (EPOCH + at, EPOCH + at))
            cmd = {"k": "age", "f": x["n"]}
        else:
            files = R.sample(have, R.choice([1, len(have), len(have)]))
            if R.random() < 0.15:
                copies = {os.path.basename(x["n"]): x["n"] for x in pre["svd"] if x["n"].startswith("h/")}
                files = [copies.get(os.path.basename(f), f) for f in files]
            if R.random() < 0.15:
                files.insert(R.randrange(len(files) + 1), R.choice(["in/none.svd", "in", "h"]))
            # what two inputs with the same name do is open
            seen = [sh.vers[x["v"] - 1]["n"] for f in files for x in pre["svd"] if x["n"] == f and x["v"]]
            if len([s for s in seen if s]) != len({s for s in seen if s}):
                continue
            if last and R.random() < 0.25:
                cmd = dict(last, cut=False)
                seen = [sh.vers[x["v"] - 1]["n"] for f in cmd["files"] for x in pre["svd"] if x["n"] == f and x["v"]]
                if len([s for s in seen if s]) != len({s for s in seen if s}):
                    continue
            else:
                cmd = {"k": "html", "files": files, "cut": R.random() < 0.2}
            if any(x["n"] in cmd["files"] and not x["v"] for x in pre["svd"]):
                continue        # what an interrupted copy holds
            out = sh_html(tool, d, cmd, R)
            last = cmd
        post = sh.look(k)
        steps.append({"cmd": cmd, "out": out, "post": post})
        log.append([k, cmd, out])
        # keep the numbers of the steps
        while len(steps) < k:
            steps.insert(len(steps) - 1, {"cmd": {"k": "age", "f": ""}, "out": "ok", "post": pre})
        pre = post
    return [{"vers": sh.vers, "start": start, "steps": steps, "text": {"log": log}}]


def sh_html(tool, d, cmd, R):
    args = ["html", os.path.join(d, "h")] + [os.path.join(d, f) for f in cmd["files"]]
    if not cmd["cut"]:
        s, o = tool.run(*args)
        return s
    n = R.choice([0, 100, 500, 1500, 4000, 6000, 8000, 9000, 10000, 12000, 16000])
    tool.runs += 1
    def low():
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    p = subprocess.run([tool.binary] + args, cwd=tool.cwd, env=tool.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, preexec_fn=low, restore_signals=R.random() < 0.6)
    return {0: "ok", 1: "err", -signal.SIGXFSZ: "cut"}.get(p.returncode, "panic")


def bend_renew(c, R):
    l = [s for s in c["steps"] if s["cmd"]["k"] == "html" and s["out"] == "ok" and s["post"]["page"]]
    if not l:
        return None
    s = R.choice(l)
    k = R.randrange(3)
    if k == 0:
        s["post"]["index"] = []
    elif k == 1:
        s["post"]["page"][R.randrange(len(s["post"]["page"]))]["v"] = 0
    elif s["post"]["svd"]:
        del s["post"]["svd"][R.randrange(len(s["post"]["svd"]))]
    return c


def renew(nq, nt):
    return V.study("Renew", mk_renew, ["InputsKept", "Current", "PagesWhole", "Settled"], [], bend_renew, nq, nt, "html over time")


# ------------------------------------------------------------------ tables that compare devices
def p_table(file, text):
    t = tree(text, False)
    title = t.one("title").text()
    if t.one("h1").text().strip() not in (title, ""):
        raise Bad("heading " + t.one("h1").text())
    heads = [x.text() for x in t.all("th")]
    rows = []
    for tr in t.one("tbody").all("tr"):
        tds = tr.own("td")
        if not tds:
            continue
        cells = [x for x in tds if "bgcolor" not in x.attrs]
        has = []
        for x in tds[len(cells):]:
            m = {("#ccffcc", "\u2714"): True, ("#ffcccc", "\u2718"): False}
            has.append(m[(x.attrs["bgcolor"], x.text())])
        links = [a.attrs["href"] for a in tr.all("a")]
        rows.append({"cells": [x.text() for x in cells], "link": links[0] if links else "", "has": has})
    return {"file": file, "title": title, "heads": heads, "rows": rows}


def vary(R, dev):
    """the device of a relative"""
    n = R.choice([0, 1, 2, 4])
    for _ in range(n):
        p = R.choice(dev["pers"])
        k = R.randrange(9)
        kids = p["regs"][0] if p["regs"] else []
        if k == 0 and len(dev["pers"]) > 1 and not any(q["df"] == [p["n"]] for q in dev["pers"]):
            dev["pers"].remove(p)
        elif k == 1:
            p["base"] = S.w(R.choice([0x48000000, 0x40000000, 0x123400000000]) + 0x400 * R.randrange(4))
        elif k == 2 and len(kids) > 1:
            kids.remove(R.choice(kids))
        elif k == 3 and kids:
            R.choice(kids)["off"] += 4
        elif kids:
            x = R.choice(kids)
            if x["k"] == "c" and x["ch"]:
                x = R.choice(x["ch"])
            if x["k"] == "r" and x["fs"] and x["fs"][0]:
                f = R.choice(x["fs"][0])
                if k == 4:
                    x["fs"][0].remove(f)
                elif k == 5:
                    f["w"] = max(1, f["w"] - 1)
                elif k == 6:
                    f["n"] += "X"
                elif k == 7 and f["w"] > 1:
                    f["off"], f["w"] = f["off"] + 1, f["w"] - 1
            elif k > 6:
                x["n"] += "X"
    if R.random() < 0.6:
        dev["n"] = R.choice(["D1", "D2", "ANY", "X-1"])
    return dev


def mk_compare(tool, seed, d):
    R = random.Random(seed)
    base = V.v_device(R, texts=False, many=R.choice([1, 2, 3]), chain=0.3)
    if R.random() < 0.35:
        study_conv.refer(R, base, 0.1)
    devs, args, texts = [], [], []
    for i in range(R.choice([1, 2, 2, 3, 4])):
        dev = json.loads(json.dumps(base)) if R.random() < 0.9 else V.v_device(R, texts=False, many=R.choice([1, 2]))
        t = S.render(vary(R, dev))
        if R.random() < 0.03:
            t = t.replace("</device>", "")
        # names that are alike: the same in other places, and one inside the other
        f = R.choice(["%s%d/%s.svd" % ("d", i, R.choice(["a", "a", "b", "a.x", "c%d" % i])), "a.svd" + ".patched" * i, "d" * i + "a.svd", "a" * (i + 1), "d/a.svd" + "x" * i])
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "w") as g:
            g.write(t)
        try:
            devs.append(S.project(t))
        except S.Shape:
            devs.append(None)
        args.append(f)
        texts.append({"file": f, "svd": t})
    order = list(range(len(args)))
    if None in devs:
        # a file that is no SVD at all: the specification knows only readable ones
        s, o = tool.run("htmlcompare", os.path.join(d, "h"), *[os.path.join(d, f) for f in args])
        return [] if s == "err" and not os.path.exists(os.path.join(d, "h")) else [{"devs": [x for x in devs if x], "out": s + " with an unreadable file", "pages": [], "text": {"inputs": texts}}]
    s, o = tool.run("htmlcompare", os.path.join(d, "h"), *[os.path.join(d, f) for f in args])
    pages = []
    if s == "ok" or os.path.exists(os.path.join(d, "h")):
        try:
            for f in sorted(os.listdir(os.path.join(d, "h"))):
                pages.append(p_table(f, open(os.path.join(d, "h", f)).read()))
        except (Bad, StopIteration, IndexError, KeyError) as e:
            s = "unreadable: %s %s" % (type(e).__name__, e)
    return [{"devs": devs, "out": s, "pages": pages, "text": {"inputs": texts}}]


def bend_compare(c, R):
    l = [p for p in c["pages"] if p["rows"]]
    if not l:
        return None
    p = R.choice(l)
    r = R.choice(p["rows"])
    k = R.randrange(4)
    if k == 0:
        i = R.randrange(len(r["has"]))
        r["has"][i] = not r["has"][i]
    elif k == 1:
        p["rows"].remove(r)
    elif k == 2:
        r["cells"][1] += "0"
    else:
        c["pages"].remove(p)
    return c


def compare(nq, nt):
    return V.study("Compare", mk_compare, [], ["NobodyHasNothing", "LinksLead", "TwinsAlike", "MarksCounted"], bend_compare, nq, nt, "htmlcompare")
