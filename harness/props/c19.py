"""C19: feature code and classes."""
import random

from vlib import font, guard, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check

CODES = {}


def event(F, **o):
    from vfbLib.compilers.text import OpenTypeStringCompiler
    from vfbLib.parsers.text import OpenTypeStringParser

    raw = [x["v"] for x in F if x["k"] == "features"]
    r = font.convert(F, seconds=30, **o)
    keep = []
    for x in F:
        if x["k"] == "glyph":
            keep.append({"k": "glyph", "v": {"name": x["v"]["name"]}})
        elif x["k"] in ("klass", "classflags", "masters"):
            keep.append(x)
        elif x["k"] == "features":
            keep.append({"k": "features", "v": ""})
    why = r["why"]
    lines, back, split = [], b"", {"prefix": [], "features": []}
    if raw:
        a = guard.call(lambda: read(raw[-1].encode("cp1252"), OpenTypeStringParser, OpenTypeStringCompiler))
        if a[0] == "ok":
            lines, back, split = a[1]
        else:
            why = "reading: " + str(a[1:])
    cc = lambda s: [ord(x) for x in s]  # noqa: E731
    return {"ok": bool(r["ok"]) and why == r["why"], "why": why, "font": keep, "codes": cc(raw[-1]) if raw else [],
            "opts": {"minimal": bool(o.get("minimal")), "move": o.get("move_groups", True),
                     "kern": o.get("add_kerning_groups", False)},
            "lines": [cc(x) for x in lines], "back": cc(back.decode("cp1252")),
            "split": {"prefix": [cc(x) for x in split["prefix"]],
                      "features": [{"tag": cc(f["tag"]), "code": [cc(x) for x in f["code"]]} for f in split["features"]]},
            "ufos": [{"order": u["order"], "fea": [{"s": x, "c": cc(x)} for x in u["fea"]]} for u in r["ufos"]]}


def read(data, P, C):
    from io import BytesIO
    lines = P().parse(BytesIO(data), len(data), None)
    return lines, C().compile(lines), P.build_fea_dict(lines)


NAMES = ["@_A", "@_B.x", "a", "b.alt", "@d", "[@_A b @_c]", "[ a @_L ]", "@_x'", "x@_y", "[@d e]", "_A", "[a\t@_L b]", "[\t@_M]"]


def line(r):
    k = r.randrange(10)
    s = lambda: r.choice([" ", " ", "  ", "\t", " \t "])  # noqa: E731
    if k < 4:
        t = (r.choice(["", " ", "\t", "    "]) + r.choice(["", "", "enum" + s()]) + "pos" + s() + r.choice(NAMES) + s()
             + r.choice(NAMES) + s() + r.choice(["-10;", "5 ;", "<0 0 3 0>;", "1; "]))
        if r.random() < 0.1:
            i = r.randrange(len(t))
            t = t[:i] + "#" + t[i:]
    elif k == 4:
        t = r.choice(["feature kern {", "feature ss01 useExtension {", "  feature liga{", "} kern;", "feature XYZ1 {", "feature calt { sub a by b; } calt;", "lookup L useExtension {"])
    elif k == 5:
        t = r.choice(["sub @_A by @_B;", "sub f i by f_i;", "ignore sub a @_A' b;", "subpos @_A @_B 5;", "position @_A @_B 5;"])
    elif k == 6:
        t = r.choice(["", "", " ", "\t"])
    elif k == 7:
        t = r.choice(["# feature kern {", "# pos @_A @_B 1;", "#", "  # äöü €", "@_A = [a b];", "pos a 10;"])
    elif k == 8:
        t = r.choice(["languagesystem DFLT dflt;", "lookup x {", "x\x0cy \x0b z", "lookup pos {", "feature smcp;", "script latn;"])
    else:
        t = "".join(r.choice("ab @_#[]{};pos \t") for _ in range(r.randint(1, 14)))
        if "[" in t or "{" in t:
            t = "x" + t
    return t + r.choice(["", "", "", "", "# c", "#", " # x # y"])


def code(r):
    e = r.choice(["\n", "\r\n", "\r", None])
    out = ""
    for _ in range(r.choice([0, 1, 2, 4, 8, 12])):
        out += line(r) + (e or r.choice(["\n", "\r\n", "\r"]))
        if r.random() < 0.2:
            out += (e or "\n") * r.randint(1, 5)
    if out and r.random() < 0.4:
        out += line(r)
    return out


def fonts(rnd, n, texts=None):
    for k in range(n):
        m = rnd.choice([1, 1, 2, 4])
        g = FontGen(rnd, m)
        minimal = rnd.random() < 0.2
        gs = g.glyphs(rnd.choice([1, 3, 5]), attach=False, outlines=False)
        cl, fl = g.classes([x["v"]["name"] for x in gs], all_present=minimal)
        t = texts[k] if texts else (code(rnd) if rnd.random() < 0.9 else None)
        f = [{"k": "features", "v": t}] if t is not None else []
        if f and rnd.random() < 0.2:
            i = rnd.randint(0, len(cl))
            cl = cl[:i] + f + cl[i:]
        else:
            cl = rnd.choice([cl + f, f + cl])
        F = head(m) + (gs + cl + fl if rnd.random() < 0.3 else fl + cl + gs)
        yield event(F, minimal=minimal, move_groups=rnd.random() < 0.7, add_kerning_groups=rnd.random() < 0.4)


def main():
    c = Check("C19")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Features", "MC_Features_gen", timeout=3000)
    c.model("MC_Features", g)
    if c.thorough:
        c.model("MC_Features_thorough", tlc.check("MC_Features", "MC_Features_thorough", timeout=3000))
    T = ["".join(map(chr, t)) for t in tlc.printed(g["out"], "TEXT")]
    c.require(len(T) > 2000, "model texts")
    T = [t for t in T if c.thorough or rnd.random() < 0.5]
    judge(c, "texts of the model", list(fonts(rnd, len(T), T)))
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 1500)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C19", ev)
    c.judged(name, ev, bad, st)
