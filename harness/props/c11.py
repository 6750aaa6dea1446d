"""C11: masters and the designspace."""
import random

from props.c20 import table
from vlib import font, tlc
from vlib.fontgen import FontGen
from vlib.report import Check

AXES = ("Weight", "Width", "Optical Size", "Serif", "Slant", "Contrast")


def event(F, **o):
    r = font.convert(F, seconds=30, **o)
    ext = ".ufoz" if any(n.endswith(".ufoz") for n in r["names"]) else ".ufo"
    ufos = [n for n in r["names"] if n.endswith(ext)]
    us = []
    for u in r["ufos"]:
        us.append({k: u[k] for k in ("order", "guides", "groups", "kerning", "fea", "finfo", "problems", "glyphs", "bg")})
        us[-1]["defs"] = [x for x in u["fea"] if x.startswith("@")]
    ds = r["ds"]
    for d in ds:
        for k in ("sources", "instances"):
            for x in d[k]:
                x["loc"] = [place(a, v) for a, v in x["loc"]]
    return {"ok": bool(r["ok"]), "why": r["why"], "font": F, "atan": table(F), "names": ufos, "ds": ds, "ufos": us,
            "extra": [n for n in r["names"] if not n.endswith((ext, ".designspace"))],
            "opts": {"minimal": bool(o.get("minimal")), "move": o.get("move_groups", True),
                     "kern": o.get("add_kerning_groups", False), "pshints": o.get("pshints", True)}}


def place(axis, v):
    """["uservalue=5"] as [axis, "user", 5]."""
    if len(v) != 1:
        return [axis, "several", 0]
    k, n = v[0].split("=")
    return [axis, k[:-5], int(n) if n.lstrip("-").isdigit() else n]


def axes(rnd, m, n=None):
    """The records of the masters and axes."""
    n = n or rnd.choice([1, 1, 2, 3, 4])
    F = [{"k": "masters", "v": m}]
    k = rnd.choice([m, m, m, 0, rnd.randint(0, m)])
    F += [{"k": "mastername", "v": rnd.choice(["M%d", "Light %d", "m%d", "x"]).replace("%d", str(i))} for i in range(k)]
    locs = [{"k": "location", "v": {"index": i + 1, "loc": [rnd.choice([0, 1000, rnd.randint(0, 1000)]) for _ in range(4)]}}
            for i in range(m)]
    for x in locs:
        if rnd.random() < 0.2:
            x["v"]["f"] = [rnd.choice([0, 333, 500, rnd.randint(0, 999)]) for _ in range(4)]
    if rnd.random() < 0.3:
        rnd.shuffle(locs)
    ax = [{"k": "axiscount", "v": n}] + [{"k": "axis", "v": a} for a in rnd.sample(AXES, n)]
    if rnd.random() < 0.8:
        c = [rnd.choice([0, 1, 2, 2, 3, 10]) if i < n else 0 for i in range(4)]
        ax.append({"k": "mapcounts", "v": c})
        maps = [[rnd.choice([0, 100, rnd.randint(-200, 1000)]), rnd.choice([0, 1000, rnd.randint(0, 1000)])]
                for _ in range(40)]
        if rnd.random() < 0.3:
            maps = [x + [rnd.choice([0, 500, 250, 1]), rnd.choice([0, 333, 667, 499, 501, 999])] for x in maps]
        ax.append({"k": "maps", "v": maps})
    if rnd.random() < 0.5:
        F += ax + locs
    else:
        F += locs + ax
    if rnd.random() < 0.6:
        F.append({"k": "instances", "v": [
            {"name": rnd.choice(["Bold %d", "I%d", "Same"]).replace("%d", str(i)), "loc": [rnd.randint(-9999, 999999) for _ in range(4)]}
            for i in range(rnd.choice([0, 1, 3]))]})
    return F


def fonts(rnd, n):
    for k in range(n):
        m = rnd.choice([1, 2, 2, 2, 3, 4, 5, 8, 16])
        g = FontGen(rnd, m)
        h = axes(rnd, m)
        ps = [{"k": "psinfo", "v": g.psinfo()} for _ in range(m)] + g.psnums()
        gs = g.glyphs(rnd.choice([1, 2, 4]) if m < 9 else 2, comps="fine", hints=True, guides=True, kern=True)
        fg = g.guide_lists(2)
        rest = g.info(0.3) if rnd.random() < 0.3 else []
        rest = [x for x in rest if not x["k"].endswith("_num")]
        rest += [{"k": "guides", "v": fg}]
        cl = []
        if rnd.random() < 0.6:
            a, b = g.classes([x["v"]["name"] for x in gs if x["k"] == "glyph"], all_present=True)
            cl = a + b
        minimal = rnd.random() < 0.1
        yield event(h + ps + rest + gs + cl if rnd.random() < 0.5 else h + gs + ps + cl + rest,
                    minimal=minimal, pshints=rnd.random() < 0.8, move_groups=rnd.random() < 0.7)




def glyph(m):
    """A glyph with other values in every master."""
    g = {"name": "A", "adv": [[500 + i, i] for i in range(m)],
         "nodes": [{"t": t, "f": 0, "p": [[[10 * k + i, 7 * k * k - i]] for i in range(m)]}
                   for k, t in enumerate(["move", "line", "line"])],
         "hints": {"h": [[[i, 20 + i] for i in range(m)]], "v": [[[2 * i, 30] for i in range(m)]], "masks": []},
         "kern": [[0, [-i - 1 for i in range(m)]]]}
    return [{"k": "glyph", "v": g}, {"k": "gdef", "v": [{"name": "top", "x": 0, "y": 0}]},
            {"k": "anchorsmm", "v": [[[i, 3 * i] for i in range(m)]]}]


def psinfo(m):
    return [{"k": "psinfo", "v": {"ascender": 700 + i, "blue_values": [-i, i]}} for i in range(m)]


def main():
    c = Check("C11")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Designspace", "MC_Designspace_thorough" if c.thorough else "MC_Designspace_gen", timeout=3000)
    c.model("MC_Designspace", g)
    F = tlc.printed(g["out"], "FONT")
    c.require(len(F) > 2000, "model fonts")
    ev = []
    for f in rnd.sample(F, 12000 if c.thorough else 700):
        m = font.masters(f)
        ev.append(event(f + psinfo(m) + [{"k": "blue_values_num", "v": 2}] + glyph(m)))
    judge(c, "fonts of the model", ev)
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 700)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C11", ev)
    c.judged(name, ev, bad, st)
