"""C17: font info."""
import random

from vlib import font, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check

SKIP = ("glyph", "mastername", "location", "axiscount", "axis", "mapcounts", "maps")


def event(F, **o):
    r = font.convert(F, seconds=30, **o)
    return {"ok": bool(r["ok"]), "why": r["why"], "font": [x for x in F if x["k"] not in SKIP],
            "minimal": bool(o.get("minimal")), "pshints": o.get("pshints", True), "ufos": [u["finfo"] for u in r["ufos"]]}


def fonts(rnd, n):
    for k in range(n):
        m = rnd.choice([1, 1, 1, 2, 4, 16])
        g = FontGen(rnd, m)
        info = g.info(rnd.choice([0, 0.1, 0.5, 0.9]))
        gl = g.glyphs(1, attach=False)
        i = rnd.choice([0, len(info), rnd.randint(0, len(info))])
        h = head(m, psinfo=[{"k": "psinfo", "v": g.psinfo()} for _ in range(m)])
        F = rnd.choice([h + info + gl, info + h + gl, info[:i] + h + gl + info[i:]])
        yield event(F, minimal=rnd.random() < 0.15, pshints=rnd.random() < 0.8)


def main():
    c = Check("C17")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Info", "MC_Info_thorough" if c.thorough else "MC_Info_gen", timeout=3000)
    c.model("MC_Info", g)
    F = tlc.printed(g["out"], "FONT")
    c.require(len(F) > 5000, "model fonts")
    one = [{"k": "glyph", "v": {"name": "A", "nodes": [], "adv": [[500, 0]]}}]
    judge(c, "fonts of the model", [event(head(1) + f + one) for f in rnd.sample(F, 15000 if c.thorough else 700)])
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 1200)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C17", ev)
    c.judged(name, ev, bad, st)
