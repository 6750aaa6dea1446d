"""C13: groups and kerning."""
import random

from vlib import font, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check


def event(F, **o):
    r = font.convert(F, seconds=30, **o)
    keep = []
    for x in F:
        if x["k"] == "glyph":
            keep.append({"k": "glyph", "v": {k: v for k, v in x["v"].items() if k in ("name", "kern")}})
        elif x["k"] in ("klass", "classflags", "masters"):
            keep.append(x)
    return {"ok": bool(r["ok"]), "why": r["why"], "font": keep,
            "opts": {"minimal": bool(o.get("minimal")), "move": o.get("move_groups", True),
                     "kern": o.get("add_kerning_groups", False)},
            "ufos": [{"order": u["order"], "groups": u["groups"], "kerning": u["kerning"], "fea": u["fea"],
                      "gorder": u["lib"].get("public.groupOrder", []),
                      "keys": [list(x) for x in u["lib"].get("com.lucasfonts.vfblib.groupKeyGlyphs", {}).items()],
                      "defs": [x for x in u["fea"] if x.startswith("@")]} for u in r["ufos"]]}


def fonts(rnd, n):
    for k in range(n):
        m = rnd.choice([1, 1, 1, 2, 3, 8])
        g = FontGen(rnd, m)
        minimal = rnd.random() < 0.2
        gs = g.glyphs(rnd.choice([2, 3, 5, 8]), attach=False, outlines=False, kern=True, dup=rnd.choice([0, 0, 0, 0.3]))
        if rnd.random() < 0.5:  # dense kerning
            for x in gs:
                x["v"]["kern"] = [[i, g.per(lambda: rnd.choice([0, 0, -10, 25]))] for i in range(len(gs)) if rnd.random() < 0.8]
        cl, fl = g.classes(list(dict.fromkeys(x["v"]["name"] for x in gs)), all_present=minimal)
        F = head(m) + (gs + cl + fl if rnd.random() < 0.3 else fl + cl + gs if rnd.random() < 0.5 else cl + fl + gs)
        yield event(F, minimal=minimal, move_groups=rnd.random() < 0.7, add_kerning_groups=rnd.random() < 0.3)


def main():
    c = Check("C13")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Kerning", "MC_Kerning_thorough" if c.thorough else "MC_Kerning_gen", timeout=3000)
    c.model("MC_Kerning", g)
    if c.thorough:
        c.model("MC_Kerning_deep", tlc.check("MC_Kerning", "MC_Kerning_deep", timeout=3000))
    F = tlc.printed(g["out"], "FONT")
    c.require(len(F) > 5000, "model fonts")
    judge(c, "fonts of the model", [event(head(1) + f) for f in rnd.sample(F, len(F) if c.thorough else 1200)])
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 1500)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C13", ev)
    c.judged(name, ev, bad, st)
