"""C12: every glyph arrives once, with its own data."""
import random

from vlib import font, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check


def event(F, **opts):
    r = font.convert(F, seconds=30, **opts)
    return {"ok": bool(r["ok"]), "why": r["why"], "minimal": bool(opts.get("minimal")), "font": F, "ufos": [
        dict({k: u[k] for k in ("problems", "order", "glyphs", "bg")},
             data=[v for k, v in u["lib"].items() if k == "com.fontlab.v5.userData"], libkeys=sorted(u["lib"]),
             metrics=[[k] + v for k, v in u["lib"].get("com.fontlab.v5.metricsClassFlags", {}).items()])
        for u in r["ufos"]]}


def extras(rnd):
    """Data of the font that is kept in its lib."""
    if rnd.random() < 0.3:
        yield {"k": "customdata", "v": f"font data {rnd.randint(0, 99)}"}
    if rnd.random() < 0.3:
        yield {"k": "metricsflags", "v": [[f".m{i}", rnd.randint(0, 3000), rnd.randint(-100, 100), rnd.randint(0, 1)]
                                          for i in range(rnd.choice([1, 1, 2, 4]))]}


def main():
    c = Check("C12")
    rnd = random.Random(c.seed)
    c.model("MC_Assemble", tlc.check("MC_Assemble", "MC_Assemble_thorough" if c.thorough else "MC_Assemble", timeout=3000))
    g = tlc.check("MC_Assemble", "MC_Assemble_gen5" if c.thorough else "MC_Assemble_gen")
    c.model("MC_Assemble_gen", g)
    fonts = tlc.printed(g["out"], "FONT")
    c.require(len(fonts) > 1000, "model fonts")
    judge(c, "fonts of the model", [event(head(1) + F) for F in fonts])
    for n in range(10 if c.thorough else 1):
        ev = []
        for k in range(1200):
            m = rnd.choice([1, 1, 1, 2, 4, 16])
            g = FontGen(rnd, m)
            F = head(m) + g.glyphs(rnd.choice([1, 2, 3, 5, 9]) if m < 9 else 2, dup=rnd.choice([0, 0, 0.3, 0.7]),
                                   empty=rnd.choice([0, 0, 0, 0.2]), comps="fine", guides=True, kern=True)
            for x in extras(rnd):
                F.insert(rnd.randint(0, len(F)) if x["k"] == "metricsflags" else len(head(m)), x)
            ev.append(event(F, minimal=rnd.random() < 0.15, pshints=rnd.random() < 0.8))
        many = FontGen(rnd, 1)
        ev.append(event(head(1) + [{"k": "glyph", "v": {"name": "a", "nodes": [], "adv": [[i, 0]]}} for i in range(300)]))
        ev.append(event(head(1) + many.glyphs(150, dup=0.1, comps="fine")))
        judge(c, "random fonts", ev)
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C12", ev)
    c.judged(name, ev, bad, st)
