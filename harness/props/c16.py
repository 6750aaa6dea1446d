"""C16: TrueType hints of the font."""
import random

from props.c15 import program
from vlib import tlc, tthints
from vlib.fontgen import FontGen, head
from vlib.report import Check

KEEP = ("masters", "stems", "stemppms", "stemppms1", "zones", "zonedeltas", "stemsnaplimit", "zoneppm", "codeppm", "dropoutppm",
        "cvt", "prep", "fpgm", "tti", "gasp")


def event(F, form=None, **o):
    r = tthints.run(F, form=form, **o)
    return {"ok": r["ok"], "why": r["why"], "font": [x for x in F if x["k"] in KEEP], "json": r["json"],
            "ufos": [tthints.fontlib(plain(u["lib"])) for u in r["ufos"]], "tth": r["tth"], "file": r["file"]}


def plain(x):
    """Undo the marking of the property list values."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x[0] == "t" if isinstance(x, list) and x in (["t"], ["f"]) else x


def fonts(rnd, n):
    for k in range(n):
        m = rnd.choice([1, 1, 1, 2, 4])
        g = FontGen(rnd, m)
        T = g.tthfont()
        if rnd.random() < 0.3:
            T.append({"k": "cvt", "v": [rnd.choice([0, rnd.randint(-3000, 3000)]) for _ in range(rnd.choice([0, 1, 5, 20]))]})
        for p in ("prep", "fpgm"):
            if rnd.random() < 0.3:
                T.append({"k": p, "v": program(rnd)})
        if rnd.random() < 0.4:
            T.insert(rnd.randint(0, len(T)), {"k": "tti", "v": g.tti()})
        if rnd.random() < 0.3:
            T.append({"k": "gasp", "v": [[x, rnd.randint(0, 15)] for x in sorted(rnd.sample([8, 9, 17, 50, 2048, 65535], rnd.choice([0, 1, 2, 4, 6])))]})
        yield event(head(m) + T + g.glyphs(1, attach=False), form=rnd.choice(tthints.FORMS), minimal=rnd.random() < 0.15)


def main():
    c = Check("C16")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_TTFont", "MC_TTFont_thorough" if c.thorough else "MC_TTFont_gen", timeout=3000)
    c.model("MC_TTFont", g)
    F = tlc.printed(g["out"], "FONT")
    c.require(len(F) > 1000, "model fonts")
    one = [{"k": "glyph", "v": {"name": "A", "nodes": [], "adv": [[500, 0]]}}]
    judge(c, "fonts of the model", [event(head(1) + f + one, form=rnd.choice(tthints.FORMS)) for f in rnd.sample(F, 12000 if c.thorough else 900)])
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 1200)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C16", ev)
    c.judged(name, ev, bad, st)
