"""C15: TrueType instructions of glyphs."""
import random

from vlib import font, tlc, tthints
from vlib.fontgen import FontGen, head
from vlib.report import Check

KEEP = ("name", "nodes", "comps", "tth", "prog")


def event(F, form=None, **o):
    r = tthints.run(F, form=form, **o)
    keep = []
    for x in F:
        if x["k"] == "glyph":
            keep.append({"k": "glyph", "v": {k: v for k, v in x["v"].items() if k in KEEP}})
        elif x["k"] == "masters":
            keep.append(x)
    es = (r["json"] or [{"stems": [], "zones": []}])[0]
    return {"ok": r["ok"], "why": r["why"], "base64": bool(o.get("base64")), "font": keep, "stems": es["stems"], "zones": es["zones"],
            "ufos": [{"order": u["order"], "glyphs": [dict(tthints.glyph(g), hash=h) for g, h in zip(u["glyphs"], tthints.identify(u["glyphs"]))]} for u in r["ufos"]],
            "tth": r["tth"], "file": r["file"]}


CODES = [[0xB0, 5], [0xB1, 1, 2], [0xB8, 1, 44], [0x40, 3, 9, 8, 7], [0x41, 1, 0xFF, 0xF0], [0x2F], [0x3E], [0x4B],
         [0x58], [0x59], [0x1B], [0xC5], [0xE0], [0x00], [0x01]]


def program(rnd):
    """Instruction bytes, IF and ENDIF in pairs."""
    b = []
    for _ in range(rnd.choice([0, 1, 3, 8])):
        b += rnd.choice([c for c in CODES if c[0] not in (0x58, 0x59, 0x1B)])
        if rnd.random() < 0.2:
            b += [0x58] + rnd.choice(CODES[:5]) + [0x1B, 0xB0, 3, 0x59]
    return b


def fonts(rnd, n):
    for k in range(n):
        m = rnd.choice([1, 1, 1, 1, 2, 4])
        g = FontGen(rnd, m)
        T = g.tthfont(missing=0.1)
        gs = g.glyphs(rnd.choice([1, 2, 3, 6]), comps=rnd.random() < 0.5, hints=rnd.random() < 0.4)
        recs = [x["v"] for x in gs if x["k"] == "glyph"]
        for x in recs:
            if rnd.random() < 0.7:
                count = (sum(len(recs[c["gid"]]["nodes"]) for c in x["comps"]) if x.get("comps") else len(x["nodes"]))
                x["tth"] = g.tth(count, T)
            if rnd.random() < 0.15:
                x["prog"] = program(rnd)
        F = head(m) + T + gs
        yield event(F, form=rnd.choice(tthints.FORMS), minimal=rnd.random() < 0.15, pshints=rnd.random() < 0.7, base64=rnd.random() < 0.15)


def main():
    c = Check("C15")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_TTHints", "MC_TTHints_thorough" if c.thorough else "MC_TTHints_gen", timeout=3000)
    c.model("MC_TTHints", g)
    F = tlc.printed(g["out"], "FONT")
    c.require(len(F) > 1000, "model fonts")
    judge(c, "fonts of the model", [event(head(1) + f) for f in rnd.sample(F, 8000 if c.thorough else 500)])
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 900)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C15", ev)
    c.judged(name, ev, bad, st)
