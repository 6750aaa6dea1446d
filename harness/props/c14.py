"""C14: PostScript hints."""
import random

from vlib import font, guard, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check

KEEP = ("name", "nodes", "hints", "comps", "tth")


def resolve(raw, m, again):
    """The hint sets that the glyphs tell, for every master."""
    v = font.open_raw(raw)
    out = []
    for i in range(m):
        if again:
            v.compile()     # a saved font still tells them
        k = []
        for _, g in v.items():
            g.master_index = i
            k.append([[n, [[h[0][0], h[1], h[2]] if h[0] in ("hstem", "vstem") else [h[0], 0, 0] for h in hs]]
                      for n, hs in g.resolve_hint_sets().items()])
        out.append(k)
    return out


def event(F, told=0, **o):
    """told: 1: the glyphs are asked, too; 2: also after saving"""
    raw = font.encode(F)
    r = font.convert_raw(raw, seconds=60, **o)
    t = []
    if told:
        m = [x["v"] for x in F if x["k"] == "masters"][-1]
        x = guard.call(lambda: resolve(raw, m, told == 2), seconds=30)
        t = [{"ok": 1, "sets": x[1]} if x[0] == "ok" else {"ok": 0, "sets": [], "why": str(x[1:])[:300]}]
    keep = []
    for x in F:
        if x["k"] == "glyph":
            keep.append({"k": "glyph", "v": {k: v for k, v in x["v"].items() if k in KEEP}})
        elif x["k"] in ("links", "masters"):
            keep.append(x)
    return {"ok": bool(r["ok"]), "why": r["why"], "font": keep, "on": o.get("pshints", True), "told": t, "ufos": [
        {"order": u["order"], "glyphs": [
            {"name": g["name"], "ps": g["ps"], "lib": {k: 0 for k in g["lib"]},
             "contours": [[{"n": p["n"]} for p in c] for c in g["contours"]]} for g in u["glyphs"]]}
        for u in r["ufos"]]}


def fonts(rnd, n):
    for k in range(n):
        m = rnd.choice([1, 1, 1, 2, 4, 16])
        g = FontGen(rnd, m)
        F = head(m) + g.glyphs(rnd.choice([1, 1, 2, 3, 6]) if m < 9 else 2, comps=rnd.random() < 0.5, hints=True)
        yield event(F, rnd.choice([0, 1, 1, 2]), minimal=rnd.random() < 0.15, pshints=rnd.random() < 0.85)


def main():
    c = Check("C14")
    rnd = random.Random(c.seed)
    if c.thorough:
        c.model("MC_PSHints_thorough", tlc.check("MC_PSHints", "MC_PSHints_thorough", timeout=3000))
    g = tlc.check("MC_PSHints", "MC_PSHints_deep" if c.thorough else "MC_PSHints_gen", timeout=3000)
    c.model("MC_PSHints", g)
    F = tlc.printed(g["out"], "FONT")
    c.require(len(F) > 2000, "model fonts")
    judge(c, "fonts of the model", [event(head(1) + f, rnd.choice([0, 1, 1, 2])) for f in rnd.sample(F, 12000 if c.thorough else 1000)])
    for k in range(12 if c.thorough else 1):
        judge(c, "random fonts", list(fonts(rnd, 1500)))
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C14", ev)
    c.judged(name, ev, bad, st)
