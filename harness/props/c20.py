"""C20: guides."""
import math
import random

from vlib import build, corpus, font, guard, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check


def table(F):
    """The arc tangents of all slopes: [slope * 10000, micro-degrees]."""
    ts = set()
    for r in F:
        g = r["v"] if r["k"] == "guides" else r["v"].get("guides") if r["k"] == "glyph" else None
        if g:
            ts |= {p[1] for d in "hv" for per in g[d] for p in per}
    return [[t, atan(t)] for t in sorted(ts)]


def atan(t):
    return round(math.degrees(math.atan2(t, 10000)) * 10**6)


def event(F, **opts):
    r = font.convert(F, seconds=30, **opts)
    F2 = [x if x["k"] != "glyph" else {"k": "glyph", "v": {k: v for k, v in x["v"].items() if k in ("name", "guides")}}
          for x in F if x["k"] in ("glyph", "guides", "guideprops", "gguideprops", "masters")]
    return {"kind": "convert", "ok": bool(r["ok"]), "why": r["why"], "minimal": bool(opts.get("minimal")), "font": F2,
            "atan": table(F),
            "ufos": [{"order": u["order"], "guides": u["guides"],
                      "glyphs": [{"name": g["name"], "guides": g["guides"]} for g in u["glyphs"]]} for u in r["ufos"]]}


def recode(g, m, glyph):
    """Decode and encode again the guides of a font or a glyph with m masters."""
    F = head(m)
    if glyph:
        F.append({"k": "glyph", "v": {"name": "a", "nodes": [], "adv": [[1, 2]] * m, "guides": g}})
    else:
        F.append({"k": "guides", "v": g})
    raw = font.encode(F)
    eid = 2001 if glyph else 1294

    def run():
        v = build.read(raw)
        v.decompile()
        x = [e for e in v.entries if e.id == eid][0]
        d = x.data["guides"] if glyph else x.data
        pos = [[[p["pos"] for p in per] for per in d[k]] for k in "hv"]
        ang = [[[round(p["angle"] * 10**6) for p in per] for per in d[k]] for k in "hv"]
        v.compile()
        return pos, ang, build.write(v)
    r = guard.call(run)
    before = [d for _, i, d in corpus.raw_entries(raw) if i == eid][0]
    if r[0] != "ok":
        return {"kind": "recode", "g": g, "atan": [], "positions": [], "angles": [], "why": str(r[1:]),
                "before": list(before), "after": []}
    after = [d for _, i, d in corpus.raw_entries(r[1][2]) if i == eid][0]
    ts = sorted({p[1] for d in "hv" for per in g[d] for p in per})
    return {"kind": "recode", "g": g, "atan": [[t, atan(t)] for t in ts], "positions": r[1][0], "angles": r[1][1],
            "before": list(before), "after": list(after)}


def main():
    c = Check("C20")
    rnd = random.Random(c.seed)
    ev = []
    for k in range(4000 if c.thorough else 700):
        m = rnd.choice([1, 1, 2, 3, 4, 16])
        g = FontGen(rnd, m)
        F = head(m)
        gd = []
        if rnd.random() < 0.7:
            fg = g.guide_lists(rnd.choice([1, 3, 6]))
            gd = [{"k": "guides", "v": fg}]
            if rnd.random() < 0.7:
                gd.append({"k": "guideprops", "v": g.guide_props(fg)})
                if rnd.random() < 0.2:
                    gd.reverse()
        gs = []
        for i, n in enumerate(g.names(rnd.choice([1, 2, 4]))):
            v = {"name": n, "nodes": [], "adv": g.adv()}
            gs.append({"k": "glyph", "v": v})
            if rnd.random() < 0.7:
                v["guides"] = g.guide_lists(rnd.choice([1, 3]))
                if rnd.random() < 0.7:
                    gs.append({"k": "gguideprops", "v": g.guide_props(v["guides"])})
        F += gd + gs if rnd.random() < 0.5 else gs + gd
        ev.append(event(F, minimal=rnd.random() < 0.1))
    bad, st = tlc.judge("C20", ev)
    c.judged("converted fonts", ev, bad, st)
    ev = []
    slopes = list(range(-60000, 60001, 7 if c.thorough else 97)) + [x * 10**k + d for k in range(4, 10) for x in (1, -1, 2, -2)
                                                                   for d in (-1, 0, 1) if abs(x * 10**k) < 2**31 - 2]
    slopes += [rnd.randint(-2**31, 2**31 - 1) for _ in range(400)]
    step = 40
    for i in range(0, len(slopes), step):
        m = rnd.choice([1, 2, 4])
        per = [[[rnd.randint(-2000, 2000) if rnd.random() < 0.9 else rnd.randint(-2**31, 2**31 - 1), t]
                for t in (x, x, -x if x > -2**31 else x, x)[:m]] for x in slopes[i:i + step]]
        n = rnd.randint(0, len(per))
        ev.append(recode({"h": per[:n], "v": per[n:]}, m, rnd.random() < 0.5))
    bad, st = tlc.judge("C20", ev)
    c.judged("encoded again", ev, bad, st)
    c.finish()
