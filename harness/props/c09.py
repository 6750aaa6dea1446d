"""C09: outlines become contours point for point."""
import random

from vlib import corpus, font, tlc
from vlib.report import Check


def head(m):
    F = [{"k": "masters", "v": m}] + [{"k": "mastername", "v": f"M{i}"} for i in range(m)]
    F += [{"k": "location", "v": {"index": i + 1, "loc": [1000 * i, 0, 0, 0]}} for i in range(m)]
    if m > 1:
        F += [{"k": "axiscount", "v": 1}, {"k": "axis", "v": "Weight"}, {"k": "mapcounts", "v": [2, 0, 0, 0]},
              {"k": "maps", "v": [[0, 0], [1000, 1000]] + [[0, 0]] * 38}]
    return F + [{"k": "psinfo", "v": {}}] * m


def rnd_nodes(rnd, m, n, big=False, no_offs=False):
    """A random outline: contours of all segment types, with coinciding points."""
    out = []
    lim = 16000 if big else 40
    pool = [[[rnd.randint(-lim, lim), rnd.randint(-lim, lim)] for _ in range(3)] for _ in range(m)]

    def pt(reuse=0.4):
        if out and rnd.random() < reuse:
            start = [i for i, x in enumerate(out) if x["t"] == "move"][-1]
            k = rnd.choice([start, start, rnd.randrange(len(out))])
            p = [list(out[k]["p"][j][0]) for j in range(m)]
            if m > 1 and rnd.random() < 0.25:  # coincides in some masters only
                j = rnd.randrange(m)
                p[j] = list(rnd.choice(pool[j]))
            return p
        return [list(rnd.choice(pool[j])) if rnd.random() < 0.5 else [rnd.randint(-lim, lim), rnd.randint(-lim, lim)]
                for j in range(m)]
    q = opened = False
    for i in range(n):
        dangling = q and opened  # an open contour cannot end like this
        t = "move" if not out else rnd.choices(["move", "line", "curve", "qcurve"],
                                               [not dangling, 3, 0 if q else 3, 0 if no_offs else 2])[0]
        if opened and t == "qcurve" and i == n - 1:
            t = "line"
        f = rnd.choice([0, 0, 1]) | rnd.choice([0, 0, 0, 2, 4, 6]) | (8 if t == "move" and rnd.random() < 0.3 else 0)
        if t == "curve":
            a, b, c = pt(), pt(0.2), pt(0.2)
            p = [[a[j], b[j], c[j]] for j in range(m)]
        else:
            p = [[x] for x in pt()]
        q = t == "qcurve"
        if t == "move":
            opened = bool(f & 8)
        out.append({"t": t, "f": f, "p": p})
    return out


def run(outlines, m):
    """Events for the outlines [(nodes, mask nodes)] of one font with m masters."""
    F = head(m)
    for i, (n, k) in enumerate(outlines):
        F.append({"k": "glyph", "v": {"name": f"g{i:05}", "nodes": n, "adv": [[500 + i, 0]] * m}})
        if k:
            F.append({"k": "mask", "v": {"nodes": k}})
    r = font.convert(F, seconds=200)
    ev = []
    for i, (n, k) in enumerate(outlines):
        e = {"ok": bool(r["ok"]), "why": r["why"], "nodes": n, "mask": k, "out": [], "bg": []}
        if r["ok"]:
            for u in r["ufos"]:
                e["out"].append(by(u, "glyphs").get(f"g{i:05}", {"contours": [["lost"]]})["contours"])
                e["bg"].append(by(u, "bg").get(f"g{i:05}", {"contours": []})["contours"])
        ev.append(e)
    return ev


def by(u, k):
    d = u.setdefault("_" + k, {})
    if not d:
        d.update({g["name"]: g for g in u[k]})
    return d


def from_corpus():
    """The outlines of the fonts in the repository, as its own decoder reads them."""
    ev = []
    from vlib import build
    for path in corpus.files():
        v = build.read(open(path, "rb").read())
        v.decompile()
        names, nodes = [], {}
        for x in v.entries:
            if x.key == "Glyph" and isinstance(x.data, dict):
                d = x.data
                names.append(d["name"])
                nodes[d["name"]] = [{"t": n["type"], "f": n["flags"], "p": [[list(q) for q in p] for p in n["points"]]}
                                    for n in d.get("nodes", [])]
        r = font.convert_raw(open(path, "rb").read(), seconds=120)
        for n in names:
            if names.count(n) == 1 and (not nodes[n] or nodes[n][0]["t"] == "move"):
                ev.append({"ok": bool(r["ok"]), "why": r["why"], "nodes": nodes[n], "mask": [], "bg": [],
                           "out": [by(u, "glyphs").get(n, {"contours": [["lost"]]})["contours"] for u in r["ufos"]]
                           if nodes[n] else [[]]})
    return ev


def main():
    c = Check("C09")
    rnd = random.Random(c.seed)
    c.model("MC_Outline", tlc.check("MC_Outline", "MC_Outline_thorough" if c.thorough else "MC_Outline"))
    g = tlc.check("MC_Outline", "MC_Outline_gen4" if c.thorough else "MC_Outline_gen")
    c.model("MC_Outline_gen", g)
    outs = tlc.printed(g["out"], "OUTLINE")
    c.require(len(outs) > 1000, "model outlines")
    if c.thorough:
        rnd.shuffle(outs)
        outs = outs[:40000]
    ev = []
    for i in range(0, len(outs), 700):
        ev += run([(n, rnd.choice(outs) if rnd.random() < 0.1 else []) for n in outs[i:i + 700]], 2)
    one = lambda n: [{**x, "p": x["p"][:1]} for x in n]  # noqa: E731
    sub = rnd.sample(outs, min(len(outs), 1500))
    for i in range(0, len(sub), 750):
        ev += run([(one(n), one(rnd.choice(sub)) if rnd.random() < 0.1 else []) for n in sub[i:i + 750]], 1)
    judge(c, "outlines of the model", ev)
    ev = []
    for k in range(150 if c.thorough else 16):
        m = [1, 2, 1, 3, 4, 1, 8, 16][k % 8]
        ev += run([(rnd_nodes(rnd, m, rnd.choice([1, 2, 3, 5, 9, 30]), rnd.random() < 0.3),
                    rnd_nodes(rnd, m, rnd.randint(1, 9)) if rnd.random() < 0.2 else [])
                   for _ in range(60 // m + 4)], m)
    judge(c, "random outlines", ev)
    judge(c, "outlines of the corpus", from_corpus())
    c.finish()


def judge(c, name, ev):
    groups = [{"batch": ev[i:i + 10]} for i in range(0, len(ev), 10)]
    bad, st = tlc.judge("C09", groups)
    c.judged(name, groups, bad, st)
    c.traces += len(ev) - len(groups)


if __name__ == "__main__":
    main()
