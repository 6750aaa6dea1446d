"""C10: drawing out of and into glyphs."""
import copy
import io
import json
import random

from vlib import build, corpus, font, guard, tlc
from vlib.report import Check
from .c09 import head, rnd_nodes

OUTS = ("seg", "points", "direct", "master")


# ------------------------------------------------------------ what pens receive

def milli(v):
    """A drawn number in thousandths, or something no number of the specification equals."""
    try:
        n = round(v * 1000)
        return n if abs(n - v * 1000) < 1e-6 * max(1, abs(n)) and abs(n) < 2**31 else 2**31 - 1
    except (TypeError, ValueError, OverflowError):
        return 2**31 - 1


def whole(v):
    n = milli(v)
    return n // 1000 if n % 1000 == 0 else 2**31 - 1


def comp_out(name, t):
    return [name] + [milli(x) for x in t]


class Points:
    """A point pen that writes down what it is told."""

    def __init__(self):
        self.cs, self.comps, self.cur = [], [], None

    def beginPath(self, identifier=None, **k):
        assert self.cur is None
        self.cur = []

    def endPath(self):
        self.cs.append(self.cur)
        self.cur = None

    def addPoint(self, pt, segmentType=None, smooth=False, name=None, identifier=None, **k):
        x, y = pt
        self.cur.append({"x": whole(x), "y": whole(y), "t": segmentType or "off", "s": 1 if smooth else 0})

    def addComponent(self, baseGlyphName, transformation, identifier=None, **k):
        assert self.cur is None
        self.comps.append(comp_out(baseGlyphName, transformation))


class Segments:
    def __init__(self):
        self.cs, self.comps, self.cur = [], [], []

    def say(self, op, *pts):
        self.cur.append([op, [[whole(x), whole(y)] for x, y in pts]])

    def moveTo(self, pt):
        if self.cur:
            self.cs.append(self.cur)
        self.cur = []
        self.say("moveTo", pt)

    def lineTo(self, pt):
        self.say("lineTo", pt)

    def curveTo(self, *pts):
        self.say("curveTo", *pts)

    def qCurveTo(self, *pts):
        self.say("qCurveTo", *pts)

    def _end(self, op):
        self.say(op)
        self.cs.append(self.cur)
        self.cur = []

    def closePath(self):
        self._end("closePath")

    def endPath(self):
        self._end("endPath")

    def addComponent(self, glyphName, transformation):
        self.comps.append(comp_out(glyphName, transformation))

    def rest(self):
        if self.cur:
            self.cs.append(self.cur)
        self.cur = []


# ------------------------------------------------------------ the real font

class Session:
    def __init__(self, raw, names, rnd, fresh=()):
        self.raw, self.names, self.rnd = raw, names, rnd
        self.v = font.open_raw(raw)
        self.kept = {}
        for n in fresh:
            self.fresh(n)

    def fresh(self, name):
        """A new glyph at the end of the glyphs."""
        from vfbLib.enum import G
        from vfbLib.vfb.entry import VfbEntry
        from vfbLib.vfb.glyph import VfbGlyph
        e = VfbEntry(self.v, eid=int(G.Glyph))
        VfbGlyph(e, self.v)
        e.data["name"] = name
        at = [i for i, x in enumerate(self.v.entries) if x.id == e.id]
        self.v.entries.insert(at[-1] + 1, e)

    def glyph(self, i):
        return self.keep(("g", i), lambda: self.v[self.names[i - 1]])

    def master(self, i, m):
        n = self.names[i - 1]

        def get():
            k = self.rnd.randrange(4)
            if k == 0:
                return self.v.get_masters()[m - 1][n]
            if k == 1:
                return dict(self.v.get_masters()[m - 1].items())[n]
            return self.v.getGlyphMaster(n, m - 1)
        return self.keep(("m", i, m), get)

    def keep(self, key, get):
        """The objects are kept, or asked for again."""
        if key not in self.kept or self.rnd.random() < 0.5:
            self.kept[key] = get()
        return self.kept[key]

    def run(self, s):
        s = dict(s)
        r = guard.call(lambda: getattr(self, s["op"])(s), seconds=60)
        s["ok"] = r[0] == "ok"
        if r[0] == "ok":
            s.update(r[1] or {})
        else:
            s["why"] = " ".join(str(x) for x in r[1:])
            s.setdefault("cs", [])
            s.setdefault("comps", [])
        return s

    def save(self, s):
        b = io.BytesIO()
        if s["how"] == "compile":
            self.v.compile()
            return
        self.v.write_bytes(b)
        if s["how"] == "reopen":
            self.v = build.read(b.getvalue(), drop_keys=self.v.drop_keys)
            self.kept = {}

    def shift(self, s):
        g = self.v[self.names[s["g"] - 1]]
        len(g)  # (reading it: what was drawn has its place)
        d = g.entry.data
        for n in d.get("nodes", []):
            p = n["points"][s["m"] - 1]
            n["points"][s["m"] - 1] = [(x + s["dx"], y + s["dy"]) for x, y in p]

    def empty(self, s):
        n = self.names[s["g"] - 1]
        g = self.rnd.choice([self.glyph(s["g"]), self.v[n]])
        len(g)  # (what was drawn has its place)
        g.empty()
        g.entry.data["name"] = n

    def look(self, s):
        v = self.v
        before = font_says(v)
        k = self.rnd.randrange(6)    # the first look may be any of them
        first = []
        if k == 0:
            "no such glyph" in v
        elif k > 3:
            x = v if k == 4 else self.rnd.choice(v.get_masters())
            first = [[n, int(n in x)] for n in self.rnd.sample(self.names, 1) + ["no such glyph"]]
        elif k == 1:
            v[self.names[-1]]
        elif k == 2:
            list(v.items())
        keys = [str(x) for x in v.keys()]
        ms = self.rnd.choice([[], v.get_masters()])
        items = list(v.items())
        for m in ms:
            keys = [str(x) for x in m.keys()]
            its = list(m.items())
            if [x for x, _ in its] != [x for x, _ in items]:
                items = its
        some = self.rnd.sample(self.names, min(3, len(self.names))) + ["no such glyph", ""]
        has = first + [[n, int(n in (self.rnd.choice(ms) if ms else v))] for n in some]
        gs = [g for _, g in items] if self.rnd.random() < 0.5 else [v[n] for n in self.names]
        lens = [len(g) for g in gs]
        own = [g.name for g in gs]
        order = [str(x) for x in self.rnd.choice([v] + ms).glyph_order]
        if order != keys or any(x.num_masters != v.num_masters for x in ms):
            keys = ["order"] + order
        try:
            v["no such glyph"]
            miss = False
        except KeyError:
            miss = True
        return {"keys": keys, "items": [n for n, _ in items], "has": has, "miss": miss, "lens": lens, "own": own,
                "same": font_says(v) == before}

    def out(self, s):
        m = s["m"] - 1
        pen = Segments() if s["via"] == "seg" else Points()
        if s["via"] == "master":
            self.master(s["g"], s["m"]).drawPoints(pen)
        else:
            g = self.glyph(s["g"])
            g.master_index = self.v.master_index = m
            try:
                {"seg": g.draw, "points": g.drawPoints, "direct": g.drawPointsDirect}[s["via"]](pen)
            finally:
                g.master_index = self.v.master_index = 0
            if s["via"] == "seg":
                pen.rest()
        return {"cs": pen.cs, "comps": pen.comps}

    def do_in(self, s):
        def flt(v):
            return v // 1000 if v % 1000 == 0 and self.rnd.random() < 0.8 else v / 1000
        m = s["m"]
        own = self.rnd.random() < 0.4 and not (s["clear"] and m > 1)
        g = self.glyph(s["g"]) if own else self.master(s["g"], m)
        if own:
            g.master_index = m - 1
        try:
            if s["clear"]:
                g.clearContours()
            pen = None
            for c in s["cs"]:
                if pen is None or self.rnd.random() < 0.3:
                    pen = g.getPen() if s["via"] == "seg" else g.getPointPen()
                if s["via"] == "seg":
                    for op, pts in c:
                        getattr(pen, op)(*[(flt(x), flt(y)) for x, y in pts])
                else:
                    pen.beginPath()
                    for q in c:
                        pen.addPoint((flt(q["x"]), flt(q["y"])), None if q["t"] == "off" else q["t"], bool(q["s"]))
                    pen.endPath()
            for k in s["comps"]:
                if pen is None or self.rnd.random() < 0.3:
                    pen = g.getPen() if s["via"] == "seg" else g.getPointPen()
                pen.addComponent(k["b"], (k["sx"] / 1000, k["xy"] / 1000, k["yx"] / 1000, k["sy"] / 1000, flt(k["x"]), flt(k["y"])))
        finally:
            if own:
                g.master_index = 0


setattr(Session, "in", Session.do_in)


def font_says(v):
    """The meaning of a font: as it is when everything is decompiled and drawn."""
    w = copy.deepcopy(v)
    w.decompile()
    for e in w.entries:
        e.merge_masters_data()
    return json.dumps(w.as_dict(), sort_keys=True, default=repr)


def play(raw, m, names, glyphs, steps, rnd, fresh=()):
    e = {"ok": True, "why": "", "m": m, "names": names, "glyphs": glyphs, "steps": []}
    r = guard.call(lambda: Session(raw, names, rnd, fresh), seconds=60)
    if r[0] != "ok":
        return dict(e, ok=False, why=" ".join(str(x) for x in r[1:]))
    for s in steps:
        e["steps"].append(r[1].run(s))
    return e


# ------------------------------------------------------------ histories

def encode(m, names, glyphs):
    F = head(m)
    for n, g in zip(names, glyphs):
        v = {"name": n, "nodes": g["nodes"], "adv": [[500, 0]] * m}
        if g["comps"]:
            v["comps"] = [{"gid": names.index(k["b"]), "m": list(map(list, zip(k["x"], k["y"], k["sx"], k["sy"])))} for k in g["comps"]]
        F.append({"k": "glyph", "v": v})
    return font.encode(F)


def outs(rnd, i, m, vias=OUTS):
    return [{"op": "out", "g": i, "m": k, "via": v} for k in range(1, m + 1) for v in vias]


def from_model(rnd, hists, m=2):
    """Many histories of single glyphs in one font, interleaved."""
    names = [f"g{i:04}" for i in range(len(hists))]
    glyphs = [{"nodes": [], "comps": []} for _ in hists]
    queues = [[dict(s, g=i + 1) for s in h] for i, h in enumerate(hists)]
    steps = []
    while any(queues):
        q = rnd.choice([q for q in queues if q])
        s = q.pop(0)
        if s["op"] == "in":
            s = {"op": "in", "g": s["g"], "m": s["m"], "clear": s["clear"], "via": "points", "cs": s["c"], "comps": []}
        elif s["op"] == "out":
            s = {"op": "out", "g": s["g"], "m": s["m"], "via": rnd.choice(OUTS)}
        else:
            s = {"op": "save", "how": rnd.choice(["compile", "write", "reopen"])}
        steps.append(s)
    for i in range(len(hists)):
        steps += rnd.sample(outs(rnd, i + 1, m), 3)
    steps.append({"op": "save", "how": "reopen"})
    for i in range(len(hists)):
        steps += rnd.sample(outs(rnd, i + 1, m), 2)
    return play(encode(m, names, glyphs), m, names, glyphs, steps, rnd)


def number(rnd, lim=900):
    n = rnd.randint(-lim, lim) * 1000
    return n if rnd.random() < 0.7 else n + rnd.choice([1, 250, 499, 501, 750, 999])


def shape(rnd):
    """Types and smooth flags of a contour."""
    opened = rnd.random() < 0.3
    if opened and rnd.random() < 0.15:
        return [["move", rnd.choice([0, 0, 1])]]     # a single point
    ts = []
    for _ in range(rnd.choice([1, 1, 2, 3, 5])):
        t = rnd.choice(["line", "line", "curve", "qcurve"])
        ts += {"line": ["line"], "curve": ["off", "off", "curve"]}.get(t) or ["off"] * rnd.choice([1, 2, 4]) + ["qcurve"]
    if opened:
        ts = ["move"] + ts
    elif rnd.random() < 0.15:
        ts = ["off"] * rnd.choice([1, 2, 4])
    else:
        k = rnd.randrange(len(ts))
        ts = ts[k:] + ts[:k]
    return [[t, int(t != "off" and rnd.random() < 0.4)] for t in ts]


def guessed(rnd, sh):
    """Smooth flags count in the first master."""
    return [[t, int(t != "off" and rnd.random() < 0.5)] for t, _ in sh] if rnd.random() < 0.2 else sh


def filled(rnd, sh):
    """A contour of this shape; its on-curve points differ."""
    off = all(t == "off" for t, _ in sh)
    seen = set()
    out = []
    for t, s in sh:
        while True:
            # (the halves between two points are never in the middle of two units)
            q = tuple(rnd.randint(-300, 300) * 2000 + rnd.choice([0, 0, 600]) for _ in "xy") if off else (number(rnd), number(rnd))
            k = tuple((v + 500) // 1000 for v in q)
            if k not in seen:
                break
        seen.add(k)
        out.append({"x": q[0], "y": q[1], "t": t, "s": s})
    return out


def commands(c):
    """The contour, starting in its first on-curve point, as segment commands."""
    on = [i for i, q in enumerate(c) if q["t"] != "off"]
    at = lambda q: [q["x"], q["y"]]  # noqa: E731
    if c[0]["t"] != "move":
        c = c[on[0]:] + c[:on[0]]
    out = [["moveTo", [at(c[0])]]]
    offs = []
    for q in c[1:] + ([] if c[0]["t"] == "move" else [c[0]]):
        if q["t"] == "off":
            offs.append(at(q))
        else:
            out.append([{"line": "lineTo", "curve": "curveTo", "qcurve": "qCurveTo"}[q["t"]], offs + [at(q)]])
            offs = []
    if c[0]["t"] != "move" and out[-1][0] == "lineTo" and len(out) > 2:
        out.pop()  # closing lines are implied
    return out + [["endPath" if c[0]["t"] == "move" else "closePath", []]]


def comp(rnd, names, sh=None):
    k = {"b": sh or rnd.choice(names), "x": number(rnd), "y": number(rnd),
         "sx": rnd.choice([1000, 1000, -1000, 500, 1333, 125]), "sy": rnd.choice([1000, 1000, -1000, 750, 2000]),
         "xy": 0, "yx": 0}
    return k


def rnd_history(rnd, m, n):
    names = rnd.sample(["A", "B", "C", "a.alt", "zero", "f_i", "x", "D", "E"], rnd.choice([1, 2, 4, 6]))
    glyphs, tidy = [], []
    for _ in names:
        # (drawing only into a further master needs nodes which pens can tell apart)
        tidy.append(rnd.random() < 0.5)
        if tidy[-1]:
            nodes = []
            for _ in range(rnd.choice([0, 1, 2])):
                nodes += tidy_nodes(rnd, m)
        else:
            nodes = rnd_nodes(rnd, m, rnd.choice([1, 3, 6, 12])) if rnd.random() < 0.8 else []
        comps = [{"b": rnd.choice(names), "x": [rnd.randint(-200, 200) for _ in range(m)], "y": [rnd.randint(-200, 200) for _ in range(m)],
                  "sx": [rnd.choice([1000, 500, -1000]) for _ in range(m)], "sy": [rnd.choice([1000, 750]) for _ in range(m)]}
                 for _ in range(rnd.choice([0, 0, 1, 2]))]
        glyphs.append({"nodes": nodes, "comps": comps})
    fresh = []
    if len(names) > 1 and rnd.random() < 0.25 and not any(k["b"] == names[-1] for g in glyphs for k in g["comps"]):
        glyphs[-1] = {"nodes": [], "comps": []}
        fresh = [names[-1]]
    shapes = [[] for _ in names]     # what master 1 has drawn, when all of it is known
    known = [not g["nodes"] for g in glyphs]
    steps = []
    for _ in range(n):
        i = rnd.randrange(len(names))
        op = rnd.choices(["look", "out", "shift", "save", "round", "refuse", "copy", "seg", "empty"],
                         [1, 4, 1, 1, 5, 0.5, 1, 0.7, 0.4])[0]
        if op == "look":
            steps.append({"op": "look"})
        elif op == "out":
            steps += rnd.sample(outs(rnd, i + 1, m), rnd.choice([1, 2, 3]))
        elif op == "shift":
            steps.append({"op": "shift", "g": i + 1, "m": rnd.randint(1, m), "dx": rnd.randint(-50, 50), "dy": rnd.randint(-50, 50)})
        elif op == "save":
            steps.append({"op": "save", "how": rnd.choice(["compile", "write", "reopen"])})
        elif op == "seg":
            sh = [s for s in (shape(rnd) for _ in range(2)) if any(t != "off" for t, _ in s) and len([t for t, _ in s if t != "off"]) > 1]
            bases = [rnd.choice(names)] if rnd.random() < 0.3 else []
            for k in [1] + rnd.sample(range(2, m + 1), rnd.randint(0, m - 1)):
                steps.append({"op": "in", "g": i + 1, "m": k, "clear": 0, "via": "seg", "cs": [commands(filled(rnd, s)) for s in sh],
                              "comps": [comp(rnd, names, b) for b in bases]})
            known[i] = False
        elif op == "empty":
            steps.append({"op": "empty", "g": i + 1})
            shapes[i], known[i] = [], True
        elif op == "refuse":
            k = comp(rnd, names)
            k.update(rnd.choice([{"b": "no such glyph"}, {"xy": 250}, {"yx": -1000}]))
            steps.append({"op": "in", "g": i + 1, "m": 1, "clear": 0, "via": "points", "cs": [], "comps": [k]})
        elif op == "copy" and tidy[i] and m > 1 and known[i] is False and not any(s.get("g") == i + 1 and s["op"] == "in" for s in steps):
            # the glyph as it came from the file, in another master only
            k = rnd.randint(2, m)
            steps.append({"op": "in", "g": i + 1, "m": k, "clear": rnd.choice([0, 1]), "via": "points",
                          "cs": [filled(rnd, s) for s in node_shapes(glyphs[i]["nodes"])], "comps": []})
        elif op == "round":
            new = [shape(rnd) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
            bases = [rnd.choice(names) for _ in range(rnd.choice([0, 0, 0, 1, 2]))]
            cl = rnd.choice([0, 1])
            if cl:
                shapes[i], known[i] = [], True
            shapes[i] = shapes[i] + new
            if cl and m > 1:  # what was drawn into further masters is finished
                steps.append({"op": "out", "g": i + 1, "m": rnd.randint(1, m), "via": rnd.choice(OUTS)})
            order = [1] + rnd.sample(range(2, m + 1), rnd.randint(0, m - 1))
            for k in order:
                clk = cl if k == 1 else (rnd.choice([0, 1]) if cl else 0)
                steps.append({"op": "in", "g": i + 1, "m": k, "clear": clk, "via": "points",
                              "cs": [filled(rnd, s if k == 1 else guessed(rnd, s)) for s in new], "comps": [comp(rnd, names, b) for b in bases]})
                if k > 1 and rnd.random() < 0.3:
                    steps += rnd.sample(outs(rnd, i + 1, m), 2)
            if known[i] and m > 1 and rnd.random() < 0.3:
                k = rnd.randint(2, m)
                steps.append({"op": "in", "g": i + 1, "m": k, "clear": 1, "via": "points",
                              "cs": [filled(rnd, s) for s in shapes[i]], "comps": []})
    for i in range(len(names)):
        steps += rnd.sample(outs(rnd, i + 1, m), min(4, 4 * m))
    steps.append({"op": "save", "how": "reopen"})
    steps.append({"op": "look"})
    for i in range(len(names)):
        steps += rnd.sample(outs(rnd, i + 1, m), min(4, 4 * m))
    k = len(names) - len(fresh)
    return play(encode(m, names[:k], glyphs[:k]), m, names, glyphs, steps, rnd, fresh)


def tidy_nodes(rnd, m):
    """Nodes of one contour whose points never coincide."""
    sh = shape(rnd)
    while len([t for t, _ in sh if t != "off"]) < 2:
        sh = shape(rnd)
    cs = [filled(rnd, sh) for _ in range(m)]
    at = lambda i: [[(c[i]["x"] + 500) // 1000, (c[i]["y"] + 500) // 1000] for c in cs]  # noqa: E731
    on = [i for i, (t, _) in enumerate(sh) if t != "off"]
    idx = list(range(len(sh)))
    if sh[0][0] != "move":
        idx = idx[on[0]:] + idx[:on[0]]
    nodes = [{"t": "move", "f": sh[idx[0]][1] + (8 if sh[0][0] == "move" else 0), "p": [[p] for p in at(idx[0])]}]
    offs = []
    for i in idx[1:] + ([idx[0]] if sh[idx[0]][0] == "curve" and sh[idx[-1]][0] == "off" else []):
        t, s = sh[i]
        f = s | rnd.choice([0, 0, 2, 4, 6])
        if t == "off":
            offs.append(at(i))
        elif t == "curve" and len(offs) == 2:
            nodes.append({"t": "curve", "f": f, "p": [[a, b, c] for a, b, c in zip(at(i), *offs)]})
            offs = []
        else:
            nodes += [{"t": "qcurve", "f": 0, "p": [[q] for q in o]} for o in offs] + [{"t": "line", "f": f, "p": [[q] for q in at(i)]}]
            offs = []
    return nodes + [{"t": "qcurve", "f": 0, "p": [[q] for q in o]} for o in offs]


def node_shapes(nodes):
    """The shapes that give nodes like these."""
    out = []
    for n in nodes:
        s = n["f"] & 1
        if n["t"] == "move":
            out.append([["move" if n["f"] & 8 else "line", s]])
            continue
        c = out[-1]
        if n["t"] == "qcurve":
            c.append(["off", 0])
        elif n["t"] == "curve":
            c += [["off", 0], ["off", 0], ["curve", s]]
        else:
            c.append(["qcurve" if c[-1][0] == "off" else "line", s])
    for c in out:
        if c[0][0] == "line" and c[-1][0] == "off":
            c[0][0] = "qcurve"
    return out


def from_corpus(rnd, limit):
    """The glyphs of the fonts in the repository, drawn out, and drawn back in."""
    ev = []
    for path in corpus.files():
        raw = open(path, "rb").read()
        v = build.read(raw)
        v.decompile()
        names, glyphs = [], []
        for x in v.entries:
            if x.key == "Glyph" and isinstance(x.data, dict):
                d = x.data
                names.append(d["name"])
                glyphs.append({
                    "nodes": [{"t": n["type"], "f": n["flags"], "p": [[list(q) for q in p] for p in n["points"]]} for n in d.get("nodes", [])],
                    "comps": [[k["gid"]] + [[fn(q) for q in k[a]] for a, fn in (("offsetX", int), ("offsetY", int), ("scaleX", milli), ("scaleY", milli))]
                              for k in d.get("components", [])]})
        if not names or len(set(names)) < len(names) or "" in names:
            continue
        for g in glyphs:
            g["comps"] = [{"b": names[k[0]], "x": k[1], "y": k[2], "sx": k[3], "sy": k[4]} for k in g["comps"]]
        m = v.num_masters
        good = [i for i, g in enumerate(glyphs) if not g["nodes"] or g["nodes"][0]["t"] == "move" and dangles(g["nodes"]) == 0]
        ids = sorted(rnd.sample(good, min(len(good), limit)))
        steps = [{"op": "look"}] if len(good) == len(glyphs) else []
        for i in ids:
            steps += rnd.sample(outs(rnd, i + 1, m), min(5, 4 * m))
        ev.append(play(raw, m, names, glyphs, steps, rnd))
    return ev


def dangles(nodes):
    """Open contours that end off-curve, and quadratic curves that end in cubic ones."""
    bad, q, o = 0, False, False
    for n in nodes + [{"t": "move", "f": 0}]:
        if n["t"] == "move":
            bad += q and o
            o = bool(n["f"] & 8)
        bad += n["t"] == "curve" and q
        q = n["t"] == "qcurve"
    return bad


def main():
    c = Check("C10")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Pens", "MC_Pens_gen")
    c.model("MC_Pens_gen", g)
    h = tlc.check("MC_Pens", "MC_Pens_histgen")
    c.model("MC_Pens_histgen", h)
    c.model("MC_Pens_hist", tlc.check("MC_Pens", "MC_Pens_histdeep" if c.thorough else "MC_Pens_hist"))
    if c.thorough:
        c.model("MC_Pens", tlc.check("MC_Pens", "MC_Pens"))
        c.model("MC_Pens_thorough", tlc.check("MC_Pens", "MC_Pens_thorough"))
    one, hs = tlc.printed(g["out"], "HISTORY"), tlc.printed(h["out"], "HISTORY")
    c.require(len(one) > 1500 and len(hs) > 2000, "model histories")
    judge(c, "contours of the model", [from_model(rnd, one[i:i + 40], rnd.choice([1, 2, 3])) for i in range(0, len(one), 40)])
    rnd.shuffle(hs)
    judge(c, "histories of the model", [from_model(rnd, hs[i:i + 25]) for i in range(0, len(hs) if c.thorough else 1500, 25)])
    judge(c, "random histories", [rnd_history(rnd, rnd.choice([1, 1, 2, 2, 3, 4, 8, 16]), rnd.choice([5, 15, 40]))
                                  for _ in range(4000 if c.thorough else 280)])
    ev = [twins(rnd) for _ in range(500 if c.thorough else 60)]
    bad, st = tlc.judge("C10", ev)
    c.judged("glyphs with one name", ev, bad, st)
    judge(c, "glyphs of the corpus", from_corpus(rnd, 400 if c.thorough else 60))
    c.finish()


def twins(rnd):
    """Glyphs with one name are all there."""
    n = rnd.choice([2, 3, 4, 6])
    names = [rnd.choice(["A", "A", "B", "A#1", "B#2"]) for _ in range(n)]
    glyphs = [{"nodes": [{"t": "move", "f": 0, "p": [[[100 + i, 0]]]}, {"t": "line", "f": 0, "p": [[[7, 9]]]}], "comps": []} for i in range(n)]
    e = {"ok": True, "twins": names, "keys": [], "order": [], "items": [], "has": 0, "xs": [], "why": ""}

    def look():
        v = font.open_raw(encode(1, names, glyphs))
        x = rnd.choice([v, v.get_masters()[0]])
        e["keys"] = [str(k) for k in x.keys()]
        e["order"] = list(x.glyph_order)
        e["items"] = [k for k, _ in x.items()]
        e["has"] = sum(k in x for k in e["keys"])
        for k in e["keys"]:
            p = Points()
            x[k].drawPoints(p)
            e["xs"].append(p.cs[0][0]["x"] - 100)
    r = guard.call(look, seconds=20)
    if r[0] != "ok":
        e.update(ok=False, why=" ".join(str(z) for z in r[1:]))
    return e


def judge(c, name, ev):
    bad, st = tlc.judge("C10", ev)
    c.judged(name, ev, bad, st)
    c.traces += sum(len(e["steps"]) for e in ev) - len(ev)
    for i, v in bad.items():
        c.require("ill-formed" not in v, "ill-formed step in event %d of %s: %s" % (i, name, v))


if __name__ == "__main__":
    main()
