"""C06: histories of decoding, editing, encoding and saving."""
import copy
import collections
import os
import random
import shutil
import tempfile
from pathlib import Path

from vlib import build, corpus, gen, guard, records, tlc, val
from vlib.report import Check
from . import c04

GLYPH = 2001
BASE = 3        # leading entries that the histories do not address
CH = "\u0416"   # not in the code page
# record types whose value can be replaced, with a value that cannot be encoded
BADS = {
    "text": lambda m: "x" + CH, "lines": lambda m: ["# ok", CH, ""], "num": lambda m: "x",
    "list": lambda m: [1, "x"], "glyph": lambda m: {
        "name": "bad", "num_masters": m, "metrics": [(0, 0)] * m,
        "nodes": [{"type": "zz", "flags": 0, "points": [[(0, 0)]] * m}]},
    "guideprops": lambda m: {"h": [{"index": "x"}], "v": []}, "gid": lambda m: (1, CH),
    "links": lambda m: {"x": [], "y": [(1, "x")]}, "hex": lambda m: "0g",
    "classes": lambda m: {"a": (1, "x", 2)}, "guides": lambda m: {"h": [[{"pos": "x", "angle": 0}] * m], "v": []},
    "bmp": lambda m: [{"ppm": 9, "origin": (0, 0), "adv": (8, 8), "size_pixels": (8, 1), "bitmap": {"data": [["x"]]}}],
    "ppm": lambda m: {"ttStemsV": [{"stem": 0, "round": {1: "x"}}], "ttStemsH": []},
    "mask": lambda m: {"weight_vector": ["x"], "num_masters": m, "nodes": []},
}
KINDS = [(1026, "text"), (1137, "text"), (1276, "lines"), (1048, "num"), (1503 + 10, "num"), (2023, "list"),
         (1068, "list"), (1296, "guideprops"), (1500, "gid"), (2008, "links"), (20000, "hex"), (271, "hex"),
         (1524, "ppm"), (2013, "bmp"), (2024, "classes"), (1294, "guides"), (2009, "mask"), (1118, "list")]


def project(eid, v):
    if eid == GLYPH:
        return c04.project(eid, v)
    return records.project(eid, v)


BREAKABLE = ("num", "guides", "links", "classes", "mask", "guideprops", "list")


def pick_entries(rnd, n, glyphs, ctx, layouts, dup, broken=()):
    """n records, glyph records at the given (1-based) places."""
    out = []
    for i in range(1, n + 1):
        gg = gen.GlyphGen(rnd, ctx, rnd.random() < 0.7)
        if i in glyphs:
            eid, bad = GLYPH, BADS["glyph"]

            def make(i=i):
                b = gg.glyph()
                # a name that can be looked up
                if b[4] == 1:
                    b = b[5 + 1 + b[5] - 0x8B:] if b[5] >= 0x8B and b[5] < 0xF0 else None
                    if b is None:
                        return make()
                    b = b"\x01\x09\x07\x01" + b
                name = b"A" if dup else b"g%d" % i
                return b[:4] + b"\x01" + gen.num(len(name)) + name + b[4:]
        else:
            eid, kind = rnd.choice([k for k in KINDS if k[1] in BREAKABLE] if i in broken else KINDS)
            if eid == 2008 and not any(e["id"] == GLYPH for e in out):
                eid, kind = 1026, "text"
            bad = BADS[kind]

            def make(eid=eid):
                f = layouts.get(eid, ["hex"])
                for _ in range(50):
                    b = gg.make(f)
                    if len(b) < 150:
                        return b
                return make(eid)

        def short(make=make):
            for _ in range(60):
                b = make()
                if len(b) < 300:
                    return b
            return b
        data = short()
        if i in broken:     # cut off, or damaged so that it cannot be understood
            for _ in range(20):
                if data:
                    break
                data = short()
            data = data[:rnd.randrange(len(data))] if rnd.random() < 0.7 else b"\x01" + data[1:]
        out.append({"id": eid, "data": data, "edits": [short(), short()], "badval": bad})
    return out


class Runner:
    """One open font under test, driven by a history."""

    def __init__(self, rnd, ents, ctx, minor, tmp, used=False):
        self.ents, self.ctx, self.tmp = ents, ctx, tmp
        self.raw = corpus.file_bytes([(e["id"], e["data"]) for e in ents], minor)
        self.other = build.read(corpus.file_bytes(
            [(10, b"\x01\x8b\x02\xff\x05\x02\x02\x80\x03\x8b\x00"), (1503, b"\x03\x00"), (1026, b"\xc4x"),
             (1269, b"\x8d\x8b\x00\x8b\x8b\x00\x8b\x8b")]))
        if used:
            # the object has held another font before, which may be damaged
            import io
            self.vfb = build.read(corpus.file_bytes(
                [(10, b"\x01\x8a\x02\xff\x05\x02\x02\x80\x03\x8b\x00".replace(b"\x8a", gen.num(rnd.randrange(2)))),
                 (1503, bytes([rnd.choice([2, 4, 16]), 0])), (1026, b"\xc4x"),
                 (1269, b"\x8d\x8b\x00\x8b\x8b\x00\x8b\x8b")] + rnd.choice([[], [(1294, b"\x01")]]), 1))
            guard.call(self.vfb.decompile, seconds=10)
            guard.call(lambda: list(self.vfb.keys()), seconds=10)
            if self.vfb.any_errors or rnd.random() < 0.5:
                self.vfb.read_bytes(io.BytesIO(self.raw))
            else:
                p = Path(tmp) / "used.vfb"
                p.write_bytes(self.raw)
                self.vfb.vfb_path = p
                self.vfb.read()
                p.unlink()
        else:
            self.vfb = build.read(self.raw)
        self.file = None
        self.prev = None
        self.n = 0

    def value(self, k, v):
        e = self.ents[k]
        if v == 9:
            return e["badval"](self.ctx["masters"])
        x = build.entry_class()(self.vfb, eid=e["id"])
        x.data = e["edits"][v - 1]
        x.decompile()
        return x.data

    def do(self, op, i, v):
        es = self.vfb.entries
        if op == "dec":
            es[i].decompile()
        elif op == "enc":
            es[i].compile()
        elif op == "edit":
            es[i].data = self.value(i, v)
        elif op == "decall":
            self.vfb.decompile()
        elif op == "encall":
            self.vfb.compile()
        elif op == "lookup":
            for name in list(self.vfb.keys()):
                self.vfb[name]
                assert name in self.vfb
        elif op == "json":
            self.vfb.as_dict()
            for e in es:
                repr(e)
                if isinstance(e.data, bytes):
                    e.header, e.size
        elif op == "other":
            o = self.other
            o.decompile()
            build.write(o)
            o.decompile()
        elif op == "save":
            self.saved = build.write(self.vfb)
        elif op == "savefile":
            self.n += 1
            p = Path(self.tmp) / f"out{self.n}.vfb"
            self.vfb.write(p)
            self.saved = p.read_bytes()
            p.unlink()
        elif op == "reread":
            if self.n % 2:
                self.vfb = build.read(self.file)
            else:       # into the same object
                import io
                self.vfb.read_bytes(io.BytesIO(self.file))

    def observe(self):
        obs = []
        for e in self.vfb.entries:
            if isinstance(e.data, bytes):
                obs.append({"rep": "raw", "b": list(e.data)})
            elif e.data is None:
                obs.append({"rep": "none"})
            else:
                obs.append({"rep": "dec", "v": project(e.id, e.data)})
        out = [{"rep": "same"} if self.prev and k < len(self.prev) and o == self.prev[k] else o
               for k, o in enumerate(obs)]
        self.prev = obs
        return out

    def step(self, op, i, v):
        self.saved = None
        r = guard.call(self.do, op, i - 1, v, seconds=10)
        ok = int(r[0] == "ok")
        ev = {"op": op, "i": i, "v": v, "ok": ok, "err": int(bool(self.vfb.any_errors)), "obs": self.observe(), "file": []}
        if op in ("save", "savefile") and ok:
            self.file = self.saved
            ev["file"] = list(self.saved)
        if not ok:
            ev["why"] = str(r[1:])[:200]
        return ev


def trace(rnd, hist, n, glyphs, layouts, tmp, broken=(), used=False):
    m = rnd.choice([1, 1, 2, 3])
    ctx = {"masters": m, "platform": rnd.choice(["macos", "windows"]), "v": 1, "h": 1}
    # files without the records that others depend on
    without = {k for k in (10, 1269) if rnd.random() < 0.4} if used else ()
    if 10 in without:
        ctx["platform"] = "macos"
    if 1269 in without:
        ctx["v"] = ctx["h"] = 0
    minor = rnd.choice([0, 3])
    base = [{"id": 10, "data": b"\x01" + gen.num(int(ctx["platform"] == "macos")) + b"\x02\xff\x05\x02\x02\x80\x03\x8b\x00"},
            {"id": 1503, "data": bytes([m, 0])}, {"id": 1269, "data": b"\x8c\x8b\x01A\x8b\x8c\x8b\x00\x8c"}]
    for e in base:
        e.update(edits=[], badval=None)
    assert len(base) == BASE
    base = [{"id": 1026, "data": b"", "edits": [], "badval": None} if e["id"] in without else e for e in base]
    ents = base + pick_entries(rnd, n, glyphs, ctx, layouts, rnd.random() < 0.15, broken)
    r = Runner(rnd, ents, ctx, minor, tmp, used)
    steps = []
    for h in hist:
        op = h["op"]
        if op == "reread" and r.file is None:   # the save before was refused
            continue
        steps.append(r.step(op, h["i"] + BASE if h["i"] else 0, h["v"]))
        if len(r.vfb.entries) != len(ents):
            break
    steps.append(r.step("save", 0, 0))
    if r.file is not None:
        steps.append(r.step("reread", 0, 0))
    return {"ents": [{"id": e["id"], "data": list(e["data"]), "edits": [list(x) for x in e["edits"]],
                      "bad": project(e["id"], e["badval"](m)) if e["badval"] else ["none"]} for e in ents],
            "ctx": ctx, "minor": minor, "steps": steps}


def main():
    c = Check("C06")
    rnd = random.Random(c.seed)
    tab = gen.tables()
    layouts = {i: f for k in tab for i, f in tab[k]}
    c.model("lifecycle", tlc.check("Lifecycle"))
    hist = tlc.check("Lifecycle", "Lifecycle_hist")
    c.model("histories of length 3", hist)
    short = tlc.printed(hist["out"], "H")
    c.require(len(short) > 5000, "all histories of three operations")
    rnd.shuffle(short)
    sim = tlc.check("Lifecycle", "Lifecycle_sim", extra=["-simulate", f"num={400 if not c.thorough else 8000}",
                    "-seed", str(c.seed), "-depth", "15"], expect_ok=False, workers=1)
    longs = {}
    for h in tlc.printed(sim["out"], "H"):
        longs.setdefault(str(h[:-1]), []).append(h)
    longs = [rnd.choice(x) for _, x in sorted(longs.items())]
    c.require(len(longs) > 100, "long histories")
    rnd.shuffle(longs)
    tmp = tempfile.mkdtemp(prefix="vfbc06.")
    events = []
    try:
        for h in short[:(1200 if not c.thorough else 20000)]:
            events.append(trace(rnd, h, 3, {2}, layouts, tmp))
        for h in rnd.sample(short, 300 if not c.thorough else 3000):
            events.append(trace(rnd, h, 3, {2}, layouts, tmp, used=True))
        for h in longs[:(200 if not c.thorough else 3000)]:
            events.append(trace(rnd, h, 8, {4, 6, 8}, layouts, tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    bad, st = tlc.judge("C06", events)
    c.judged("histories", events, bad, st)
    ops = collections.Counter((s["op"], s["ok"]) for e in events for s in e["steps"])
    c.extra["operations"] = {f"{k[0]} {'ok' if k[1] else 'refused'}": v for k, v in sorted(ops.items())}
    for k in [("save", 0), ("save", 1), ("savefile", 1), ("reread", 1), ("lookup", 1), ("enc", 0), ("encall", 0)]:
        c.require(ops[k] > 20, f"operation {k}")
    c.finish()
