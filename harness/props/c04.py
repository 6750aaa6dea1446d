"""C04: glyph records."""
import collections
import random

from fontTools.ttLib.tables.ttProgram import Program

from vlib import corpus, gen, records, tlc, val
from vlib.report import Check
from . import c03

GLYPH = 2001


def project(eid, v):
    """The decoded glyph; a program is compared by the bytes its text stands for."""
    prog = None
    if isinstance(v, dict) and isinstance(v.get("imported"), dict) and "instructions" in v["imported"]:
        p = Program()
        try:
            p.fromAssembly(list(v["imported"]["instructions"]))
            prog = p.getBytecode()
        except Exception:  # noqa: BLE001
            prog = None
        v = dict(v, imported=dict(v["imported"], instructions=prog))
    return val.rtag(v)


def main():
    c = Check("C04")
    rnd = random.Random(c.seed)
    events = []
    lim = 1500 if not c.thorough else 20000
    ps = [p for p in corpus.corpus_payloads()[GLYPH] if len(p[0]) <= lim]
    rnd.shuffle(ps)
    for data, ctx in ps[:(500 if not c.thorough else 8000)]:
        events.append(records.trip(GLYPH, data, ctx, project=project))
        if rnd.random() < 0.15:
            events.append(records.trip(GLYPH, gen.mutate(rnd, data), ctx, project=project, wf=0))
    for k in range(1500 if not c.thorough else 20000):
        ctx = c03.CTX[k % len(c03.CTX)]
        data = gen.GlyphGen(rnd, ctx, k % 3 != 0).glyph()
        events.append(records.trip(GLYPH, data, ctx, project=project))
        if k % 6 == 0:
            events.append(records.trip(GLYPH, gen.mutate(rnd, data), ctx, project=project, wf=0))
    c.model("glyph grammar", tlc.check("MC_Grammar", "MC_Glyph" + ("_thorough" if c.thorough else "")))
    bad, st = tlc.judge("C04", events)
    c.judged("glyphs", events, bad, st)
    parts = collections.Counter()
    for e in events:
        if e["dec"][0] == "d":
            parts.update(e["dec"][1].keys())
    c.extra["glyphs_with_part"] = dict(parts)
    c.extra["bytes_decoded"] = sum(len(e["data"]) for e in events if e["dst"] == "ok")
    for k in ("name", "nodes", "metrics", "hints", "guides", "components", "kerning", "imported", "tth"):
        c.require(parts[k] > 20, f"glyphs with {k}")
    c.finish()
