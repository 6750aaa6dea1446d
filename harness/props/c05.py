"""C05: glyph attachments and bitmaps."""
import random

from vlib import gen, records, tlc
from vlib.report import Check
from . import c03


def main():
    c = Check("C05")
    rnd = random.Random(c.seed)
    layouts = {i: f for i, f in gen.tables()["ATT"]}
    events = c03.run(c, rnd, layouts, 60 if not c.thorough else 800)
    n = 150 if not c.thorough else 3000
    for k in range(n):      # bitmaps: widths, runs and platforms
        for eid in (2007, 2013):
            ctx = c03.CTX[k % len(c03.CTX)]
            events.append(records.trip(eid, gen.Gen(rnd, ctx, False).make(layouts[eid]), ctx))
    events = [e for e in events if len(e["data"]) < 6000]
    bad, st = tlc.judge("C05", events)
    c.judged("attachments", events, bad, st)
    c03.coverage(c, layouts, events)
    c.finish()
