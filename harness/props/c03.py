"""C03: font-level records."""
import collections
import itertools
import random

from vlib import corpus, gen, records, tlc
from vlib.report import Check

CTX = [{"masters": m, "platform": p, "v": v, "h": h}
       for m, p, v, h in ((1, "macos", 0, 0), (1, "windows", 2, 1), (2, "macos", 1, 3), (3, "windows", 0, 2),
                          (4, "windows", 3, 0), (8, "macos", 1, 1), (16, "macos", 0, 1))]


def main():
    c = Check("C03")
    rnd = random.Random(c.seed)
    table = gen.tables()["FONT"]
    layouts = {i: f for i, f in table}
    events = run(c, rnd, layouts, 25 if not c.thorough else 300)
    c.model("grammar", tlc.check("MC_Grammar", "MC_Grammar" + ("_thorough" if c.thorough else "")))
    bad, st = tlc.judge("C03", events)
    c.judged("records", events, bad, st)
    short = list(short_records(c, layouts))
    bad, st = tlc.judge("C03", short)
    c.judged("short records", short, bad, st)
    coverage(c, layouts, events)
    c.finish()


ALPHABET = (0, 1, 2, 139, 140, 141, 247)


def short_records(c, layouts):
    """Every record of up to 3 (thorough: 4) bytes over the alphabet of the model
    MC_Grammar, replayed through the real code; 50 to a judged batch."""
    batch = []
    simple = ("u16", "s16", "s32", "f64", "ztail", "hex", "emptystr", "rec", "bits128")
    for i, f in layouts.items():
        if f[0] in simple and i not in (1255, 1266, 1268, 1269, 1294):
            continue
        for m in (1, 2):
            ctx = {"masters": m, "platform": "macos", "v": 1, "h": 1}
            for n in range((3 if m == 1 else 2) + c.thorough + 1):
                for b in itertools.product(ALPHABET, repeat=n):
                    batch.append(records.trip(i, bytes(b), ctx, wf=0))
                    if len(batch) == 50:
                        yield {"batch": batch}
                        batch = []
    if batch:
        yield {"batch": batch}


def run(c, rnd, layouts, n):
    events = []
    pay = corpus.corpus_payloads()
    lim = 3000 if not c.thorough else 60000
    for i in layouts:
        ps = [p for p in pay.get(i, []) if len(p[0]) <= lim]
        rnd.shuffle(ps)
        for data, ctx in ps[:(40 if not c.thorough else 2000)]:
            events.append(records.trip(i, data, ctx))
            if len(data) < 400 and rnd.random() < 0.3:
                events.append(records.trip(i, gen.mutate(rnd, data), ctx, wf=0))
        simple = layouts[i][0] in ("u16", "s16", "s32", "f64", "ztail", "hex", "emptystr")
        for k in range(n // 3 if simple else n):
            ctx = CTX[k % len(CTX)]
            data = gen.Gen(rnd, ctx, k % 3 != 0).make(layouts[i])
            events.append(records.trip(i, data, ctx))
            if k % 4 == 0:
                events.append(records.trip(i, gen.mutate(rnd, data), ctx, wf=0))
    return events


def coverage(c, layouts, events):
    per = collections.Counter(e["id"] for e in events if e["dst"] == "ok")
    c.extra["record_types"] = len(layouts)
    c.extra["decoded_per_type_min"] = min((per.get(i, 0) for i in layouts), default=0)
    c.extra["bytes_decoded"] = sum(len(e["data"]) for e in events if e["dst"] == "ok")
    c.extra["rejected"] = sum(e["dst"] != "ok" for e in events)
    c.require(len(per) == len(layouts), "every record type decoded at least once")
