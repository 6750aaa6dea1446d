"""C07: damaged input."""
import collections
import os
import random
import resource
import shutil
import tempfile

from vlib import build, corpus, gen, guard, records, tlc
from vlib.report import Check
from . import c02, c03, c06

GLYPH = 2001
GUIDES = 1294


def cut_event(raw, n, path):
    part = raw[:n]

    def run():
        v = (build.read_path if path else build.read)(part)
        return [(e.id, e.data) for e in v.entries]
    r = guard.call(run, seconds=10)
    ev = {"k": "cut", "raw": list(part), "whole": list(raw), "err": int(r[0] != "ok"), "entries": []}
    if r[0] == "ok":
        ev["entries"] = c02.j(r[1])
    elif r[1] in ("HANG", "MemoryError"):
        ev["err"] = 2
    return ev


def rec_event(k, eid, data, ctx):
    vfb = records.context(ctx)
    vfb.any_errors = False
    ev = records.trip(eid, data, ctx, wf=0, seconds=8)
    # the verdict needs only how decoding ended
    return {"k": k, "id": eid, "data": ev["data"], "ctx": ev["ctx"], "dst": ev["dst"], "kept": ev.get("kept", 1),
            "flag": int(bool(vfb.any_errors))}


def batches(events, n):
    for i in range(0, len(events), n):
        yield {"batch": events[i:i + n]}


def main():
    c = Check("C07")
    rnd = random.Random(c.seed)
    tab = gen.tables()
    layouts = {i: f for k in tab for i, f in tab[k]}
    c.model("reader over all prefixes", tlc.check("MC_Cut"))
    c.model("damaged records", tlc.check("Lifecycle", "Damage"))
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, hard))
    try:
        cuts = cut_events(c, rnd)
        recs = rec_events(c, rnd, layouts)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    hists = hist_events(c, rnd, layouts)
    bad, st = tlc.judge("C07", cuts)
    c.judged("cut files", cuts, bad, st)
    b = list(batches(recs, 25))
    bad, st = tlc.judge("C07", b)
    c.judged("damaged records", b, bad, st)
    bad, st = tlc.judge("C06", hists)
    c.judged("histories with damaged records", hists, bad, st)
    c.extra["cut_positions"] = len(cuts)
    c.extra["record_prefixes"] = sum(e["k"] == "rec" for e in recs)
    c.extra["changed_records"] = sum(e["k"] == "mut" for e in recs)
    per = collections.Counter(e["id"] for e in recs if e["k"] == "rec" and e["dst"] == "error")
    c.extra["types_with_refused_prefix"] = len(per)
    ops = collections.Counter((s["op"], s["ok"]) for e in hists for s in e["steps"])
    c.extra["operations"] = {f"{k[0]} {'ok' if k[1] else 'refused'}": v for k, v in sorted(ops.items())}
    c.require(len(per) > 60, "refused prefixes of most record types")
    for k in [("dec", 0), ("decall", 0), ("lookup", 0), ("save", 1), ("edit", 1), ("enc", 0)]:
        c.require(ops[k] > 20, f"operation {k}")
    c.finish()


def cut_events(c, rnd):
    out = []
    for k in range(12 if not c.thorough else 120):
        raw = corpus.file_bytes(c02.sequence(rnd, rnd.randint(1, 6), rnd.random() < 0.7), rnd.choice([0, 3]))
        r = 44 + rnd.randrange(1, 4)
        for n in range(len(raw)) if len(raw) < 400 else rnd.sample(range(len(raw)), 300):
            if n > 44 - 4 or n % r == 0:
                out.append(cut_event(raw, n, (n + k) % 4 == 0))
    # long-form records
    raw = corpus.file_bytes([(9999, bytes(70000)), (3, b"ab")])
    for n in (44, 46, 47, 48, 49, 50, 51, 60):
        out.append(cut_event(raw, n, False))
    for f in corpus.files()[:(6 if not c.thorough else 100)]:
        with open(f, "rb") as fh:
            raw = fh.read()
        sk = corpus.raw_entries(raw)
        # the beginning of the file, whole records only
        p, ends = len(raw) - sum(len(h) + len(d) for h, _, d in sk), []
        for h, _, d in sk:
            p += len(h) + len(d)
            if p > 2500:
                break
            ends.append(p)
        if not ends:
            continue
        raw = raw[:ends[-1]]
        pts = {e + k for e in ends for k in (-2, -1, 0, 1, 2, 3, 4)} | {rnd.randrange(len(raw)) for _ in range(10)}
        pts = [n for n in pts if 0 <= n <= len(raw)]
        for n in rnd.sample(sorted(pts), min(len(pts), 40 if not c.thorough else 400)):
            out.append(cut_event(raw, n, False))
    return out


def rec_events(c, rnd, layouts):
    out = []

    def prefixes(eid, data, ctx, most):
        pts = range(len(data)) if len(data) <= most else sorted(rnd.sample(range(len(data)), most))
        for p in pts:
            out.append(rec_event("rec", eid, data[:p], ctx))
    deep = 1 if not c.thorough else 12
    for i in layouts:
        simple = layouts[i][0] in ("u16", "s16", "s32", "f64", "ztail", "hex", "emptystr")
        for k in range((1 if simple else 4) * deep):
            ctx = rnd.choice(c03.CTX)
            data = gen.Gen(rnd, ctx, k % 2).make(layouts[i])
            prefixes(i, data, ctx, 25)
            for _ in range(1 if simple else 4):
                out.append(rec_event("mut", i, gen.mutate(rnd, data), ctx))
    for k in range(60 * deep):
        ctx = rnd.choice(c03.CTX)
        data = gen.GlyphGen(rnd, ctx, k % 2).glyph()
        if len(data) < 1500:
            prefixes(GLYPH, data, ctx, 30)
        for _ in range(8):
            out.append(rec_event("mut", GLYPH, gen.mutate(rnd, data), ctx))
    # images whose data ends within a run
    for k in range(12 * deep):
        ctx = rnd.choice(c03.CTX)
        g = gen.Gen(rnd, ctx, k % 2)
        w, h, bpr = g.bitmap_dims()
        px = g.rle(bpr * h)
        for n in range(len(px)) if len(px) <= 12 else sorted(rnd.sample(range(len(px)), 12)):
            head = [g.n(), g.n(), g.un(), g.un()]
            data = g.n(w) + g.n(h) + g.n(n) + px[:n]
            out.append(rec_event("rec", 2007, b"".join(head) + data, ctx))
            out.append(rec_event("rec", 2013, g.n(1) + b"".join(head[2:3] + head[:2] + head[2:]) + data, ctx))
    # numbers that promise far more than there is
    big = [b"\xff\x7f\xff\xff\xff", b"\xff\xff\xff\xff\xff", b"\xff\x00\x0f\xff\xff", b"\xff\x80\x00\x00\x00"]
    for i in list(layouts) + [GLYPH]:
        simple = i != GLYPH and layouts[i][0] in ("u16", "s16", "s32", "f64", "ztail", "hex", "emptystr")
        if simple:
            continue
        for k in range(3 * deep if i != GLYPH else 60 * deep):
            ctx = rnd.choice(c03.CTX)
            data = gen.GlyphGen(rnd, ctx, False).glyph() if i == GLYPH else gen.Gen(rnd, ctx, False).make(layouts[i])
            p = rnd.randrange(min(len(data), 24)) if data else 0
            out.append(rec_event("mut", i, data[:p] + rnd.choice(big) + data[p + 1:], ctx))
    # the same where an item takes no data, because there are no masters
    none = b"\x8b"
    for n in big:
        for k in range(4):
            ctx = dict(rnd.choice(c03.CTX), masters=0)
            out.append(rec_event("mut", 2029, n + none, ctx))
            head = b"\x01\x09\x07\x01\x01\x8c" + b"a" + b"\x08" + none * 3
            counts = [none] * 4
            counts[k] = n
            out.append(rec_event("mut", GLYPH, head + b"\x03" + b"".join(counts[:3]) + b"\x0f", ctx))
            out.append(rec_event("mut", GLYPH, head + b"\x04" + b"".join(counts[:2]) + b"\x0f", ctx))
            out.append(rec_event("mut", GUIDES, b"".join(counts[:2]), ctx))
    return out


def hist_events(c, rnd, layouts):
    hist = tlc.check("Lifecycle", "Damage_hist")
    c.model("histories of length 3 with damaged records", hist)
    short = tlc.printed(hist["out"], "H")
    c.require(len(short) > 5000, "all histories of three operations")
    rnd.shuffle(short)
    sim = tlc.check("Lifecycle", "Damage_sim", extra=["-simulate", f"num={250 if not c.thorough else 5000}",
                    "-seed", str(c.seed), "-depth", "15"], expect_ok=False, workers=1)
    longs = {}
    for h in tlc.printed(sim["out"], "H"):
        longs.setdefault(str(h[:-1]), []).append(h)
    longs = [rnd.choice(x) for _, x in sorted(longs.items())]
    rnd.shuffle(longs)
    tmp = tempfile.mkdtemp(prefix="vfbc07.")
    out = []
    try:
        for h in short[:(500 if not c.thorough else 12000)]:
            out.append(c06.trace(rnd, h, 3, {2}, layouts, tmp, {2, 3}))
        for h in longs[:(100 if not c.thorough else 2000)]:
            out.append(c06.trace(rnd, h, 8, {4, 6, 8}, layouts, tmp, {1, 6, 7}))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
