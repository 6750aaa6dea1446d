"""C02: the container."""
import os
import random
from pathlib import Path

from vlib import build, corpus, guard, tlc
from vlib.report import Check

KNOWN_IDS = [1, 2, 10, 1503, 1410, 1026, 1044, 1269, 1270, 1271, 1272, 1274, 513, 527,
             2001, 1250, 0, 3, 5, 32767, 20000, 1276, 1277, 255, 256]


def payload(rnd, eid, masters):
    if eid == 1503:
        return bytes([rnd.choice([0, 1, 1, 2, 3, 16]), 0])
    if eid == 1410:
        return bytes(rnd.randrange(256) for _ in range(8 + 2 * masters))
    if eid == 10:
        tail = rnd.choice([b"", b"\x04\x8c", b"\x03\xff\x00\x00\x00\x01", b"\x01\x8b"])
        return b"\x01" + rnd.choice([b"\x8b", b"\x8c"]) + b"\x02\xff\x05\x02\x02\x80\x03\x8b" + tail + b"\x00"
    if eid == 1269:
        return rnd.choice([b"\x8b\x8b", b"\x8c\x90\x01A\x8b\x8b", b"\xf7\x00"[:0] + b"\x8c\xff\x00\x00\x00\x05\x00\x8c\x8b"])
    n = rnd.choice([0, 0, 1, 2, 3, 4, 7, 12, rnd.randrange(40)])
    return bytes(rnd.choice([0, 2, 255, rnd.randrange(256)]) for _ in range(n))


def sequence(rnd, n, with_end):
    es, masters = [], 0
    for _ in range(n):
        eid = rnd.choice(KNOWN_IDS + [rnd.randrange(3, 32768)])
        if eid == 2:
            continue
        d = payload(rnd, eid, masters)
        if eid == 1503:
            masters = d[0] + 256 * d[1]
        es.append((eid, d))
    if with_end:
        es.append((2, b""))
    return es


def j(es):
    return [{"id": i if i is not None else -1, "data": list(d) if isinstance(d, bytes) else [-1]}
            for i, d in es]


def file_event(raw, drop, via_path):
    def run():
        kw = {"drop_keys": set(drop)} if drop else {}
        v = (build.read_path if via_path else build.read)(raw, **kw)
        es = [(e.id, e.data) for e in v.entries]
        m = v.num_masters
        w = build.write(v)
        return es, m, w
    r = guard.call(run, seconds=10)
    ev = {"k": "file", "raw": list(raw), "drop": sorted(drop), "err": int(r[0] != "ok"),
          "entries": [], "masters": 0, "written": []}
    if r[0] == "ok":
        es, m, w = r[1]
        ev.update(entries=j(es), masters=m, written=list(w))
    elif r[1] == "HANG":
        ev["err"] = 2
    return ev


def main():
    c = Check("C02")
    rnd = random.Random(c.seed)
    c.model("MC_File", tlc.check("MC_File"))
    Vfb, VfbEntry = build.vfb_class(), build.entry_class()
    events = []
    N = 250 if not c.thorough else 3000
    for k in range(N):
        es = sequence(rnd, rnd.randrange(0, 8), rnd.random() < 0.7)
        raw = corpus.file_bytes(es, rnd.choice([0, 1, 7, 255]))
        if rnd.random() < 0.15:  # long-form header of a short entry
            p = 44
            i, d = (es + [(7, b"")])[0]
            raw = raw[:p] + (i | 0x8000).to_bytes(2, "little") + len(d).to_bytes(4, "little") \
                + d + raw[p + 4 + len(d):]
        if rnd.random() < 0.15:  # a header of another length
            off = rnd.choice([12, 13, 20, 43, 45, 60, 100, 255, 256, 300])
            raw = raw[:8] + off.to_bytes(4, "little") + bytes(rnd.randrange(256) for _ in range(off - 12)) + raw[44:]
        if rnd.random() < 0.25:
            raw += bytes(rnd.randrange(256) for _ in range(rnd.randrange(6)))
        if rnd.random() < 0.15:
            raw = raw[:rnd.randrange(len(raw) + 1)]
        drop = set()
        if rnd.random() < 0.4:
            drop = {rnd.choice([i for i, _ in es] or [1]) for _ in range(2)} | \
                ({1503} if rnd.random() < 0.3 else set())
        events.append(file_event(raw, drop, k % 3 == 0))
    # sizes around the switch to the long form
    for n in (65534, 65535, 65536, 65537, 65536 + 255):
        es = [(1503, b"\x02\x00"), (rnd.choice([513, 1276, 9999]), bytes([n % 251]) * n), (5, b"x")]
        events.append(file_event(corpus.file_bytes(es), set(), False))

    def mem(es, minor):
        def run():
            v = Vfb(timing=False)
            v.header.data = {"signature": 0x464C571A, "app_version": 0x31, "file_version": 0x30,
                             "version_major": 3, "version_minor": minor}
            sizes = []
            for i, d in es:
                e = VfbEntry(v, eid=i)
                e.data = d
                v.add_entry(e)
                sizes.append(e.size)
            w = build.write(v)
            back = build.read(w)
            return w, [(e.id, e.data) for e in back.entries], sizes
        r = guard.call(run, seconds=10)
        ev = {"k": "mem", "entries": j(es), "minor": minor, "written": [], "reread": [], "sizes": []}
        if r[0] == "ok":
            ev.update(written=list(r[1][0]), reread=j(r[1][1]), sizes=r[1][2])
        return ev
    for _ in range(120 if not c.thorough else 1500):
        events.append(mem(sequence(rnd, rnd.randrange(0, 9), rnd.random() < 0.5), rnd.choice([0, 2, 200])))
    for n in (65535, 65536, 70000):
        events.append(mem([(9999, bytes([7]) * n), (3, b"ab")], 0))

    # every sample file
    for f in corpus.files():
        with open(f, "rb") as fh:
            raw = fh.read()
        sk = corpus.raw_entries(raw)
        allids = sorted({i for _, i, _ in sk})
        for drop in (set(), set(rnd.sample(allids, 3))):
            def run():
                v = Vfb(Path(f), timing=False, drop_keys=drop)
                es = [(e.id, e.data) for e in v.entries]
                return es, build.write(v)
            r = guard.call(run, seconds=30)
            ev = {"k": "skel", "file": os.path.basename(f), "drop": sorted(drop), "entries": [],
                  "written": [], "same": 0, "minorOk": 0,
                  "raw": [{"head": list(h), "n": len(d), "dig": corpus.digest(d),
                           "data": list(d) if i == 1503 else []} for h, i, d in sk]}
            if r[0] == "ok":
                es, w = r[1]
                ev["entries"] = [{"id": i, "n": len(d) if isinstance(d, bytes) else -1,
                                  "dig": corpus.digest(d) if isinstance(d, bytes) else "?"} for i, d in es]
                try:
                    ws = corpus.raw_entries(w)
                except Exception:
                    ws = []
                ev["written"] = [{"head": list(h), "n": len(d), "dig": corpus.digest(d)} for h, i, d in ws]
                ev["same"] = int(w == raw)
                ev["minorOk"] = int(w[:44] == raw[:44])
            events.append(ev)
    bad, st = tlc.judge("C02", events)
    c.judged("files", events, bad, st)
    c.extra["file_reads"] = sum(e["k"] == "file" for e in events)
    c.extra["sample_files"] = len(corpus.files())
    c.extra["entries_in_sample_files"] = sum(len(e.get("raw", [])) for e in events if e["k"] == "skel")
    c.require(sum(e["k"] == "file" and e["err"] == 1 for e in events) > 5, "damaged files")
    c.finish()
