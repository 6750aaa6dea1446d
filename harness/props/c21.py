"""C21: JSON dumps and comparisons."""
import hashlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
from contextlib import redirect_stdout
from pathlib import Path

from vlib import build, corpus, font, gen, guard, tlc, val
from vlib.report import Check
from . import c04
from .c08 import cli

CONTEXT = (10, 1503, 1269)
SKIP = CONTEXT + (2, 1410, 1523)


def keyed(v):
    """Dictionaries whose keys JSON turned into texts."""
    if isinstance(v, dict):
        ks = list(v)
        if ks and all(k.lstrip("-").isdigit() and str(int(k)) == k for k in ks):
            return {int(k): keyed(x) for k, x in v.items()}
        return {k: keyed(x) for k, x in v.items()}
    if isinstance(v, list):
        return [keyed(x) for x in v]
    return v


def project(eid, v, raw):
    if raw:
        return val.rtag(v)
    if eid in (2024, 2026):
        return val.textdict(v)
    v = v if eid == 1743 else keyed(v)
    return c04.project(eid, v) if eid == 2001 else val.rtag(v)


def unique(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("a key twice")
    return d


def no_constant(x):
    raise ValueError(f"not JSON: {x}")


def load(p, ids, raw):
    """The dump, without trusting it to be JSON."""
    try:
        with open(p, "rb") as f:
            d = json.loads(f.read().decode("utf-8"), object_pairs_hook=unique, parse_constant=no_constant)
        es = [{"key": e.get("key"), "size": [e["size"]] if "size" in e else [],
               "dec": project(ids[i] if i < len(ids) else 0, e["decompiled"], raw or "size" in e),
               "extra": sorted(set(e) - {"key", "size", "decompiled"})} for i, e in enumerate(d["entries"])]
        h = d["header"]
        return {"ok": True, "header": val.rtag(h.get("decompiled")), "entries": es,
                "other": sorted(set(d) - {"header", "entries"}) + sorted(set(h) - {"decompiled"})}
    except (OSError, ValueError, KeyError, TypeError, AttributeError) as e:
        return {"ok": False, "header": ["n"], "entries": [], "other": [], "why": repr(e)}


def digest(p):
    return hashlib.md5(Path(p).read_bytes()).hexdigest()


def dump_event(rnd, es, minor, ctx, damaged=False, plain=False):
    if not damaged and not plain and rnd.random() < 0.3 and es[:1] and es[0][0] == 10:
        # a number in another than its shortest form
        es = [(10, b"\x01\xff" + int(ctx["platform"] == "macos").to_bytes(4, "big") + es[0][1][2:])] + es[1:]
    raw = corpus.file_bytes(es, minor)
    tmp = tempfile.mkdtemp(prefix="vfbc21.", dir=font.SHM)
    try:
        o = {"header": rnd.random() < 0.1, "raw": rnd.random() < 0.2, "trip": not damaged and rnd.random() < 0.25,
             "minimal": rnd.random() < 0.2}
        if plain:
            o.update(header=False, raw=True)
        again = []
        if o["raw"] and o["trip"]:
            # what the file would be if it were saved after decoding
            def save():
                v = build.read(raw)
                v.decompile()
                v.compile()
                return [list(e.data) for e in v.entries]
            r = guard.call(save, seconds=20)
            if r[0] == "ok":
                again = r[1]
            else:
                o["trip"] = False
        src = Path(tmp) / rnd.choice(["f.vfb", "a b.c.vfb", "Font.VFB"])
        src.write_bytes(raw)
        out = Path(tmp)
        args = (["--header"] if o["header"] else []) + (["-d"] if o["raw"] else []) + (["-r"] if o["trip"] else []) + (
            ["-m"] if o["minimal"] else [])
        if rnd.random() < 0.5:
            out = Path(tmp) / "out"
            out.mkdir()
            args += ["-p", str(out)]
        ended, why = cli("vfb2json", args + [str(src)])
        d = load(out / (src.name[:-4] + ".vfb.json"), [i for i, _ in es], o["raw"])
        if ended != "done":
            d.update(ok=False, why=why)
        return {"k": "dump", "a": list(raw), "ctx": ctx, "opts": o, "again": again, "out": d, "kept": int(digest(src) == hashlib.md5(raw).hexdigest())}
    finally:
        shutil.rmtree(tmp)


def compare(tmp, a, b, html):
    from vfbLib import diff
    f = [Path(tmp) / "a.vfb", Path(tmp) / "b.vfb"]
    f[0].write_bytes(a)
    f[1].write_bytes(b)
    page = Path(tmp) / "d.html"
    if page.exists():
        page.unlink()
    old = sys.argv
    sys.argv = ["vfbdiff"] + (["--html", str(page)] if html else []) + [str(x) for x in f]
    out = io.StringIO()

    def go():
        with redirect_stdout(out):
            diff.diffvfb()
    try:
        r = guard.call(go, seconds=60)
    finally:
        sys.argv = old
    ok = r[0] == "ok" or r[1:] in (("SystemExit", "None"), ("SystemExit", "0"), ("SystemExit", "1"))
    some = False
    if ok and html:
        try:
            t = page.read_text("utf-8")
            some = 'class="diff_add"' in t.split("<table class=\"diff\" summary=\"Legends\"")[0] or \
                any(x in t.split("<table class=\"diff\" summary=\"Legends\"")[0] for x in ('class="diff_sub"', 'class="diff_chg"'))
        except OSError:
            ok = False
    elif ok:
        some = bool(out.getvalue().strip())
    kept = int(f[0].read_bytes() == a and f[1].read_bytes() == b)
    return {"ok": ok, "some": some, "why": "" if ok else str(r)}, kept


def diff_event(tmp, ea, eb, ma, mb, ctx, html):
    a, b = corpus.file_bytes(ea, ma), corpus.file_bytes(eb, mb)
    out, kept = compare(tmp, a, b, html)
    return {"k": "diff", "a": list(a), "b": list(b), "ctx": ctx, "html": html, "out": out, "kept": kept}


def base(ctx):
    stems = b"".join(gen.num(n) + b"\x8b\x00\x8b" * n for n in (ctx["v"], ctx["h"]))
    return [(10, b"\x01" + gen.num(int(ctx["platform"] == "macos")) + b"\x02\xff\x05\x02\x02\x80\x03\x8b\x00"),
            (1503, bytes([ctx["masters"], 0])), (1269, stems)]


def make(rnd, eid, ctx, layouts, lim=250):
    g = gen.GlyphGen(rnd, ctx, rnd.random() < 0.7)
    for _ in range(200):
        b = g.glyph() if eid == 2001 else g.make(layouts[eid]) if eid in layouts else bytes(rnd.randrange(256) for _ in range(4))
        if len(b) < lim:
            return b
    return None


def records(rnd, ctx, layouts, n):
    out = []
    ids = [i for i in layouts if i not in SKIP]
    for _ in range(n):
        eid = rnd.choice(ids + [2001] * 12 + [rnd.choice([20000, 20001, 3, 32767])] * 4)
        if eid == 2008 and not any(i == 2001 for i, _ in out):
            continue
        b = make(rnd, eid, ctx, layouts)
        if b is not None:
            out.append((eid, b))
    return out


def edit(rnd, es, n0, ctx, layouts):
    """The records with one thing changed, perhaps only in its bytes."""
    es = list(es)
    k = rnd.choice(["same", "value", "value", "value", "swap", "drop", "twice", "add", "byte"])
    if len(es) <= n0:
        k = "add"
    i = rnd.randrange(n0, len(es)) if len(es) > n0 else n0
    if k == "value":
        b = make(rnd, es[i][0], ctx, layouts)
        if b is not None:
            es[i] = (es[i][0], b)
    elif k == "swap" and i + 1 < len(es):
        es[i], es[i + 1] = es[i + 1], es[i]
    elif k == "drop":
        del es[i]
    elif k == "twice":
        es.insert(i, es[i])
    elif k == "add":
        es[i:i] = records(rnd, ctx, layouts, 1)
    elif k == "byte" and es[i][1]:
        b = bytearray(es[i][1])
        j = rnd.randrange(len(b))
        b[j] = (b[j] + rnd.choice([1, 1, 255, 7])) % 256
        es[i] = (es[i][0], bytes(b))
    return es


TEXTS = ["Plain", "Größe", "Café ©", "IBM Plex®", "Ωmega", "Łódź", "naïve – “quoted”", "日本語", "a😀b"]


def unicode_event(rnd):
    """A text in UTF-8, dumped with -u."""
    good = [t.encode("utf-8") for t in TEXTS]
    text = rnd.choice([t for t in good if not set(t) & {0x81, 0x8D, 0x8F, 0x90, 0x9D}])
    ctx = {"masters": 1, "platform": rnd.choice(["macos", "windows"]), "v": 0, "h": 0}
    es = base(ctx) + [(rnd.choice([1024, 1025, 1027, 1028]), text)]
    tmp = tempfile.mkdtemp(prefix="vfbc21.", dir=font.SHM)
    try:
        src = Path(tmp) / "f.vfb"
        src.write_bytes(corpus.file_bytes(es, 0))
        ended, why = cli("vfb2json", ["-u", str(src)])
        try:
            t = json.loads((Path(tmp) / "f.vfb.json").read_text("utf-8"))["entries"][3]["decompiled"]
            out = {"ok": ended == "done" and isinstance(t, str), "text": [ord(c) for c in t]}
        except (OSError, ValueError, KeyError, IndexError, TypeError) as e:
            out = {"ok": False, "text": [], "why": repr(e)}
        return {"k": "unicode", "finding": "unicode-strings", "text": list(text), "out": out, "kept": int(src.read_bytes() == corpus.file_bytes(es, 0))}
    finally:
        shutil.rmtree(tmp)


def context(rnd):
    return {"masters": rnd.choice([1, 1, 2, 3]), "platform": rnd.choice(["macos", "windows"]), "v": rnd.choice([0, 1, 2]),
            "h": rnd.choice([0, 1])}


def large(rnd, tmp):
    """Records longer than what a short length can say."""
    ctx = {"masters": 1, "platform": "macos", "v": 0, "h": 0}
    ev = []
    for n in (65535, 65536, 65537 + rnd.randrange(9000)):
        b = rnd.randbytes(n)
        a = base(ctx) + [(rnd.choice([20000, 31000]), b), (1, b"abc")]
        ev.append(dump_event(rnd, a, 0, ctx))
        ev.append(dump_event(rnd, a, 0, ctx, plain=True))
        for j in (None, 0, n // 2, n - 1):
            x = bytearray(b)
            if j is not None:
                x[j] ^= 1 << rnd.randrange(8)
            ev.append(diff_event(tmp, a, a[:3] + [(a[3][0], bytes(x))] + a[4:], 0, 0, ctx, False))
    # many records, with a difference anywhere or none
    a = base(ctx) + [(rnd.choice([20000, 20001, 31000]), rnd.randbytes(3)) for _ in range(900)]
    for i in (None, rnd.randrange(3, len(a)), len(a) - 1):
        b = list(a)
        if i is not None:
            b[i] = b[i][0], bytes([b[i][1][0] ^ 1]) + b[i][1][1:]
        for html in (False, True):
            ev.append(diff_event(tmp, a, b, 0, 0, ctx, html))
    return ev


def main():
    c = Check("C21")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Dump", "MC_Dump_gen")
    c.model("MC_Dump", g)
    tab = gen.tables()
    layouts = {i: f for k in tab for i, f in tab[k]}
    pairs = tlc.printed(g["out"], "PAIR")
    c.require(len(pairs) > 5000, "model pairs")
    ctx0 = {"masters": 1, "platform": "macos", "v": 0, "h": 0}
    tmp = tempfile.mkdtemp(prefix="vfbc21d.", dir=font.SHM)
    try:
        es = lambda s: [(r["id"], bytes(r["data"])) for r in s]  # noqa: E731
        judge(c, "pairs of the model", [
            diff_event(tmp, es(p["a"]), es(p["b"]), 0, 0, ctx0, html)
            for p, html in [(p, False) for p in (pairs if c.thorough else rnd.sample(pairs, 1500))]
            + [(p, True) for p in rnd.sample(pairs, 3000 if c.thorough else 250)]])
        for _ in range(12 if c.thorough else 1):
            judge(c, "Unicode texts", [unicode_event(rnd) for _ in range(40)])
            judge(c, "large records", large(rnd, tmp))
            ev = []
            for k in range(400):
                ctx = context(rnd)
                a = base(ctx) + records(rnd, ctx, layouts, rnd.choice([0, 1, 2, 4, 6]))
                b = edit(rnd, a, 3, ctx, layouts)
                m = rnd.choice([0, 3])
                ev.append(diff_event(tmp, a, b, m, m if rnd.random() < 0.95 else 5, ctx, k % 8 == 0))
            judge(c, "pairs of files", ev)
            ev = []
            for _ in range(500):
                ctx = context(rnd)
                a = base(ctx) + records(rnd, ctx, layouts, rnd.choice([0, 1, 3, 6, 8]))
                bad = rnd.random() < 0.2
                if bad:
                    a = [(i, gen.mutate(rnd, b)) if i not in CONTEXT and rnd.random() < 0.3 else (i, b) for i, b in a]
                if rnd.random() < 0.3:
                    a.append((2, b""))
                ev.append(dump_event(rnd, a, rnd.choice([0, 1, 77, 255]), ctx, bad))
            judge(c, "dumps", ev)
    finally:
        shutil.rmtree(tmp)
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C21", ev)
    c.judged(name, ev, bad, st)
