"""C22: cubic to quadratic."""
import contextlib
import hashlib
import io
import json
import math
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

from vlib import build, corpus, font, guard, tlc
from vlib.report import Check
from .c09 import head
from .c10 import dangles
from .c18 import rich


def digest(v):
    return hashlib.md5(json.dumps(v, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")).hexdigest()[:10]


def look(raw):
    """(outlines of the glyphs, what else the font says, record by record, units per em)"""
    v = build.read(raw)
    v.decompile()
    gs, rec, upm = [], [], 0
    for e in v.entries:
        d = e.data
        if e.key == "Glyph" and isinstance(d, dict):
            ns = d.get("nodes", [])
            gs.append([{"t": n["type"], "f": n["flags"], "p": [[list(q) for q in p] for p in n["points"]]} for n in ns])
            # a new outline has no hints
            rec.append(["Glyph", digest({k: x for k, x in d.items() if k != "nodes" and not (ns and k == "hints")})])
        elif e.key == "upm":
            upm = d
            rec.append([e.key, digest(d)])
        elif e.key == "Links":
            rec.append(["Links", ""])
        else:
            rec.append([str(e.key), digest(d.hex() if isinstance(d, bytes) else d)])
    return gs, rec, upm, v


def possible(gs, err):
    """Does the library the command is built on find approximations of all curves?"""
    from fontTools.cu2qu import curves_to_quadratic
    from fontTools.cu2qu.errors import ApproxNotFoundError
    for ns in gs:
        last = None
        for n in ns:
            if n["t"] == "curve":
                cs = [[tuple(a[0])] + [tuple(p[i]) for i in (1, 2, 0)] for a, p in zip(last["p"], n["p"])]
                try:
                    curves_to_quadratic(cs, [err] * len(cs), True)
                except ApproxNotFoundError:
                    return False
            last = n
    return True


def run(raw, rnd, plain=False):
    from vfbLib.cu2qu import vfbcu2qu
    gs, rec, upm, _ = look(raw)
    rel = None if plain else rnd.choice([None, None, 0.0005, 0.002, 0.01])
    err = (rel or 0.001) * upm
    d = tempfile.mkdtemp(prefix="vfbc22.", dir=font.SHM)
    try:
        src = Path(d) / rnd.choice(["font.vfb", "My Font.vfb", "a.b.vfb"])
        src.write_bytes(raw)
        args, out = ["vfbcu2qu", str(src)], src.with_suffix(".qu.vfb")
        if rel:
            args += ["-m", str(rel)]
        if rnd.random() < 0.3:
            (Path(d) / "out").mkdir()
            args += ["-p", str(Path(d) / "out")]
            out = Path(d) / "out" / src.name
        e = {"exists": not plain and rnd.random() < 0.15, "force": rnd.random() < 0.3, "tol": math.ceil(err * 64), "src": gs,
             "rec": [x for x in rec if x[0] != "Links"], "approx": possible(gs, err), "out": [], "orec": [], "read": False,
             "again": False, "why": ""}
        if e["exists"]:
            out.write_bytes(b"earlier work")
        if e["force"]:
            args.append("-fo")

        def call():
            old = sys.argv
            sys.argv = args
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    vfbcu2qu()
            finally:
                sys.argv = old
        r = guard.call(call, seconds=120)
        if r[0] != "ok":
            e["why"] = " ".join(str(x) for x in r[1:])[-200:]
        new = out.exists() and out.read_bytes() != b"earlier work"
        e["did"] = "saved" if new else "refused" if r[0] != "ok" else "nothing"
        if r[0] != "ok" and new:
            e["did"] = "failed and saved"
        e["same"] = src.read_bytes() == raw
        e["stray"] = sorted(str(p.relative_to(d)) for p in Path(d).rglob("*") if p.is_file() and p not in (src, out))
        if new:
            b = out.read_bytes()
            x = guard.call(lambda: look(b))
            if x[0] == "ok":
                e["read"] = True
                e["out"], e["orec"] = x[1][0], x[1][1]
                s = io.BytesIO()
                y = guard.call(lambda: x[1][3].write_bytes(s))
                e["again"] = y[0] == "ok" and guard.call(lambda: look(s.getvalue())[:2])[1] == x[1][:2]
            else:
                e["why"] = " ".join(str(z) for z in x[1:])[-200:]
        return e
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------ outlines a designer draws

def contour(rnd, m):
    """Points around a centre, in every master at some distance of each other."""
    n = rnd.choice([2, 3, 4, 6])
    opened = rnd.random() < 0.15
    cx, cy = rnd.randint(-300, 700), rnd.randint(-200, 700)
    turn = rnd.choice([1, -1])
    per = []
    for _ in range(m):
        rx, ry = rnd.randint(60, 400), rnd.randint(60, 400)
        dx, dy = rnd.randint(-40, 40), rnd.randint(-40, 40)
        per.append([(cx + dx + rx * math.cos(turn * 2 * math.pi * i / n), cy + dy + ry * math.sin(turn * 2 * math.pi * i / n)) for i in range(n)])
    at = lambda i: [[round(c) for c in p[i % n]] for p in per]  # noqa: E731
    nodes = [{"t": "move", "f": rnd.choice([0, 1]) + (8 if opened else 0), "p": [[q] for q in at(0)]}]
    for i in range(1, n if opened else n + 1):
        t = rnd.choice(["line", "curve", "curve", "curve", "qcurve"])
        last = i == n
        a, b = at(i - 1), at(i)
        if last and t == "line" and rnd.random() < 0.6:
            continue
        if last and t == "line" and rnd.random() < 0.5 and m > 1:  # a gap in one master
            b = [[x + (k == m - 1) * 7, y] for k, (x, y) in enumerate(b)]
        if t == "curve":
            hs = []
            for (x0, y0), (x1, y1) in zip(a, b):
                f, g, s = rnd.uniform(0.2, 0.5), rnd.uniform(0.2, 0.5), turn * rnd.uniform(-0.05, 0.3)
                ux, uy = x1 - x0, y1 - y0
                hs.append([[round(x0 + f * ux + s * uy), round(y0 + f * uy - s * ux)], [round(x1 - g * ux + s * uy), round(y1 - g * uy - s * ux)]])
            nodes.append({"t": "curve", "f": rnd.choice([0, 1]), "p": [[q] + h for q, h in zip(b, hs)]})
        else:
            if t == "qcurve":
                for k in range(rnd.choice([1, 2, 3])):
                    o = [[[round((x0 + x1) / 2 + rnd.randint(-60, 60)), round((y0 + y1) / 2 + rnd.randint(-60, 60))]]
                         for (x0, y0), (x1, y1) in zip(a, b)]
                    nodes.append({"t": "qcurve", "f": 0, "p": o})
            if last and t == "qcurve" and rnd.random() < 0.5:
                continue
            nodes.append({"t": "line", "f": rnd.choice([0, 0, 1]), "p": [[q] for q in b]})
    return nodes


def outline(rnd, m):
    k = rnd.choice([0, 1, 1, 2, 3])
    out = [n for _ in range(k) for n in contour(rnd, m)]
    if rnd.random() < 0.1:
        out.append({"t": "move", "f": rnd.choice([0, 8]), "p": [[[rnd.randint(0, 99), 7]] for _ in range(m)]})
    return out


def designed(rnd):
    """A font with something of everything and outlines as they are drawn."""
    F = rich(rnd)
    m = font.masters(F)
    none = rnd.random() < 0.06
    if not any(x["k"] == "upm" for x in F):
        F.insert(3 * m, {"k": "upm", "v": 1000})
    for x in F:
        if x["k"] == "upm":
            x["v"] = rnd.choice([1000, 1000, 2048, 256])
        if x["k"] == "glyph":
            x["v"]["nodes"] = [] if none else outline(rnd, m)
            if none:
                x["v"].pop("hints", None)
            if not x["v"]["nodes"] and "hints" in x["v"]:
                x["v"]["hints"]["masks"] = []
    return font.encode(F)


def of_model(outs, m):
    F = head(m) + [{"k": "upm", "v": 1000}]
    F += [{"k": "glyph", "v": {"name": f"g{i:04}", "nodes": n, "adv": [[500 + i, 0]] * m}} for i, n in enumerate(outs)]
    return font.encode(F)


def main():
    c = Check("C22")
    rnd = random.Random(c.seed)
    c.model("MC_Quad", tlc.check("MC_Quad", "MC_Quad_thorough" if c.thorough else "MC_Quad"))
    g = tlc.check("MC_Quad", "MC_Quad_gen")
    c.model("MC_Quad_gen", g)
    outs = tlc.printed(g["out"], "OUTLINE")
    c.require(len(outs) > 500, "model outlines")
    # (outlines whose curves have no approximation are left to fonts of their own)
    good = [n for n in outs if possible([n], 1.0)]
    c.require(len(good) > 200, "model outlines with approximations")
    bad = [n for n in outs if n not in good]
    one = lambda n: [{**x, "p": x["p"][:1]} for x in n]  # noqa: E731
    ev = [run(of_model(good[i:i + 25], 2), rnd, True) for i in range(0, len(good), 25)]
    ev += [run(of_model([one(n) for n in good[i:i + 25]], 1), rnd, True) for i in range(0, len(good), 25)]
    ev += [run(of_model([n], 2), rnd, True) for n in rnd.sample(bad, min(len(bad), 20))]
    judge(c, "outlines of the model", ev)
    ev = [run(designed(rnd), rnd) for _ in range(2500 if c.thorough else 220)]
    c.require(sum(e["approx"] and not (e["exists"] and not e["force"]) for e in ev) > len(ev) * 0.6, "fonts that can be converted")
    judge(c, "designed fonts", ev)
    ev = [run(of_model([outline(rnd, m) for _ in range(rnd.choice([1, 3]))], m), rnd)
          for m in (3, 4, 5, 6, 8, 16) * (1 if not c.thorough else 20)]
    judge(c, "many masters", ev)
    ev = []
    for p in corpus.files():
        b = Path(p).read_bytes()
        if len(b) < (10**7 if c.thorough else 60000):
            r = guard.call(lambda: look(b))
            if r[0] == "ok" and r[1][2] > 0 and not any(ns and ns[0]["t"] != "move" or dangles(ns) for ns in r[1][0]):
                ev.append(run(b, rnd, True))
    judge(c, "sample files", ev)
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C22", ev)
    c.judged(name, ev, bad, st)


if __name__ == "__main__":
    main()
