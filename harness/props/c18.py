"""C18: conversions are repeatable and leave the font alone."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from vlib import corpus, font, guard, tlc
from vlib.fontgen import FontGen, head
from vlib.report import Check
from .c15 import program
from .c19 import code

NAMES = ("minimal", "base64", "pshints", "add_kerning_groups", "move_groups")
DEFAULT = {"minimal": False, "base64": False, "pshints": True, "add_kerning_groups": False, "move_groups": True}


def digest(v):
    b = v if isinstance(v, bytes) else json.dumps(v, sort_keys=True, default=str).encode()
    return hashlib.md5(b).hexdigest()[:10]


def numbers(v):
    """Whole numbers may be written in two ways."""
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, dict):
        return {k: numbers(x) for k, x in v.items()}
    return [numbers(x) for x in v] if isinstance(v, list) else v


def parts(r, form):
    """What a conversion gave, part by part."""
    if not r["ok"]:
        return [{"a": "failed", "k": "", "d": r["why"]}]
    out = {}

    def add(a, k, v):
        out.setdefault((a, k), []).append(v)
    for m, u in enumerate(r["ufos"]):
        add("font", "problems", u["problems"])
        add("font", "order", u["order"])
        for k, v in u["lib"].items():
            add("lib", k, [m, v])
        for k, v in u["info"].items():
            add("info", k, [m, numbers(v)])
        add("guides", "", [m, u["guides"]])
        add("groups", "", [m, sorted(u["groups"])])
        add("kerning", "", [m, sorted(u["kerning"])])
        add("fea", "", [m, u["fea"], u["hasfea"]])
        for g in u["glyphs"]:
            n = [m, g["name"]]
            for k in ("unicodes", "width", "height", "anchors", "comps", "other"):
                add("glyph", k, n + [g[k]])
            add("gnote", "", n + [g["note"]])
            add("guides", "", n + [g["guides"]])
            add("glyph", "contours", n + [[{k: v for k, v in p.items() if k != "n"} for p in c] for c in g["contours"]])
            add("points", "", n + [[p["n"] for p in c] for c in g["contours"]])
            for k, v in g["lib"].items():
                add("glib", k, n + [g["mark"] if k == "public.markColor" else v])
        add("background", "", [m, u["layers"], u["bg"]])
    for d in r["ds"]:
        for x in d["sources"]:
            x["file"] = os.path.splitext(x["file"])[0]
        add("designspace", "", d)
    return [{"a": a, "k": k, "d": digest(v)} for (a, k), v in sorted(out.items())]


class Session:
    """The real process."""

    def __init__(self, files, names=None):
        self.files = files
        self.v = {}
        self.builder = None
        self.result = []

    def open(self, s, f):
        self.v[s] = (self.files[f - 1], None)

    def vfb(self, s, minimal=False):
        raw, v = self.v[s]
        if v is None:
            v = font.open_raw(raw)
            self.v[s] = (raw, v)
        # the command line tool sets both
        v.minimal = minimal
        return v

    def convert(self, s, o, form):
        tmp = tempfile.mkdtemp(prefix="vfbc18.", dir=font.SHM)

        def run():
            from vfbLib.ufo.builder import VfbToUfoBuilder
            if form != "again":
                self.builder, self.result = None, []
                v = self.vfb(s, o["minimal"])
                v.decompile()
                self.builder = VfbToUfoBuilder(v, normalize=form == "normal", **o)
            p = Path(tmp) / "font.ufo"
            if form in ("masters", "again", "apart"):
                self.result, ds = self.builder.get_ufos_designspace(p, silent=True)
                todo = list(enumerate(self.result))
                for i, u in todo if o["minimal"] or o["pshints"] else todo[::-1]:
                    u.save(self.builder.get_master_path(p, i))
                    if form == "apart":
                        # masters are handed out one by one
                        spoil_font(u)
                if ds is not None:
                    ds.write(p.with_suffix(".designspace"))
                    self.result = self.result + [ds]
            elif form == "zip":
                self.builder.write(p.with_suffix(".ufoz"), silent=True, ufoz=True)
            elif form == "json":
                self.builder.write(p, silent=True, json=True)
                from ufoLib2 import Font
                for n in sorted(os.listdir(tmp)):
                    if n.endswith(".json"):
                        u = Font.json_load(os.path.join(tmp, n))
                        u.save(os.path.join(tmp, n[:-5] + ".ufo"))
            else:
                self.builder.write(p, silent=True)
        try:
            r = guard.call(run, seconds=60)
            if r[0] != "ok":
                return parts({"ok": 0, "why": " ".join(str(x) for x in r[1:])}, form)
            return parts(dict(font.collect(tmp), ok=1), form)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def spoil(self):
        for u in self.result:
            spoil_font(u)

    def save(self, s):
        import io
        b = io.BytesIO()
        r = guard.call(lambda: self.vfb(s).write_bytes(b))
        return digest(b.getvalue()) if r[0] == "ok" else " ".join(str(x) for x in r)

    def say(self, s):
        def run():
            v = self.vfb(s)
            v.decompile()
            return digest(repr(v.as_dict()).encode("utf-8", "surrogatepass"))
        r = guard.call(run)
        return r[1] if r[0] == "ok" else " ".join(str(x) for x in r)


def spoil(x):
    if isinstance(x, dict) or hasattr(x, "items"):
        for v in list(x.values()):
            spoil(v)
        x["spoilt"] = "spoilt"
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoilt")


def spoil_font(u):
    if hasattr(u, "axes"):
        for a in u.axes:
            a.name, a.minimum, a.default, a.maximum = "spoilt", 1, 2, 3
            a.map.append((1, 2))
            a.axisLabels.clear()
        for x in u.sources + u.instances:
            x.location["spoilt"] = 1
        return
    for g in u:
        for c in g.contours:
            for p in c:
                p.x, p.name = 12345, "spoilt"
        for a in g.anchors:
            a.x, a.name = 12345, "spoilt"
        for a in g.guidelines or []:
            a.x, a.name = 12345, "spoilt"
        g.width, g.note = 12345, "spoilt"
        g.unicodes.append(0x1234)
        spoil(g.lib)
    spoil(u.lib)
    spoil(u.groups)
    for k in u.kerning:
        u.kerning[k] = 12345
    u.features.text = "spoilt"
    i = u.info
    i.familyName = "spoilt"
    for k, v in list(vars(i).items() if hasattr(i, "__dict__") else []):
        if isinstance(v, list):
            v.append(1)
    for a in ("openTypeNameRecords", "postscriptBlueValues", "postscriptStemSnapH", "openTypeOS2Panose",
              "openTypeOS2UnicodeRanges", "openTypeOS2CodePageRanges", "openTypeGaspRangeRecords", "guidelines",
              "openTypeHeadFlags", "openTypeOS2Selection", "openTypeOS2Type"):
        v = getattr(i, a, None)
        if isinstance(v, list):
            v.clear()


def rich(rnd):
    """A font with something of everything."""
    m = rnd.choice([1, 1, 1, 2, 2, 4])
    g = FontGen(rnd, m)
    T = g.tthfont(missing=0.1) if rnd.random() < 0.6 else []
    gs = g.glyphs(rnd.choice([2, 3, 4]), comps=True, hints=True, guides=True, kern=True, dup=rnd.choice([0, 0, 0.2]))
    recs = [x["v"] for x in gs if x["k"] == "glyph"]
    if T:
        for x in recs:
            if rnd.random() < 0.6:
                n = sum(len(recs[c["gid"]]["nodes"]) for c in x["comps"]) if x.get("comps") else len(x["nodes"])
                x["tth"] = g.tth(n, T)
            if rnd.random() < 0.15:
                x["prog"] = program(rnd)
    cl, fl = g.classes(list(dict.fromkeys(x["name"] for x in recs)), all_present=True)
    fea = [{"k": "features", "v": code(rnd)}] if rnd.random() < 0.6 else []
    ps = [{"k": "psinfo", "v": g.psinfo()} for _ in range(m)]
    info = g.info(rnd.choice([0.1, 0.5]))
    gl = [{"k": "guides", "v": g.guide_lists(2)}] if rnd.random() < 0.6 else []
    if gl and rnd.random() < 0.7:
        gl.append({"k": "guideprops", "v": g.guide_props(gl[0]["v"])})
    nums = g.psnums()
    info = [x for x in info if x["k"] not in {y["k"] for y in nums + T}]
    info = [{"k": "tti", "v": g.tti(True)} if x["k"] == "tti" else x for x in info]  # only complete ones can be encoded
    return head(m, psinfo=ps) + nums + info + gl + T + gs + cl + fl + fea


def options(rnd):
    o = dict(DEFAULT)
    for k in NAMES:
        if rnd.random() < 0.3:
            o[k] = not o[k]
    return o


FORMS = ("plain", "normal", "json", "zip")


def trace(rnd, h, files, opts):
    """A history of the model, or a longer one, in the real process."""
    S = Session(files)
    ev = []
    f = {1: 1, 2: 2}
    for s in (1, 2):
        S.open(s, f[s])
        ev.append({"op": "open", "s": s, "f": f[s]})
    last, last_s = None, 1
    for x in h:
        op, s = x["op"], x["s"]
        e = {"op": op, "s": s, "f": 0, "form": x["form"], "o": DEFAULT, "parts": [], "d": ""}
        if op == "open":
            S.open(s, f[s])
            e["f"] = f[s]
        elif op == "convert":
            e["form"] = rnd.choice(FORMS) if x["form"] == "write" else x["form"]
            o = last if e["form"] == "again" else opts[x["o"] - 1]
            if e["form"] == "again":
                if S.builder is None:
                    continue
                e["s"] = s = last_s
            last, last_s = o, s
            e["o"] = o
            e["parts"] = S.convert(s, o, e["form"])
        elif op == "spoil":
            S.spoil()
        elif op == "save":
            e["d"] = S.save(s)
        elif op == "say":
            e["d"] = S.say(s)
        ev.append(e)
    return [dict({"form": "", "o": DEFAULT, "parts": [], "d": ""}, **e) for e in ev]


def reference(files, opts):
    """The same conversions in a process of their own, with another hash seed."""
    ev = []
    for i, raw in enumerate(files):
        for o in opts:
            S = Session(files)
            S.open(3, i + 1)
            ev.append({"op": "convert", "s": 3, "f": i + 1, "form": "process", "o": o, "parts": S.convert(3, o, "masters"), "d": ""})
        for k in ("read", "encoded"):
            S = Session(files)
            S.open(3, i + 1)
            # both what saving gives, and what the font says, without any conversion
            ev.append({"op": "open", "s": 3, "f": i + 1, "form": "", "o": DEFAULT, "parts": [], "d": ""})
            if k == "encoded":
                ev.append({"op": "say", "s": 3, "f": 0, "form": "", "o": DEFAULT, "parts": [], "d": S.say(3)})
            ev.append({"op": "save", "s": 3, "f": 0, "form": "", "o": DEFAULT, "parts": [], "d": S.save(3)})
    return ev


def work(job):
    """A batch of histories; run as a process of its own."""
    rnd = random.Random(job["seed"])
    out = []
    for j in job["jobs"]:
        files = [bytes.fromhex(x) for x in j["files"]]
        out.append(reference(files, j["opts"]) if j["h"] is None else trace(rnd, j["h"], files, j["opts"]))
    return out


def spawn(jobs, seed, hashseed):
    src = os.path.join(os.environ.get("VFB_REPO", "/repo"), "src")
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", "-m", "props.c18"], input=json.dumps({"seed": seed, "jobs": jobs}), env=env,
                       capture_output=True, text=True, timeout=800, cwd=os.path.join(os.path.dirname(__file__), ".."))
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout.splitlines()[-1])


def long_history(rnd):
    h = []
    for _ in range(rnd.choice([6, 9])):
        op = rnd.choice(["convert", "convert", "convert", "again", "spoil", "save", "say", "open"])
        h.append({"op": "convert" if op == "again" else op, "s": rnd.choice([1, 2]), "o": rnd.choice([1, 2, 3]),
                  "form": "again" if op == "again" else rnd.choice(["masters", "apart", "write"])})
    return h


def histories(c, rnd, hs, name, samples=None):
    jobs = []
    for h in hs:
        fs = rnd.sample(samples, 2) if samples else [font.encode(rich(rnd)), font.encode(rich(rnd))]
        jobs.append({"h": h, "files": [b.hex() for b in fs], "opts": [options(rnd) for _ in range(3)]})
    refs = [dict(j, h=None) for j in jobs]
    k = 8
    chunk = lambda xs: [xs[i::k] for i in range(k)]  # noqa: E731
    with ThreadPoolExecutor(8) as ex:
        a = [ex.submit(spawn, x, rnd.randrange(10**6), 100 + i) for i, x in enumerate(chunk(jobs))]
        b = [ex.submit(spawn, x, rnd.randrange(10**6), 200 + i) for i, x in enumerate(chunk(refs))]
        a, b = [x.result() for x in a], [x.result() for x in b]
    judge(c, name, [{"h": x + y} for p, q in zip(a, b) for x, y in zip(p, q)])


def main():
    c = Check("C18")
    rnd = random.Random(c.seed)
    g = tlc.check("MC_Session", "MC_Session_gen")
    c.model("MC_Session", g)
    if c.thorough:
        c.model("MC_Session_thorough", tlc.check("MC_Session", "MC_Session_thorough", timeout=3000))
    # the model can see the leaks it is about
    for k in ("MC_Session_leak1", "MC_Session_leak2", "MC_Session_leak3"):
        c.require(not tlc.check("MC_Session", k, expect_ok=False)["ok"], "sharing is harmless in " + k)
    hs = tlc.printed(g["out"], "HISTORY")
    c.require(len(hs) > 10000, "model histories")
    good = [h for h in hs if sum(x["op"] == "convert" for x in h) >= 2]
    for _ in range(10 if c.thorough else 1):
        histories(c, rnd, rnd.sample(good, 240), "histories of the model")
        histories(c, rnd, [long_history(rnd) for _ in range(120)], "long histories")
    small = [b for b in (Path(p).read_bytes() for p in corpus.files()) if len(b) < 40000]
    histories(c, rnd, [long_history(rnd) for _ in range(len(small) * (4 if c.thorough else 1))], "histories of sample files",
              small)
    c.finish()


def judge(c, name, ev):
    bad, st = tlc.judge("C18", ev)
    c.judged(name, ev, bad, st)


if __name__ == "__main__":
    job = json.loads(sys.stdin.read())
    with guard.quiet():
        out = work(job)
    print(json.dumps(out))
