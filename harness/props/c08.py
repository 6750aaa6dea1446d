"""C08: output files and folders."""
import collections
import hashlib
import itertools
import os
import random
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from vlib import build, font, guard, tlc
from vlib.report import Check

OLD = b"something that was here before\n"


def sample(n):
    """A font with n masters with something for every command to do."""
    m = n
    F = [{"k": "flversion", "v": "macos"}, {"k": "masters", "v": m}, {"k": "family_name", "v": "Te"},
         {"k": "upm", "v": 1000}]
    F += [{"k": "mastername", "v": f"M{i}"} for i in range(m)]
    F += [{"k": "location", "v": {"index": i + 1, "loc": [1000 * i, 0, 0, 0]}} for i in range(m)]
    if m > 1:
        F += [{"k": "axiscount", "v": 1}, {"k": "axis", "v": "Weight"}, {"k": "mapcounts", "v": [2, 0, 0, 0]},
              {"k": "maps", "v": [[0, 0], [1000, 1000]] + [[0, 0]] * 38}]
    F += [{"k": "stemppms", "v": {"v": [[20, 30, 40, 50]], "h": []}}, {"k": "psinfo", "v": {}}] + [{"k": "psinfo", "v": {}}] * (m - 1)
    F += [{"k": "stems", "v": {"v": [{"w": 80, "name": "V1", "r6": 60}], "h": []}},
          {"k": "zones", "v": {"t": [{"pos": 500, "w": 10, "name": "x"}], "b": []}},
          {"k": "zonedeltas", "v": [[0, 12, 1]]}]
    p = lambda d: [[[100 + d, 700], [30, 20 + d], [60, 400]]]  # noqa: E731
    nodes = [{"t": "move", "f": 0, "p": [[[d, 0]] for d in range(m)]},
             {"t": "curve", "f": 0, "p": [p(d)[0] for d in range(m)]},
             {"t": "line", "f": 0, "p": [[[300 + d, 0]] for d in range(m)]}]
    for name in "AB":
        F += [{"k": "glyph", "v": {"name": name, "nodes": nodes, "adv": [[500, 0]] * m,
                                   "tth": [{"cmd": "AlignTop", "pt": 1, "zone": 0}]}},
              {"k": "unicodes", "v": [ord(name)]}]
    return font.encode(F)


def digest(p):
    """The content of a file or folder."""
    p = str(p)
    if not os.path.lexists(p):
        return None
    if os.path.isfile(p):
        with open(p, "rb") as f:
            b = f.read()
        if b[:2] == b"PK":   # times are stored in zip files
            t = font.Tree(p)
            return "z" + hashlib.md5(repr([(n, t.get(n)) for n in t.names()]).encode()).hexdigest()
        if b"<designspace" in b[:200]:   # source paths are written as they were given
            d = font.project_ds(p)
            for s in d["sources"]:
                s["file"] = os.path.basename(s["file"])
            return "f" + hashlib.md5(repr(d).encode()).hexdigest()
        return "f" + hashlib.md5(b).hexdigest()
    out = []
    for d, ds, fs in os.walk(p):
        ds.sort()
        out += [(os.path.relpath(os.path.join(d, f), p), digest(os.path.join(d, f))) for f in sorted(fs)]
    return "d" + hashlib.md5(repr(out).encode()).hexdigest()


def make_old(p, rnd):
    p = str(p)
    if p.endswith(".ufo") or (p.endswith("font") and rnd.random() < 0.5):
        os.makedirs(p + "/glyphs")
        for f in ("metainfo.plist", "leftover.txt", "glyphs/old.glif"):
            with open(f"{p}/{f}", "wb") as h:
                h.write(OLD)
    else:
        with open(p, "wb") as h:
            h.write(OLD)


ARGS = {"ufo": ("vfb3ufo", ["-n"]), "ufoz": ("vfb3ufo", ["-z"]), "json": ("vfb3ufo", ["-j"]), "cu2qu": ("vfbcu2qu", []),
        "dump": ("vfb2json", []), "tth": ("vfb2tth", [])}


def entry_point(name):
    from vfbLib import cmdline, cu2qu, tth
    return {"vfb3ufo": cmdline.vfb2ufo, "vfb2json": cmdline.vfb2json, "vfbcu2qu": cu2qu.vfbcu2qu, "vfb2tth": tth.vfb2tth}[name]


def cli(name, args, inproc=True):
    if inproc:
        old = sys.argv
        sys.argv = [name] + args
        try:
            r = guard.call(entry_point(name), seconds=60)
        finally:
            sys.argv = old
        if r[0] == "ok" or r[1:] == ("SystemExit", "None") or r[1:] == ("SystemExit", "0"):
            return "done", ""
        return "raised", " ".join(str(x) for x in r[1:])
    mod, fn = {"vfb3ufo": ("cmdline", "vfb2ufo"), "vfb2json": ("cmdline", "vfb2json"), "vfbcu2qu": ("cu2qu", "vfbcu2qu"),
               "vfb2tth": ("tth", "vfb2tth")}[name]
    env = dict(os.environ, PYTHONPATH=os.path.join(os.environ.get("VFB_REPO", "/repo"), "src"), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", "-c",
                        f"import sys; sys.argv[0]={name!r}; from vfbLib.{mod} import {fn}; sys.exit({fn}())"] + args,
                       capture_output=True, text=True, timeout=120, env=env)
    return ("done" if p.returncode == 0 else "raised"), p.stderr[-300:]


STEMS = ("font", "my.font", "v1.0 font")


def run(cfg, exp, before, src, ref, rnd, inproc=True, stem=None):
    """One run of a tool.  The source and all that belongs to it are called after the stem."""
    stem = stem or rnd.choice(STEMS)
    real = {p: stem + p[4:] if p.startswith("font") else p for p in before}
    tmp = tempfile.mkdtemp(prefix="vfbc08.", dir=font.SHM)
    try:
        indir, out = Path(tmp) / "in", Path(tmp) / ("out" if cfg["dir"] == "out" else "in")
        indir.mkdir()
        out.mkdir(exist_ok=True)
        source = indir / f"{stem}.vfb"
        for p, st in before.items():
            if st == "old" and not (p == "font.vfb" and cfg["dir"] != "out"):
                make_old(out / real[p], rnd)
        source.write_bytes(src)
        was = {p: digest(out / real[p]) for p in before}
        src_was = digest(source)
        names = set(os.listdir(out)) | {f"{stem}.vfb"}
        if cfg["tool"] == "save":
            target = out / f"{stem}.vfb"

            def save():
                v = build.vfb_class()(source, timing=False)
                v.decompile()
                if cfg["fail"]:
                    e = rnd.choice([x for x in v.entries if x.id in (1027, 1504, 2001)])
                    e.data = "\u0416" if e.id != 2001 else dict(e.data, name="\u0416")
                v.write(target)
            r = guard.call(save, seconds=30)
            ended, why = ("done", "") if r[0] == "ok" else ("raised", str(r[1:]))
        else:
            name, args = ARGS[cfg["tool"]]
            args = list(args) + (["-p", str(out)] if cfg["dir"] != "no" else []) + (["-fo"] if cfg["force"] else []) + [str(source)]
            ended, why = cli(name, args, inproc)
        obs = {}
        new = ref[cfg["tool"], cfg["n"], stem] if ref else None
        for p in before:
            d = digest(out / real[p])
            obs[p] = ("none" if d is None else "old" if d == was[p] else
                      "new" if new is None or d == new.get(p, new.get("font.vfb") if p == "font.qu.vfb" else None) else "other")
        if ref is None:
            return {p: digest(out / real[p]) for p in before if digest(out / real[p])}, ended, why
        # the source may be the announced output itself
        inplace = out == indir and (cfg["tool"] == "save" or (cfg["tool"] == "cu2qu" and cfg["dir"] == "same"))
        return {"exp": exp, "obs": obs, "ended": ended, "why": why,
                "extra": sorted(set(os.listdir(out)) - set(real.values()) - names),
                "source": "old" if inplace or digest(source) == src_was else "changed"}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    c = Check("C08")
    rnd = random.Random(c.seed)
    st = tlc.check("Outputs")
    c.model("output locations", st)
    cases = tlc.printed(st["out"], "O")
    c.require(len(cases) > 200, "configurations")
    # the sources: saving an unchanged file gives other bytes than the file (long number forms)
    srcs = {n: sample(n) for n in (1, 2)}
    ref = {}
    empty = {p: "none" for p in cases[0]["fs"]}
    for tool in ("ufo", "ufoz", "json", "cu2qu", "dump", "tth", "save"):
        for n, stem in itertools.product((1, 2), STEMS):
            r, ended, why = run({"tool": tool, "n": n, "dir": "out", "force": False, "fail": False}, None, empty, srcs[n], None, rnd,
                                stem=stem)
            if ended != "done":
                c.violation(f"{tool}: the command does not work: {why}", {"tool": tool, "masters": n})
            ref[tool, n, stem] = r
    events = []
    for case in cases:
        # in place, a saved file need not differ from the source
        events.append(run(case["cfg"], case, case["before"], srcs[case["cfg"]["n"]], ref, rnd))
        e = events[-1]
        if case["cfg"]["tool"] == "save" and e["obs"]["font.vfb"] == "old" and case["pc"] == "done" and case["cfg"]["dir"] != "out":
            e["obs"]["font.vfb"] = "new"
    for case in rnd.sample(cases, 10 if not c.thorough else 60):   # through the shell
        if case["cfg"]["tool"] != "save":
            events.append(run(case["cfg"], case, case["before"], srcs[case["cfg"]["n"]], ref, rnd, inproc=False))
    bad, st = tlc.judge("C08", events)
    c.judged("commands", events, bad, st)
    kinds = collections.Counter((e["exp"]["cfg"]["tool"], e["exp"]["pc"]) for e in events)
    c.extra["runs"] = {f"{a} {b}": n for (a, b), n in sorted(kinds.items())}
    c.finish()
