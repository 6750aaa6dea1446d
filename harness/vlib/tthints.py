"""TrueType hints as the code under test exports them."""
import hashlib
import json
import os
import shutil
import sys
import tempfile

from . import font, guard


FORMS = (None, None, "json", "toml", "yaml")


def code(asm):
    """The bytes of an assembly listing."""
    from fontTools.ttLib.tables.ttProgram import Program
    p = Program()
    p.fromAssembly(asm)
    return list(p.getBytecode())


def fontlib(lib):
    """The TrueType hints in the lib of a font."""
    tt = lib.get("com.fontlab.v2.tth", {})
    st, zn = font.tt_lib(tt)
    ins = lib.get("public.truetype.instructions", {})
    cv = ins.get("controlValue", {})
    cvt = [cv.get(str(i), "missing") for i in range(len(cv))]
    return {"stems": st, "zones": zn, "limits": {k: v for k, v in tt.items() if k not in ("stems", "zones")},
            "cvt": cvt, "prep": [code(ins["controlValueProgram"])] if "controlValueProgram" in ins else [],
            "fpgm": [code(ins["fontProgram"])] if "fontProgram" in ins else [],
            "maxp": {k: v for k, v in ins.items() if k.startswith("max")}}


def glyph(g):
    """The hints of a projected glyph."""
    ins = g["lib"].get("public.truetype.instructions")
    return {"name": g["name"], "tth": g["tth"], "tthbad": g["tthbad"], "ttform": g["ttform"],
            "prog": [] if ins is None else [code(ins["assembly"])],
            "contours": [[{k: p[k] for k in "nxyt"} for p in c] for c in g["contours"]],
            "width": g["width"], "comps": [{k: c[k] for k in ("base", "x", "y", "sx", "sy")} for c in g["comps"]]}


def identify(gs):
    """How the instructions identify the outline of their glyph; long texts are told
    by their digest."""
    by = {g["name"]: g for g in gs}

    def draw(g):
        return "".join("".join(f"{p['t'][0]}{p['x']}{p['y']:+}" for p in c) + "|" for c in g["contours"]) + "".join(
            f"[{draw(by[c['base']])}({c['sx'] / 1000:+g}+0+0{c['sy'] / 1000:+g}{c['x']:+}{c['y']:+})]" for c in g["comps"])
    for g in gs:
        ins = g["lib"].get("public.truetype.instructions")
        t = "" if ins is None else f"w{g['width']}" + draw(g)
        yield [] if ins is None else [str(ins.get("id", "")), t, hashlib.sha512(t.encode()).hexdigest()]


def export(raw):
    """What vfb2tth extracts."""
    from vfbLib.tth import extract_truetype_hinting
    from . import build
    v = build.read(raw, minimal=True, unicode_strings=True)
    return exported(extract_truetype_hinting(v))


def written(raw, form):
    """What vfb2tth writes."""
    from vfbLib.tth import vfb2tth
    tmp = tempfile.mkdtemp(prefix="vfbtthc.", dir=font.SHM)
    old = sys.argv
    try:
        src = os.path.join(tmp, "my font.vfb")
        with open(src, "wb") as f:
            f.write(raw)
        sys.argv = ["vfb2tth", "-f", form, src]
        vfb2tth()
        p = os.path.join(tmp, "my font.tth." + form)
        with open(p, "rb") as f:
            b = f.read()
        if form == "toml":
            import tomllib
            d = tomllib.loads(b.decode("utf-8"))
        elif form == "yaml":
            import yaml
            d = yaml.safe_load(b.decode("utf-8"))
        else:
            d = json.loads(b.decode("utf-8"))
        return exported(d)
    finally:
        sys.argv = old
        shutil.rmtree(tmp, ignore_errors=True)


def exported(d):
    f = d["font"]
    st, zn = font.tt_lib(f)
    return {"ok": True, "why": "", "stems": st, "zones": zn,
            "limits": {k: v for k, v in f.items() if k in ("stemsnaplimit", "zoneppm", "codeppm", "dropoutppm")},
            "gasp": [[k, v] for k, v in f.get("gasp", {}).items()],
            "upm": [f["head_units_per_em"]] if "head_units_per_em" in f else [],
            "lowest": [f["head_lowest_rec_ppem"]] if "head_lowest_rec_ppem" in f else [],
            "glyphs": {n: [[[k, str(v).lower() if isinstance(v, bool) else str(v)] for k, v in c.items()] for c in p]
                       for n, p in d["glyphs"].items()}}


def run(F, seconds=60, form=None, **o):
    """The font as UFOs, as JSON and as exported hints; form: also as a file."""
    raw = font.encode(F)
    r = font.convert_raw(raw, seconds, **o)
    tmp = tempfile.mkdtemp(prefix="vfbtth.", dir=font.SHM)

    def dump():
        font.write_ufos(font.open_raw(raw, minimal=o.get("minimal", False)), tmp, json=True, normalize=False,
                        **{k: v for k, v in o.items() if k in ("minimal", "base64", "pshints")})
        out = []
        for n in sorted(x for x in os.listdir(tmp) if x.endswith(".json")):
            with open(os.path.join(tmp, n), "rb") as f:
                out.append(fontlib(json.load(f).get("lib", {})))
        return out
    try:
        j = guard.call(dump, seconds=seconds)
        t = guard.call(lambda: export(raw), seconds=seconds)
        w = guard.call(lambda: written(raw, form), seconds=seconds) if form else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ok = bool(r["ok"]) and j[0] == "ok"
    return {"ok": ok, "why": r["why"] + ("" if j[0] == "ok" else str(j[1:])), "ufos": r["ufos"],
            "json": j[1] if ok else [],
            "tth": t[1] if t[0] == "ok" else {"ok": False, "why": str(t[1:])},
            "file": [] if w is None else [w[1] if w[0] == "ok" else {"ok": False, "why": str(w[1:])}]}
