"""Abstract fonts: a list of records {"k": kind, "v": value} in file order, their bytes
(written independently of the code under test), and the conversion by the code under test.

Reals are kept as scaled integers: angles as slopes * 10000, scales * 1000, master and
instance locations * 1000.
"""
import base64
import json
import os
import plistlib
import re
import shutil
import struct
import tempfile
import xml.etree.ElementTree as ET
import zipfile
import zlib
from pathlib import Path

from . import corpus, guard
from .gen import num

CMD = {"move": 0, "line": 1, "curve": 3, "qcurve": 4}
TTOPS = {1: ("AlignTop", "pt zone"), 2: ("AlignBottom", "pt zone"), 3: ("SingleLinkH", "pt1 pt2 stem align"),
         4: ("SingleLinkV", "pt1 pt2 stem align"), 5: ("DoubleLinkH", "pt1 pt2 stem"),
         6: ("DoubleLinkV", "pt1 pt2 stem"), 7: ("AlignH", "pt align"), 8: ("AlignV", "pt align"),
         13: ("InterpolateH", "pti pt1 pt2 align"), 14: ("InterpolateV", "pti pt1 pt2 align"),
         20: ("MDeltaH", "pt shift ppm1 ppm2"), 21: ("MDeltaV", "pt shift ppm1 ppm2"),
         22: ("FDeltaH", "pt shift ppm1 ppm2"), 23: ("FDeltaV", "pt shift ppm1 ppm2")}
TTNO = {v[0]: k for k, v in TTOPS.items()}


def txt(s):
    return s.encode("cp1252")


def pstr(s):
    return num(len(txt(s))) + txt(s)


def bstr(s):
    return bytes([len(txt(s))]) + txt(s)


def f64(x):
    return struct.pack("<d", x)


def outlines(nodes, m):
    out = b""
    pos = [[0, 0] for _ in range(m)]
    nv = 0
    for n in nodes:
        k = len(n["p"][0])
        out += bytes([n["f"] * 16 + CMD[n["t"]]])
        for i in range(k):
            for j in range(m):
                x, y = n["p"][j][i]
                out += num(x - pos[j][0]) + num(y - pos[j][1])
                pos[j] = [x, y]
        nv += 1 + 2 * k * m
    return num(m) + num(2 * nv) + num(len(nodes)) + out


def guides(g):
    out = b""
    for d in "hv":
        out += num(len(g[d]))
        for per in g[d]:
            out += b"".join(num(p) + num(t) for p, t in per)
    return out


def glyph(g, m):
    s = b"\x01\x09\x07\x01"
    s += b"\x01" + pstr(g["name"]) + b"\x08" + outlines(g["nodes"], m)
    s += b"\x02" + b"".join(num(w) + num(h) for w, h in g["adv"])
    if "hints" in g:
        s += b"\x03"
        for d in "hv":
            s += num(len(g["hints"][d])) + b"".join(num(p) + num(w) for st in g["hints"][d] for p, w in st)
        ms = g["hints"]["masks"]
        s += num(len(ms)) + b"".join(bytes([{"h": 1, "v": 2, "r": 255}[k]]) + num(i) for k, i in ms)
    if "guides" in g:
        s += b"\x04" + guides(g["guides"])
    if "comps" in g:
        s += b"\x05" + num(len(g["comps"]))
        for c in g["comps"]:
            fine = c.get("f") or [[0, 0]] * len(c["m"])
            s += num(c["gid"]) + b"".join(num(x) + num(y) + f64((sx * 1000 + a) / 10**6) + f64((sy * 1000 + b) / 10**6)
                                          for (x, y, sx, sy), (a, b) in zip(c["m"], fine))
    if "kern" in g:
        s += b"\x06" + num(len(g["kern"])) + b"".join(num(r) + b"".join(num(v) for v in vs) for r, vs in g["kern"])
    if "prog" in g:
        s += (b"\x09\x29" + num(g["adv"][0][0]) + num(0) * 8 + b"\x2a" + num(0) + num(0)
              + b"\x2b" + num(len(g["prog"])) + bytes(g["prog"]) + b"\x2c\x8b\x28")
    if "tth" in g:
        body = num(len(g["tth"])) + b"".join(
            bytes([TTNO[c["cmd"]]]) + b"".join(num(c[a]) for a in TTOPS[TTNO[c["cmd"]]][1].split())
            for c in g["tth"]) + b"\x8b\x8b\x8b"
        s += b"\x0a" + num(len(body)) + body
    return s + b"\x0f"


def props(v):
    out = b""
    for d in "hv":
        for p in v[d]:
            c = p["color"]
            out += num(p["index"]) + (num(-1) if c == [] else b"\xff\x00" + bytes(reversed(c))) + pstr(p["name"])
        out += num(0)
    return out


def u16(v):
    return struct.pack("<H", v & 0xFFFF)


def s32(v):
    return struct.pack("<i", v)


def psinfo(v):
    def arr(k, n):
        return b"".join(s32(x) for x in (v.get(k, []) + [0] * n)[:n])
    out = b"".join(f64(x) for x in (0.001, 0, 0, 0.001, 0, 0)) + s32(v.get("force_bold", 0))
    out += arr("blue_values", 14) + arr("other_blues", 10) + arr("family_blues", 14) + arr("family_other_blues", 10)
    out += f64(v.get("blue_scale", 39625) / 10**6)
    out += b"".join(s32(v.get(k, 0)) for k in ("blue_shift", "blue_fuzz", "std_hw", "std_vw"))
    out += arr("stem_snap_h", 12) + arr("stem_snap_v", 12) + bytes(8)
    return out + b"".join(s32(v.get(k, 0)) for k in ("adv_width_min", "adv_width_max", "adv_width_avg", "ascender",
                                                      "descender", "x_height", "cap_height"))


TEXTS = {"full_name": 1025, "font_name": 1026, "family_name": 1027, "pref_family_name": 1024, "menu_name": 1056,
         "apple_name": 1092, "weight": 1028, "width": 1065, "License": 1069, "LicenseURL": 1070, "copyright": 1037,
         "trademark": 1061, "designer": 1062, "designer_url": 1063, "vendor_url": 1064, "source": 1039,
         "tt_version": 1128, "tt_u_id": 1129, "style_name": 1127, "pref_style_name": 1137, "mac_compatible": 1139,
         "SampleText": 1140, "note": 2025, "customdata": 2016, "notice": 1038, "version": 1046,
         "default_character": 1066, "class": 1277, "axis": 1514, "mastername": 1504, "gcustomdata": 2015,
         "gnote": 2017}
U16S = {"masters": 1503, "axiscount": 1513, "upm": 1135, "year": 1132, "version_major": 1130, "version_minor": 1131,
        "fond_id": 1090, "is_fixed_pitch": 1034, "underline_thickness": 1031, "ms_charset": 1054, "font_style": 1267,
        "blue_values_num": 1530, "other_blues_num": 1531, "family_blues_num": 1532, "family_other_blues_num": 1533,
        "stem_snap_h_num": 1534, "stem_snap_v_num": 1535, "hhea_line_gap": 1270, "stemsnaplimit": 1272,
        "zoneppm": 1274, "codeppm": 1275, "dropoutppm": 1604, "mark": 2012}
S16S = {"weight_code": 1048, "underline_position": 1030, "hhea_ascender": 1278, "hhea_descender": 1279}
F64S = {"italic_angle": 1029, "slant_angle": 1047}


def bits(bs):
    return sum(1 << b for b in bs)


def ttinfo(n, v):
    """The value of entry n of the TrueType info record."""
    if n == 0x39:
        return b"\xff" + struct.pack(">I", bits(v["flags"]) | bits(v["options"]) << 16)
    if n == 0x4C:
        return bytes(v)
    if n == 0x53:
        return num(len(v)) + bytes(v)
    if n == 0x54:
        return b"".join(b"\xff" + struct.pack(">I", bits(x)) for x in v)
    if n in (0x56, 0x57):
        return b"\xff" + struct.pack(">I", v[0] * 86400 + v[1])
    return num(v)


def record(r, m):
    """(identifier, bytes) of an abstract record in a font with m masters."""
    k, v = r["k"], r["v"]
    if k in TEXTS:
        return TEXTS[k], txt(v)
    if k in U16S:
        return U16S[k], u16(v)
    if k in S16S:
        return S16S[k], struct.pack("<h", v)
    if k in F64S:
        return F64S[k], f64(v / 100)
    if k == "raw":
        return v["id"], bytes(v["data"])
    if k == "flversion":
        return 10, b"\x01" + num(int(v == "macos")) + b"\x02\xff\x05\x02\x02\x80\x03\x8b\x00"
    if k == "glyph":
        return 2001, glyph(v, m)
    if k == "unicodes":
        return 1250, b"".join(u16(x) for x in v)
    if k == "unicodes2":
        return 1253, b"".join(struct.pack("<I", x) for x in v)
    if k == "vendor":
        return 1121, txt(v).ljust(4, b"\0")[:4]
    if k == "unique_id":
        return 1044, s32(v)
    if k == "panose":
        return 1118, bytes(x & 255 for x in v)
    if k == "location":
        return 1505, struct.pack("<I", v["index"]) + b"".join(
            f64((x * 1000 + f) / 10**6) for x, f in zip(v["loc"], v.get("f") or [0] * 4))
    if k == "mapcounts":
        return 1515, b"".join(struct.pack("<I", x) for x in v)
    if k == "maps":
        return 1516, b"".join(
            f64((x[0] * 1000 + (x[2:] or [0])[0]) / 1000) + f64((x[1] * 1000 + (x[3:] or [0])[0]) / 10**6) for x in v)
    if k == "instances":
        return 1254, num(len(v)) + b"".join(pstr(i["name"]) + b"".join(num(x * 10) for x in i["loc"]) for i in v)
    if k == "psinfo":
        return 1536, psinfo(v)
    if k == "links":
        return 2008, b"".join(num(len(v[d])) + b"".join(num(a) + num(b) for a, b in v[d]) for d in "yx")
    if k == "gdef":
        return 2018, num(0) + num(len(v)) + b"".join(
            pstr(a["name"]) + num(a["x"]) + num(-1) + num(a["y"]) + num(-1) for a in v) + num(0) + num(0)
    if k == "anchorsmm":
        return 2029, num(len(v)) + num(m) + b"".join(num(x) + num(y) for a in v for x, y in a)
    if k == "guides":
        return 1294, guides(v)
    if k == "guideprops":
        return 1296, props(v)
    if k == "gguideprops":
        return 2031, props(v)
    if k == "mask":
        return 2009, num(m) + num(10**8 if m == 1 else 0) * m + outlines(v["nodes"], m)
    if k == "maskmetrics":
        return 2011, struct.pack("<hh", *v)
    if k == "image":
        return 2007, (num(v["o"][0]) + num(v["o"][1]) + num(v["u"][0]) + num(v["u"][1]) + num(8) + num(len(v["rows"]))
                      + num(3 * len(v["rows"])) + b"".join(bytes([1, x, 0]) for x in v["rows"]))
    if k == "bitmaps":
        return 2013, num(len(v)) + b"".join(
            num(b["ppm"]) + num(b["ox"]) + num(b["oy"]) + num(b["aw"]) + num(b["ah"]) + num(8) + num(len(b["rows"]))
            + num(3 * len(b["rows"])) + b"".join(bytes([1, x, 0]) for x in b["rows"]) for b in v)
    if k == "maskmetricsmm":
        return 2028, b"".join(num(a) + num(b) for a, b in v)
    if k == "klass":
        return 1277, txt(v["name"] + ":" + "".join(" " + g["n"] + ("'" if g["key"] else "") for g in v["glyphs"]))
    if k == "classflags":
        return 2026, num(len(v)) + b"".join(pstr(n) + num(a) + num(b) for n, a, b in v)
    if k == "metricsflags":
        return 2024, num(len(v)) + b"".join(pstr(n) + num(a) + num(b) + num(c) for n, a, b, c in v)
    if k == "features":
        return 1276, txt(v)
    if k == "stems":
        return 1269, b"".join(num(len(v[d])) + b"".join(num(s["w"]) + bstr(s["name"]) + num(s["r6"]) for s in v[d])
                              for d in "vh")
    if k == "stemppms":
        return 1268, b"".join(num(len(v[d])) + b"".join(b"".join(num(x) for x in s) for s in v[d]) for d in "vh")
    if k == "stemppms1":
        return 1524, b"".join(num(x) for d in "vh" for x in v[d])
    if k == "zones":
        return 1255, b"".join(num(len(v[d])) + b"".join(num(z["pos"]) + num(z["w"]) + pstr(z["name"]) for z in v[d])
                              for d in "tb")
    if k == "zonedeltas":
        return 1273, num(len(v)) + b"".join(num(z) + num(p) + num(s) for z, p, s in v)
    if k == "gasp":
        return 1265, b"".join(u16(p) + u16(f) for p, f in v)
    if k == "cvt":
        return 1261, b"".join(struct.pack("<h", x) for x in v)
    if k in ("prep", "fpgm"):
        return {"prep": 1262, "fpgm": 1263}[k], bytes(v)
    if k == "fontnames":
        return 1138, num(len(v)) + b"".join(num(n) + num(p) + num(e) + num(g) + num(len(s)) + b"".join(
            num(c) for c in (s.encode("mac_roman") if p == 1 else map(ord, s))) for n, p, e, g, s in v)
    if k == "ttinfo":
        return 1264, b"".join(bytes([x[0]]) + bytes(x[1]) for x in v) + b"\x32"
    if k == "tti":
        return 1264, b"".join(bytes([n]) + ttinfo(n, x) for n, x in v) + b"\x32"
    if k == "unicoderanges":
        b = bytearray(16)
        for x in v:
            b[x // 8] |= 1 << (x % 8)
        return 2021, bytes(b)
    raise KeyError(k)


def masters(F):
    for r in F:
        if r["k"] == "masters":
            return r["v"]
    return 1


def encode(F):
    m = masters(F)
    return corpus.file_bytes([record(r, m) for r in F])


# ---------------------------------------------------------------- the written UFO

def scaled(s, k):
    """The decimal text s as an integer of 1/k, or ["bad", s]."""
    if s is None:
        return 0
    v = float(s) * k
    n = round(v)
    return n if abs(v - n) < 1e-6 * max(1, abs(v)) and abs(n) < 2**31 else ["bad", str(s)]


def scales(x, y):
    """Scale factors in thousandths, and the millionths that remain."""
    v = [scaled(x, 10**6), scaled(y, 10**6)]
    if any(isinstance(a, list) for a in v):
        return {"sx": v[0], "sy": v[1], "f": [0, 0]}
    return {"sx": v[0] // 1000, "sy": v[1] // 1000, "f": [a % 1000 for a in v]}


def coord(s):
    n = scaled(s, 1)
    return n


def plist_in(el):
    """The value of a <dict> inside a glif."""
    x = ET.tostring(el, encoding="unicode")
    return plistlib.loads(('<?xml version="1.0"?><plist version="1.0">' + x + "</plist>").encode())


def jsonable(v):
    """Property list values as plain JSON; reals as ["r", text]."""
    if isinstance(v, bool):
        return ["t" if v else "f"]
    if isinstance(v, float):
        return int(v) if v == int(v) and abs(v) < 2**31 else ["r", repr(v)]
    if isinstance(v, (bytes, bytearray)):
        return ["y", list(v)]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, int) and not -(2**31) <= v < 2**31:
        return ["big", str(v)]
    if isinstance(v, (int, str)):
        return v
    return ["?", str(v)]


def glif(b, scale=1):
    r = ET.fromstring(b)
    g = {"name": r.get("name"), "unicodes": [], "width": 0, "height": 0, "anchors": [], "guides": [], "contours": [],
         "comps": [], "note": [], "lib": {}, "other": []}
    for e in r:
        if e.tag == "advance":
            g["width"], g["height"] = coord(e.get("width")), coord(e.get("height"))
        elif e.tag == "unicode":
            g["unicodes"].append(int(e.get("hex"), 16))
        elif e.tag == "anchor":
            g["anchors"].append({"name": e.get("name") or "", "x": coord(e.get("x")), "y": coord(e.get("y")),
                                 "color": e.get("color") or ""})
        elif e.tag == "guideline":
            g["guides"].append(guide(e.attrib))
        elif e.tag == "note":
            # indented in the file, as the UFO specification allows
            g["note"] = ["\n".join(x.strip() for x in (e.text or "").split("\n") if x.strip())]
        elif e.tag == "lib":
            g["lib"] = jsonable(plist_in(e[0])) if len(e) else {}
        elif e.tag == "outline":
            for o in e:
                if o.tag == "contour":
                    g["contours"].append([
                        {"x": coord(p.get("x")), "y": coord(p.get("y")), "t": p.get("type") or "off",
                         "s": int(p.get("smooth") == "yes"), "n": p.get("name") or ""} for p in o])
                elif o.tag == "component":
                    g["comps"].append({"base": o.get("base"), "x": coord(o.get("xOffset") or "0"),
                                       "y": coord(o.get("yOffset") or "0"),
                                       **scales(o.get("xScale") or "1", o.get("yScale") or "1"),
                                       "k": [scaled(o.get("xyScale") or "0", 1000), scaled(o.get("yxScale") or "0", 1000)]})
                else:
                    g["other"].append(o.tag)
        else:
            g["other"].append(e.tag)
    g["mark"] = color(g["lib"].get("public.markColor", ""))
    g["ppms"] = [{"ppm": b["ppemX"], "ox": b["horiBearingX"], "oy": b["horiBearingY"] - b["height"],
                  "aw": b["horiAdvance"], "ah": b["vertAdvance"], "rows": [x[0] for x in reversed(b["imageData"])]}
                 for b in g["lib"].get("com.fontlab.v5.bitmaps", [])]
    g["ps"] = [{"tag": h["pointTag"], "stems": [pstem(x) for x in h["stems"]]}
               for h in g["lib"].get("com.adobe.type.autohint.v2", {}).get("hintSetList", [])]
    x = g["lib"].get("com.fontlab.ttprogram", "")
    g["tth"], g["tthbad"] = program(x)
    g["ttform"] = "none" if not x else "base64" if isinstance(x, list) else "text"
    b = g["lib"].get("com.fontlab.v5.background")
    g["image"] = [{"o": b["origin"], "u": b["size_units"], "p": b["size_pixels"], "rows": [x[0] for x in b["bitmap"]["data"]],
                   "more": sorted(set(b) - {"origin", "size_units", "size_pixels", "bitmap"})}] if b is not None else []
    return g


def program(x):
    """TrueType instructions as lists of attributes, and whether they are not XML."""
    if isinstance(x, list) and x[:1] == ["y"]:
        x = base64.b64decode(bytes(x[1])).decode()
    if not x:
        return [], False
    try:
        r = ET.fromstring(x)
    except ET.ParseError:
        return [], True
    return [[[a, b] for a, b in c.attrib.items()] for c in r], r.tag != "ttProgram" or any(
        c.tag != "ttc" or len(c) or (c.text or "").strip() for c in r)


def tt_lib(lib):
    """Stems and zones of exported TrueType hints, in order."""
    st = [{"d": "v" if e.get("horizontal") is True else "h", "name": n, "w": e.get("width"),
           "round": [[ppem(a), b] for a, b in e.get("round", {}).items()]} for n, e in lib.get("stems", {}).items()]
    zn = [{"d": "t" if e.get("top") is True else "b", "name": n, "w": e.get("width"), "pos": e.get("position"),
           "delta": [[ppem(a), b] for a, b in e.get("delta", e.get("deltas", {})).items()]}
          for n, e in lib.get("zones", {}).items()]
    for n, e in list(lib.get("stems", {}).items()) + list(lib.get("zones", {}).items()):
        if set(e) - {"horizontal", "width", "round", "top", "position", "delta", "deltas"}:
            st.append({"d": "?", "name": n, "w": 0, "round": []})
    return st, zn


def ppem(s):
    return int(s) if s.lstrip("-").isdigit() else s


def info_value(k, v):
    """A value of fontinfo: reals as scaled integers."""
    if k in ("italicAngle", "postscriptBlueScale"):
        return scaled(v, 100 if k == "italicAngle" else 10**6)
    if isinstance(v, bool):
        return v
    if k in ("openTypeNameRecords", "openTypeGaspRangeRecords"):
        return v
    return jsonable(v)


def pstem(s):
    """"hstem 10 20" as a direction and two numbers."""
    k, *v = s.split(" ")
    return [{"hstem": "h", "vstem": "v"}.get(k, k)] + [scaled(x, 1) for x in v]


def color(s):
    """A UFO colour as four integers of 1/10000."""
    return [scaled(x, 10000) for x in s.split(",")] if s else []


def guide(a):
    return {"x": [coord(a["x"])] if a.get("x") is not None else [], "y": [coord(a["y"])] if a.get("y") is not None else [],
            "a": [scaled(a["angle"], 100)] if a.get("angle") is not None else [],
            "name": a.get("name") or "", "color": color(a.get("color") or ""),
            "extra": sorted(k for k in a if k not in ("x", "y", "angle", "name", "color", "identifier"))}


class Tree:
    """Read access to a UFO folder or zip."""

    def __init__(self, path):
        self.path = str(path)
        self.z = zipfile.ZipFile(path) if os.path.isfile(path) else None
        if self.z:
            names = self.z.namelist()
            self.root = names[0].split("/")[0] + "/"

    def names(self):
        if self.z:
            return sorted(n[len(self.root):] for n in self.z.namelist() if not n.endswith("/"))
        return sorted(os.path.relpath(os.path.join(d, f), self.path) for d, _, fs in os.walk(self.path) for f in fs)

    def get(self, name):
        try:
            if self.z:
                return self.z.read(self.root + name)
            with open(os.path.join(self.path, name), "rb") as f:
                return f.read()
        except (KeyError, FileNotFoundError):
            return None

    def plist(self, name, default):
        b = self.get(name)
        return default if b is None else plistlib.loads(b)


def project_ufo(path):
    t = Tree(path)
    layers = t.plist("layercontents.plist", [["public.default", "glyphs"]])
    u = {"layers": [x[0] for x in layers], "problems": []}
    u["meta"] = jsonable(t.plist("metainfo.plist", {}))
    used = {"metainfo.plist", "layercontents.plist", "fontinfo.plist", "lib.plist", "groups.plist", "kerning.plist",
            "features.fea"}
    for lname, d in layers:
        con = t.plist(d + "/contents.plist", {})
        used |= {d + "/contents.plist", d + "/layerinfo.plist"} | {d + "/" + f for f in con.values()}
        if len(set(con.values())) != len(con):
            u["problems"].append("two glyphs in one file")
        gs = []
        for n, f in con.items():
            b = t.get(d + "/" + f)
            if b is None:
                u["problems"].append("missing " + f)
                continue
            g = glif(b)
            if g["name"] != n:
                u["problems"].append(f"{f} is {g['name']} not {n}")
            gs.append(g)
        u["glyphs" if lname == layers[0][0] else "bg"] = sorted(gs, key=lambda g: g["name"])
    u.setdefault("bg", [])
    extra = [n for n in t.names() if n not in used]
    if extra:
        u["problems"].append("extra files " + " ".join(extra))
    lib = t.plist("lib.plist", {})
    u["order"] = lib.pop("public.glyphOrder", [])
    u["lib"] = jsonable(lib)
    u["info"] = t.plist("fontinfo.plist", {})
    u["finfo"] = {k: info_value(k, v) for k, v in u["info"].items() if k != "guidelines"}
    u["guides"] = [guide(x) for x in u["info"].pop("guidelines", [])]
    u["groups"] = [[k, v] for k, v in t.plist("groups.plist", {}).items()]
    u["kerning"] = [[a, b, coord(v)] for a, d in t.plist("kerning.plist", {}).items() for b, v in d.items()]
    fea = t.get("features.fea")
    u["fea"] = (fea or b"").decode().split("\n")
    u["hasfea"] = int(fea is not None)
    return u


def project_ds(path):
    r = ET.parse(path).getroot()
    def dims(e, tag="location"):
        res = {}
        for loc in e.findall(tag):
            for d in loc.findall("dimension"):
                res[d.get("name")] = [k + "=" + str(scaled(d.get(k), 1000)) for k in ("uservalue", "xvalue", "yvalue")
                                      if d.get(k) is not None]
        return [[k, v] for k, v in res.items()]
    return {
        "axes": [{"tag": a.get("tag"), "name": a.get("name"),
                  "min": scaled(a.get("minimum"), 1000), "max": scaled(a.get("maximum"), 1000),
                  "def": scaled(a.get("default"), 1000),
                  "map": [[scaled(m.get("input"), 1000), scaled(m.get("output"), 1000)] for m in a.findall("map")],
                  "labels": [[x.get("name"), scaled(x.get("uservalue"), 1000)] for x in a.findall("labels/label")]}
                 for a in r.findall("axes/axis")],
        "sources": [{"file": s.get("filename"), "name": s.get("name") or "", "loc": dims(s),
                     "style": s.get("stylename") or "", "family": s.get("familyname") or ""}
                    for s in r.findall("sources/source")],
        "instances": [{"name": i.get("stylename") or "", "loc": dims(i), "family": i.get("familyname") or "",
                       "file": i.get("filename") or ""} for i in r.findall("instances/instance")],
    }


SHM = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


def open_raw(raw, **kw):
    from vfbLib.enum import F as E
    from . import build
    kw.setdefault("drop_keys", {E.Encoding, E.EncodingDefault})
    return build.read(raw, **kw)


def write_ufos(vfb, tmp, name="font", ufoz=False, json=False, normalize=True, minimal=False, base64=False, pshints=True,
               add_kerning_groups=False, move_groups=True):
    """What the command line tool does with an open font."""
    from vfbLib.ufo.builder import VfbToUfoBuilder
    vfb.decompile()
    b = VfbToUfoBuilder(vfb, minimal=minimal, base64=base64, pshints=pshints, add_kerning_groups=add_kerning_groups,
                        move_groups=move_groups, normalize=normalize)
    b.write(Path(tmp) / (name + (".ufoz" if ufoz and not json else ".ufo")), overwrite=False, silent=True, ufoz=ufoz,
            json=json)


def tool(raw, tmp, k=0, name="font", ufoz=False, json=False, normalize=True, minimal=False, base64=False, pshints=True,
         add_kerning_groups=False, move_groups=True):
    """The same, by the command line tool."""
    import sys
    from vfbLib import cmdline
    src = tempfile.mkdtemp(prefix="vfbin.", dir=SHM)
    argv = sys.argv
    try:
        p = Path(src) / (name + ".vfb")
        p.write_bytes(raw)
        a = [x for x, on in (("-z", ufoz), ("-j", json), ("-n", not normalize), ("-m", minimal), ("-64", base64),
                             ("-nops", not pshints), ("-k", add_kerning_groups), ("-g", not move_groups), ("-s", k & 1),
                             ("-fo", k & 2)) if on]
        a = [str(p)] + a + ["-p", str(tmp)] if k & 4 else a + ["--path", str(tmp), str(p)]
        sys.argv = ["vfb3ufo"] + a
        cmdline.vfb2ufo()
    finally:
        sys.argv = argv
        shutil.rmtree(src, ignore_errors=True)


def json_to_ufo(tmp, indent):
    """Turn UFOs that were written as JSON into folders."""
    from ufoLib2 import Font
    for n in os.listdir(tmp):
        p = Path(tmp) / n
        if n.endswith(".json"):
            t = p.read_text("utf-8")
            if (len(t.splitlines()) > 1) != indent:
                raise ValueError("the layout of the JSON")
            Font.json_loads(t).save(p.with_suffix(".ufo"))
            p.unlink()
        elif n.endswith(".designspace"):
            t = p.read_text("utf-8")
            for f in re.findall(r'<source [^>]*filename="([^"]*)"', t):
                if not f.endswith(".json"):
                    raise ValueError("a source of the designspace: " + f)
                t = t.replace(f'filename="{f}"', f'filename="{f[:-5]}.ufo"')
            p.write_text(t, "utf-8")


def collect(tmp):
    """Everything that was written: UFOs in master order and the designspace."""
    ns = sorted(os.listdir(tmp), key=lambda n: (n.count("-"), len(n), n))
    ufos = [n for n in ns if n.endswith((".ufo", ".ufoz"))]
    ds = [n for n in ns if n.endswith(".designspace")]
    return {"names": ns, "ufos": [project_ufo(os.path.join(tmp, n)) for n in ufos],
            "ds": [project_ds(os.path.join(tmp, n)) for n in ds]}


def convert(F, seconds=30, **opts):
    """The outcome of converting an abstract font: {"ok": 1, "names", "ufos", "ds"} or
    {"ok": 0, "why"}."""
    return convert_raw(encode(F), seconds, **opts)


def convert_raw(raw, seconds=30, **opts):
    tmp = tempfile.mkdtemp(prefix="vfbufo.", dir=SHM)
    k = zlib.crc32(raw) % 16      # other forms of writing, now and then
    opts.setdefault("normalize", k == 0)
    opts.setdefault("ufoz", k in (1, 3))
    opts.setdefault("json", k in (2, 3))
    how = (zlib.crc32(raw) >> 8) % 24

    def run():
        if how < 8:
            tool(raw, tmp, how, **opts)
        else:
            v = open_raw(raw, minimal=opts.get("minimal", False))
            write_ufos(v, tmp, **opts)
        if opts["json"]:
            json_to_ufo(tmp, not opts["ufoz"])
    try:
        r = guard.call(run, seconds=seconds)
        if r[0] != "ok":
            return {"ok": 0, "why": " ".join(str(x) for x in r[1:]), "names": [], "ufos": [], "ds": []}
        try:
            out = collect(tmp)
        except (LookupError, TypeError, ValueError, AttributeError, ET.ParseError) as e:
            return {"ok": 0, "why": f"what was written is ill-formed: {e!r}", "names": [], "ufos": [], "ds": []}
        out.update(ok=1, why="")
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
