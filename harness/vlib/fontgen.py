"""Random abstract fonts (see font.py)."""
import string

from .font import TTOPS  # noqa: F401

LETTERS = string.ascii_letters


def head(m, rnd=None, axes=None, names=None, psinfo=None):
    """The records a font with m masters needs."""
    F = [{"k": "masters", "v": m}] + [{"k": "mastername", "v": n} for n in (names or [f"M{i}" for i in range(m)])]
    n = axes if axes is not None else (m - 1).bit_length()
    corner = [[(i >> k & 1) * 1000 for k in range(4)] for i in range(m)]
    F += [{"k": "location", "v": {"index": i + 1, "loc": corner[i]}} for i in range(m)]
    if n:
        F += [{"k": "axiscount", "v": n}] + [{"k": "axis", "v": a} for a in ("Weight", "Width", "Optical Size", "Serif")[:n]]
        F += [{"k": "mapcounts", "v": [2] * n + [0] * (4 - n)},
              {"k": "maps", "v": ([[0, 0], [1000, 1000]] + [[0, 0]] * 8) * n + [[0, 0]] * (40 - 10 * n)}]
    return F + (psinfo or [{"k": "psinfo", "v": {}}] * m)


class FontGen:
    def __init__(self, rnd, m=1, big=False):
        self.r = rnd
        self.m = m
        self.big = big

    def chance(self, p):
        return self.r.random() < p

    def v(self, lim=None):
        lim = lim or (16000 if self.big else 900)
        return self.r.choice([0, 1, -1, self.r.randint(-lim, lim), self.r.randint(-lim, lim)])

    def per(self, fn):
        return [fn() for _ in range(self.m)]

    def names(self, n, dup=0.0, empty=0.0):
        r = self.r
        out = []
        for i in range(n):
            if out and r.random() < dup:
                out.append(r.choice([r.choice(out), r.choice(out) + "#0", r.choice(out) + "#1"]))
            elif r.random() < empty:
                out.append("")
            else:
                while True:
                    x = r.choice(["", "", ".", "_", "A", "a"])
                    x = x + "".join(r.choice(LETTERS) for _ in range(r.choice([1, 1, 2, 4]))) + r.choice(["", ".alt", "1", "_x"])
                    if x not in out:
                        break
                out.append(x)
        return out

    def nodes(self, n, places=None):
        """Contours with all kinds of segments; some nodes coincide with their start."""
        r = self.r
        out = []
        start = None
        q = opened = False
        for i in range(n):
            if out and opened and i == n - 1 and q:
                t = "line"
            else:
                t = "move" if not out else r.choices(
                    ["move", "line", "curve", "qcurve"], [0 if q and opened else 1, 4, 0 if q else 3, 1.5])[0]
            if t == "qcurve" and opened and i == n - 1:
                t = "line"
            p = self.per(lambda: [self.v(), self.v()])
            if start is not None and t != "move" and self.chance(0.25):
                p = [list(x) for x in start]
                if self.m > 1 and self.chance(0.3):
                    p[r.randrange(self.m)][0] += 5
            f = r.choice([0, 0, 1]) | (8 if t == "move" and self.chance(0.2) else 0)
            if t == "move":
                start = p
                opened = bool(f & 8)
            q = t == "qcurve"
            if t == "curve":
                pts = [[a, [self.v(), self.v()], [self.v(), self.v()]] for a in p]
            else:
                pts = [[a] for a in p]
            out.append({"t": t, "f": f, "p": pts})
        return out

    def adv(self):
        return self.per(lambda: [self.r.randint(0, 1500) if self.r.random() < 0.97 else -self.r.randint(1, 300), self.r.choice([0, 0, self.r.randint(0, 999)])])

    def guide_lists(self, n=3, lim=900):
        r = self.r
        sl = lambda: r.choice([0, 0, 10000, -10000, 5774, r.randint(-30000, 30000)])  # noqa: E731
        return {d: [self.per(lambda: [r.randint(-lim, lim), sl()]) for _ in range(r.choice([0, 0, 1, n]))] for d in "hv"}

    def guide_props(self, g):
        r = self.r
        out = {}
        for d in "hv":
            idx = [i + 1 for i in range(len(g[d]) + 1) if self.chance(0.6)]
            if self.chance(0.3):
                r.shuffle(idx)
            out[d] = [{"index": i, "color": r.choice([[], [r.randrange(256) for _ in range(3)]]),
                       "name": r.choice(["", "top", f"g{i}", "x height"])} for i in idx]
        return out

    def hints(self, nnodes=0, masks=False):
        r = self.r
        w = lambda: r.choice([r.randint(1, 120), r.randint(1, 120), -20, -21, -r.randint(1, 90)])  # noqa: E731
        h = {}
        for d in "hv":
            n = r.choice([0, 1, 2, 4])
            h[d] = []
            for _ in range(n):
                k = w()
                h[d].append(self.per(lambda: [r.randint(-300, 800), k if k < 0 else r.randint(1, 120)]))
        ms = []
        if masks:
            for _ in range(r.choice([0, 1, 2, 5])):
                if ms and self.chance(0.5):
                    ms.append(["r", r.randrange(max(1, nnodes)) * r.choice([1, 1, 1, 1, -1])])
                # links count after the stored stems
                on = [[d, i] for d in "hv" for i in range(len(h[d]) + r.choice([0, 0, 1, 3])) if self.chance(0.4)]
                if self.chance(0.3):
                    r.shuffle(on)
                ms += on
        h["masks"] = ms
        return h

    def links(self, n):
        r = self.r
        one = lambda: [r.randrange(n), r.choice([-1, -2] + [r.randrange(n)] * 4)]  # noqa: E731
        return {d: [one() for _ in range(r.choice([0, 1, 1, 3]))] for d in "yx"}

    def comps(self, n, maxgid, fine=False):
        r = self.r
        sc = lambda: r.choice([1000, 1000, 1000, 500, -1000, 1250, r.randint(-3000, 3000)])  # noqa: E731
        out = [{"gid": r.randint(0, maxgid), "m": self.per(lambda: [self.v(), self.v(), sc(), sc()])} for _ in range(n)]
        for c in out if fine else []:
            if self.chance(0.3):
                c["f"] = self.per(lambda: [r.choice([0, 333, 667, r.randint(0, 999)]), r.choice([0, 1, 500])])
        return out

    def kern(self, nglyphs):
        r = self.r
        k = r.choice([0, 0, 1, 3, 6])
        return [[g, self.per(lambda: r.choice([0, -10, 25, r.randint(-200, 200)]))]
                for g in r.sample(range(nglyphs), min(k, nglyphs))]

    def attachments(self, g, **kw):
        """A random subset of the records that can follow a glyph."""
        r = self.r
        out = []
        if self.chance(0.6):
            out.append({"k": "unicodes", "v": r.sample(range(0x20, 0xD7FF), r.choice([1, 1, 2, 3]))})
        if self.chance(0.2):
            out.append({"k": "unicodes2", "v": [r.randint(0x10000, 0x10FFFF) for _ in range(r.choice([1, 2]))]})
        if self.chance(0.25):
            out.append({"k": "mark", "v": r.choice([1, 42, 43, 85, 127, 128, 170, 255, r.randint(1, 255)])})
        if self.chance(0.25):
            out.append({"k": "gnote", "v": f"note {r.randint(0, 999)} äöü <&>" + r.choice(["", "\nsecond line"])})
        if self.chance(0.2):
            out.append({"k": "gcustomdata", "v": f"data {r.randint(0, 999)}"})
        if self.chance(0.3):
            n = r.choice([1, 1, 2, 4])
            a = [{"name": r.choice(["top", "bottom", "_top", f"a{i}", ""]), "x": self.v(), "y": self.v()} for i in range(n)]
            out.append({"k": "gdef", "v": a})
            if self.m > 1 or self.chance(0.2):
                out.append({"k": "anchorsmm", "v": [self.per(lambda: [self.v(), self.v()]) for _ in range(n)]})
        if kw.get("hints") and g["nodes"] and self.chance(0.4):
            out.append({"k": "links", "v": self.links(len(g["nodes"]))})
        if "guides" in g and self.chance(0.7):
            out.append({"k": "gguideprops", "v": self.guide_props(g["guides"])})
        if self.chance(0.25):
            out.append({"k": "mask", "v": {"nodes": self.nodes(r.choice([0, 1, 3, 6]))}})
            if self.chance(0.8):
                out.append({"k": "maskmetrics", "v": [r.randint(0, 1000), r.choice([0, 7])]})
                if self.m > 1:
                    out.append({"k": "maskmetricsmm", "v": [[r.randint(0, 1000), r.choice([0, 9])]
                                                            for _ in range(self.m - 1)]})
        if self.chance(0.1):
            out.append({"k": "image", "v": {
                "o": [self.v(), self.v()], "u": [r.randint(0, 2000), r.randint(0, 2000)],
                "rows": [r.randrange(256) for _ in range(r.choice([0, 1, 1, 3]))]}})
        if self.chance(0.1):
            out.append({"k": "bitmaps", "v": [
                {"ppm": r.randint(8, 40), "ox": r.randint(-9, 9), "oy": r.randint(-9, 9), "aw": r.randint(0, 50),
                 "ah": r.randint(0, 50), "rows": [r.randrange(256) for _ in range(r.choice([1, 2, 4]))]}
                for _ in range(r.choice([1, 2]))]})
        if self.chance(0.3):
            i = [k for k, x in enumerate(out) if not x["k"].startswith("maskmetrics")]
            j = i[:]
            r.shuffle(j)
            new = list(out)
            for a, b in zip(i, j):
                new[a] = out[b]
            out = new
        return out

    def glyph(self, i, names, **kw):
        r = self.r
        g = {"name": names[i], "nodes": self.nodes(r.choice([0, 2, 4, 8])) if kw.get("outlines", True) else [],
             "adv": self.adv()}
        if kw.get("comps") and i and self.chance(0.35):
            g["nodes"] = g["nodes"] if self.chance(0.2) else []
            # forward references only to other glyphs without components would be needed to
            # draw them; the indices are what matters here, loops are avoided
            g["comps"] = self.comps(r.choice([1, 2, 3]), i - 1, kw["comps"] == "fine")
        elif kw.get("comps") and self.chance(0.1) and i < len(names) - 1:
            kw["fwd"].append(i)
        if kw.get("hints") and self.chance(0.6):
            g["hints"] = self.hints(len(g["nodes"]), self.chance(0.5))
        if kw.get("guides") and self.chance(0.4):
            g["guides"] = self.guide_lists()
        if kw.get("kern"):
            k = self.kern(len(names))
            if k:
                g["kern"] = k
        return g

    def glyphs(self, n, dup=0.0, empty=0.0, attach=True, **kw):
        """Glyph records and the records attached to them."""
        names = self.names(n, dup, empty)
        kw["fwd"] = fwd = []
        gs = [self.glyph(i, names, **kw) for i in range(n)]
        for i in fwd:  # a component that refers to a later glyph without components
            later = [j for j in range(i + 1, n) if "comps" not in gs[j] and j not in fwd]
            if later and "comps" not in gs[i]:
                gs[i]["comps"] = self.comps(1, 0)
                gs[i]["comps"][0]["gid"] = self.r.choice(later)
        out = []
        for g in gs:
            out.append({"k": "glyph", "v": g})
            if attach:
                out += self.attachments(g, **kw)
        return out

    def classes(self, names, missing=0.1, overlap=0.4, all_present=False):
        """Glyph classes of all kinds, and the flags of the kerning classes."""
        r = self.r
        out, flags = [], []
        pool = names + (["nope", "nil.alt"] if self.chance(missing) else [])
        for i in range(r.choice([0, 1, 2, 3, 5, 8])):
            kind = r.choice(["ot", "kern", "kern", "kern", "metrics"])
            n = r.choice([0, 1, 2, 3, len(pool)])
            free = [x for x in pool if self.chance(0.5)] if self.chance(overlap) else pool
            gs = [{"n": x, "key": False} for x in r.sample(free, min(n, len(free)))]
            if all_present and all(x["n"] not in names for x in gs):
                gs = [{"n": names[0], "key": False}]
            if gs and kind != "ot" and self.chance(0.9) or gs and self.chance(0.1):
                r.choice(gs)["key"] = True
                if self.chance(0.1):
                    r.choice(gs)["key"] = True
            if gs and kind == "ot" and self.chance(0.2):
                gs.append({"n": r.choice(gs)["n"], "key": False})
            name = {"ot": "", "kern": "_", "metrics": "."}[kind] + r.choice(["c", "c", "C", "Up.c", "c_"]) + str(i) + r.choice(["", "_L", "x"])
            out.append({"k": "klass", "v": {"name": name, "kind": kind, "glyphs": gs}})
            if kind == "kern" and self.chance(0.9):
                flags.append([name, r.choice([1024, 2048, 3072, 1024, 2048, 3072, 0, 1, 1025, 4096]), r.choice([0, 3072])])
        if self.chance(0.2):
            r.shuffle(flags)
        return out, [{"k": "classflags", "v": flags}]

    # ------------------------------------------------------------------ font info

    def text(self):
        r = self.r
        return r.choice(["", "Font", "A b-C.d", "Äöü ß €", "<&>\"'", "x" * 300, f"t{r.randint(0, 99)}", " lead", "two\nlines"])

    def psinfo(self):
        r = self.r
        v = {k: r.choice([0, r.randint(-1000, 1000)]) for k in ("ascender", "descender", "x_height", "cap_height")
             if self.chance(0.8)}
        for k, n in (("blue_values", 14), ("other_blues", 10), ("family_blues", 14), ("family_other_blues", 10),
                     ("stem_snap_h", 12), ("stem_snap_v", 12)):
            if self.chance(0.5):
                v[k] = [r.randint(1 if k.startswith("s") else -300, 900) for _ in range(r.randint(0, n))]
        for k in ("blue_shift", "blue_fuzz"):
            if self.chance(0.5):
                v[k] = r.randint(0, 20)
        if self.chance(0.5):
            v["blue_scale"] = r.choice([39625, 0, 37500, r.randint(1, 99999)])
        if self.chance(0.3):
            v["force_bold"] = r.choice([0, 1, 1, 2, 256])
        return v

    def psnums(self):
        r = self.r
        return [{"k": k + "_num", "v": r.randint(0, n) if k.startswith("stem") else r.randint(0, n // 2) * 2}
                for k, n in (("blue_values", 14), ("other_blues", 10), ("family_blues", 14), ("family_other_blues", 10),
                             ("stem_snap_h", 12), ("stem_snap_v", 12)) if self.chance(0.6)]

    def tti(self, full=False):
        r = self.r
        out = []

        def some(p):
            return full or self.chance(p)
        for n in list(range(0x33, 0x39)) + list(range(0x3A, 0x4B)) + [0x4D, 0x4E, 0x4F, 0x50, 0x51, 0x52, 0x5C]:
            if some(0.4):
                v = r.choice([0, r.randint(-2000, 2000), r.randint(0, 2000)])
                if n == 0x3F:
                    v = r.randint(1, 9)
                if n == 0x40:
                    v = sum(1 << b for b in (1, 2, 3, 8, 9) if self.chance(0.4))
                if n == 0x50 or n < 0x39:
                    v = r.choice([0, 4, 8, r.randint(0, 1023)])
                if n in (0x51, 0x52, 0x3C):
                    v = abs(v)
                out.append([n, v])
        if some(0.4):
            out.append([0x4B, r.choice([0, r.randint(0, 14) * 256 + r.randint(0, 15)])])
        if some(0.4):
            out.append([0x39, {"flags": self.bitset(15), "options": self.bitset(10)}])
        if some(0.4):
            out.append([0x4C, [r.randint(0, 9) for _ in range(10)]])
        if some(0.2):
            out.append([0x53, [r.randint(8, 99) for _ in range(r.randint(0, 5))]])
        if some(0.4):
            out.append([0x54, [self.bitset(32), self.bitset(32)]])
        if some(0.5):
            out.append([0x56, [r.choice([r.randint(24107, 49710), r.randint(0, 49709), 24107, 24106, 49709, 44000, 0]),
                               r.choice([0, 0, 86399, r.randint(0, 86399)])]])
            if some(0.5):
                out.append([0x57, [r.randint(0, 49709), 1]])
        if self.chance(0.5):
            r.shuffle(out)
        return out

    def bitset(self, n):
        return sorted(self.r.sample(range(n), self.r.choice([0, 1, 2, 5, n])))

    def info(self, dense=0.6):
        """Font info records in any order."""
        r = self.r
        out = []
        for k in ("full_name", "font_name", "family_name", "style_name", "pref_family_name", "pref_style_name", "apple_name",
                  "copyright", "trademark", "notice", "source", "designer", "designer_url", "vendor_url", "License",
                  "LicenseURL", "SampleText", "tt_u_id", "tt_version", "default_character", "note", "weight", "width",
                  "menu_name", "mac_compatible", "version"):
            if self.chance(dense):
                out.append({"k": k, "v": self.text()})
        for k, a, b in (("fond_id", 0, 65535), ("version_major", 0, 99), ("version_minor", 0, 999), ("year", 0, 3000),
                        ("upm", 1, 16384), ("underline_thickness", 0, 300), ("underline_position", -400, 400),
                        ("hhea_ascender", -2000, 2000), ("hhea_descender", -2000, 2000), ("hhea_line_gap", 0, 500),
                        ("italic_angle", -3000, 3000), ("slant_angle", -100, 100), ("is_fixed_pitch", 0, 1),
                        ("weight_code", -2, 1200), ("ms_charset", 0, 255), ("font_style", 0, 127),
                        ("unique_id", -1, 2**31 - 1)):
            if self.chance(dense):
                out.append({"k": k, "v": r.choice([a, b, r.randint(a, b), r.randint(a, b)])})
        if self.chance(dense):
            out.append({"k": "panose", "v": [r.randint(0, 15) for _ in range(10)]})
        if self.chance(dense):
            out.append({"k": "vendor", "v": r.choice(["ABCD", "A", "", "a b", "\xe4xyz"])})
        if self.chance(dense):
            out.append({"k": "unicoderanges", "v": self.bitset(123)})
        if self.chance(dense):
            out.append({"k": "tti", "v": self.tti()})
        if self.chance(dense):
            out.append({"k": "gasp", "v": [[p, r.randint(0, 15)] for p in sorted(r.sample(
                [8, 9, 17, 50, 2048, 65535], r.choice([0, 1, 3, 6])))]})
        if self.chance(dense):
            out.append({"k": "fontnames", "v": [
                [r.randint(0, 25), *r.choice([(1, "Ünï"), (1, "a b"), (3, "Ünï"), (3, "日本"), (3, "")])] for _ in range(r.choice([0, 1, 3]))]})
            for x in out[-1]["v"]:
                x[2:] = [0 if x[1] == 1 else r.randint(0, 10), r.randint(0, 2000), x[2]]
        out += self.psnums()
        r.shuffle(out)
        return out

    # ------------------------------------------------------------------ TrueType hints

    def tthfont(self, sizes=None, missing=0.15):
        """Font-level TrueType hinting: stems with rounding, zones with deltas, limits."""
        r = self.r
        nv, nh, nt, nb = sizes or [r.choice([0, 1, 1, 2, 3, 5]) for _ in range(4)]
        names = ["X: 80", "Y: 90", "s", "a&b", "<\"q'>", "v00", "h00", "v01", "s#1", "\xc4"]
        used = []

        def name(i):
            x = r.choice(used) if used and self.chance(0.15) else r.choice([f"n{len(used)}", f"n{len(used)}", r.choice(names), ""])
            used.append(x)
            return x
        out = []
        top = lambda: r.choice([255, 0, r.randint(5, 90), r.randint(5, 90)])  # noqa: E731
        st = {d: [{"w": r.choice([0, r.randint(1, 300)]), "name": name(i), "r6": top()} for i in range(n)]
              for d, n in (("v", nv), ("h", nh))}
        if not self.chance(missing):
            def ppms(d):
                n = len(st[d]) + r.choice([0, 0, 0, 0, 0, 0, -1, 1])
                return [[top() for _ in range(4)] for _ in range(max(0, n))]
            out.append({"k": "stemppms", "v": {d: ppms(d) for d in "vh"}})
        if not self.chance(missing / 2) or sizes:
            out.append({"k": "stems", "v": st})
            if not self.chance(missing):
                out.append({"k": "stemppms1", "v": {d: [top() for _ in st[d]] for d in "vh"}})
        used = []
        if not self.chance(missing / 2) or sizes:
            z = {d: [{"pos": self.v(), "w": r.choice([0, r.randint(-100, 100)]), "name": name(i)} for i in range(n)]
                 for d, n in (("t", nt), ("b", nb))}
            out.append({"k": "zones", "v": z})
            if nt + nb and not self.chance(missing):
                seen = {}
                for _ in range(r.choice([0, 1, 2, 6])):
                    seen[r.randrange(nt + nb), r.randint(9, 60)] = r.randint(-8, 8)
                out.append({"k": "zonedeltas", "v": [[a, b, c] for (a, b), c in seen.items()]})
        for k, v in (("stemsnaplimit", 68), ("zoneppm", 48), ("codeppm", 0), ("dropoutppm", 255)):
            if self.chance(0.5):
                out.append({"k": k, "v": r.choice([v, 0, 255, r.randint(0, 255)])})
        return out

    def tth(self, points, F):
        """TrueType instructions for an outline with some points."""
        r = self.r
        st = next((x["v"] for x in F if x["k"] == "stems"), {"v": [], "h": []})
        zn = next((x["v"] for x in F if x["k"] == "zones"), {"t": [], "b": []})
        out = []
        pt = lambda: r.randrange(points + 2) if self.chance(0.9) else r.choice([points, points + 1])  # noqa: E731
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            code = r.choice(sorted(TTOPS))
            cmd, args = TTOPS[code]
            side = {"AlignTop": "t", "AlignBottom": "b"}.get(cmd)
            if side and not zn[side]:
                continue
            c = {"cmd": cmd}
            for a in args.split():
                if a.startswith("pt"):
                    c[a] = pt()
                elif a == "zone":
                    c[a] = r.randrange(len(zn[side]))
                elif a == "stem":
                    c[a] = r.choice([-3, -2, -1] + list(range(len(st[cmd[-1].lower()]))))
                elif a == "align":
                    c[a] = r.choice([-1, -1, 0, 1, 2, 3, 4, 5])
                elif a == "shift":
                    c[a] = r.randint(-8, 8)
                else:
                    c[a] = r.randint(9, 60)
            out.append(c)
        return out
