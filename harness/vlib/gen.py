"""Building random well-formed records from the layout table of the specification."""
import json
import struct

from . import tlc

EDGES = [0, 1, -1, 2, 5, 100, 107, 108, -107, -108, 363, 364, 1131, 1132, -1131, -1132, 1000, -1000,
         32767, -32768, 65535, 70000, -70000, 2**31 - 1, -2**31, 16777215, -16777216]


def tables():
    out = tlc.check("Layouts")["out"]
    return {k: tlc.printed(out, k)[0] for k in ("FONT", "ATT")}


def num(n, rnd=None):
    """A number, shortest form (or sometimes the long form when rnd is given)."""
    if -107 <= n <= 107 and not (rnd and rnd.random() < 0.03):
        return bytes([n + 139])
    if 108 <= n <= 1131 and not (rnd and rnd.random() < 0.03):
        return bytes([247 + (n - 108) // 256, (n - 108) % 256])
    if -1131 <= n <= -108 and not (rnd and rnd.random() < 0.03):
        return bytes([251 + (-n - 108) // 256, (-n - 108) % 256])
    return b"\xff" + (n & 0xFFFFFFFF).to_bytes(4, "big")


CP = [b for b in range(32, 256) if b not in (0x81, 0x8D, 0x8F, 0x90, 0x9D)]


class Gen:
    def __init__(self, rnd, ctx, noncanon=True):
        self.rnd = rnd
        self.ctx = ctx
        self.nr = rnd if noncanon else None

    def small(self, lo=0, hi=6):
        return self.rnd.choice([0, 1, 1, 2, 2, 3, self.rnd.randint(lo, hi)])

    def val(self):
        r = self.rnd
        return r.choice([r.choice(EDGES), r.randint(-200, 200), r.randint(-1500, 1500)])

    def n(self, v=None):
        return num(self.val() if v is None else v, self.nr)

    def un(self):
        r = self.rnd
        v = r.choice([self.val(), r.randrange(2**32), 2**31, 2**32 - 1])
        return num(v if v < 2**31 else v - 2**32, self.nr) if v >= 2**31 or v >= 0 else num(-v, self.nr)

    def text(self, n=None, long=10):
        r = self.rnd
        if n is None:
            n = self.small(0, 12) if r.random() < 0.95 else r.choice([107, 108, 120, 127, 128, 254, 255, 255, 256, 300][:long])
        return bytes(r.choice(CP) if r.random() < 0.4 else r.choice(b"abcXYZ .-_09") for _ in range(n))

    def pstr(self):
        t = self.text()
        return self.n(len(t)) + t

    def f64(self):
        r = self.rnd
        return struct.pack("<d", r.choice([0.0, 1.0, -1.5, 0.039625, 1e300, -0.0, 1 / 3, r.uniform(-1000, 1000),
                                           float(r.randint(-1000, 1000)), float("inf")]))

    def rep(self, n):
        return n[1] if n[0] == "n" else self.ctx.get(n[1], self.ctx["masters"] - 1)

    def cmdpoints(self, m, npt):
        return b"".join(self.n() + self.n() if self.rnd.random() < 0.1 else
                        self.n(self.rnd.randint(-300, 300)) + self.n(self.rnd.randint(-300, 300))
                        for _ in range(m * npt))

    def outlines(self, m=None, limited=True):
        r = self.rnd
        m = self.ctx["masters"] if m is None else m
        k = self.small(0, 12)
        tight = r.random() < 0.15       # as few bytes as there can be
        if tight:
            k = r.choice([k, 12, 40])
        nodes = b""
        nv = 0
        for _ in range(k):
            cmd = r.choice([0, 1, 1, 4] if tight else [0, 1, 1, 3, 3, 4])
            npt = 3 if cmd == 3 else 1
            nodes += bytes([r.randrange(16) * 16 + cmd])
            # coordinates are kept within 16 bits as in real fonts
            nodes += b"".join(self.n(r.choice([0, 1, -1] if tight else [0, 1, -1, r.randint(-200, 200), r.randint(-1500, 1500)]))
                              for _ in range(2 * m * npt))
            nv += 1 + 2 * m * npt
        return self.n(m) + self.n(2 * nv) + self.n(k) + nodes

    def rle(self, size, w_windows=False):
        """A run-length coded bitmap of that many bytes."""
        r = self.rnd
        out = b""
        left = size
        while left:
            k = r.choice([1, 2, 3, left, min(left, 128), min(left, 129), r.randint(1, left)])
            k = min(k, left)
            if r.random() < 0.5 and k >= 2:
                k = min(k, 129)
                out += bytes([(1 - k) & 255, r.randrange(256)])
            else:
                k = min(k, 128)
                v = r.randrange(256)
                out += bytes([k - 1]) + bytes(v if r.random() < 0.5 else r.randrange(256) for _ in range(k))
            left -= k
        return out

    def bitmap_dims(self):
        r = self.rnd
        w = r.choice([0, 1, 7, 8, 9, 15, 16, 17, 31, 33, r.randint(1, 70)])
        h = r.choice([0, 1, 1, 2, 3, 5, 20, 66])
        return w, h, ((w + 15) // 16) * 2

    def make(self, f):
        k = f[0]
        r = self.rnd
        if k in ("num", "q"):
            return self.n()
        if k == "slope":
            return self.n(r.choice([0, 1, -1, 10000, -10000, 5774, r.randint(-2000, 2000), r.randint(-200000, 200000),
                                    r.choice(EDGES)]))
        if k == "unum":
            return self.un()
        if k == "u8":
            return bytes([r.randrange(256)])
        if k == "s8":
            return bytes([r.choice([0, 1, 127, 128, 255, r.randrange(256)])])
        if k in ("u16", "s16"):
            return struct.pack("<H", r.choice([0, 1, 255, 256, 32767, 32768, 65535, r.randrange(65536)]))
        if k in ("u32", "s32"):
            return struct.pack("<I", r.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)]))
        if k == "f64":
            return self.f64()
        if k == "rec":
            return b"".join(self.make(g) for _, g in f[1])
        if k == "map":
            return b"".join(self.make(g) for _, g in f[1])
        if k == "tup":
            return b"".join(self.make(g) for g in f[1])
        if k == "arr":
            return b"".join(self.make(f[2]) for _ in range(self.rep(f[1])))
        if k in ("cnt", "idx"):
            n = self.small() if r.random() < 0.98 else r.choice([30, 107, 108, 120, 260])
            return self.n(n) + b"".join(self.make(f[1]) for _ in range(n))
        if k == "cidx":
            return b"".join(self.make(f[1]) for _ in range(self.rep(f[3])))
        if k == "end":
            return b"".join(self.make(f[1]) for _ in range(self.small(0, 12)))
        if k == "chars":
            return self.text(f[1]) if r.random() < 0.5 else self.text(r.randint(0, f[1])).ljust(f[1], b"\0")
        if k == "bstr":
            t = self.text(long=8)
            return bytes([len(t)]) + t
        if k == "pstr":
            return self.pstr()
        if k == "tail":
            return self.text()
        if k == "ztail":
            t = self.text()
            if f[1]:
                return t[:f[1]].ljust(f[1], b"\0")
            return t + (b"\0" if r.random() < 0.1 else b"")
        if k == "hex":
            return bytes(r.randrange(256) for _ in range(self.small(0, 20)))
        if k in ("bits", "flags"):
            return self.make(f[1])
        if k == "emptystr":
            return b""
        if k == "bits128":
            return bytes(r.choice([0, 0, 255, 128, 1, r.randrange(256)]) for _ in range(16))
        if k == "headflags":
            return self.n(r.choice([0, 1, 0x10000, 0x70000, -2**31, -1, 0x7FFFFFFF, 0x80000, r.randrange(2**20)]))
        if k == "flversion":
            parts = [b"\x01" + self.n(r.choice([0, 1])),
                     b"\x02\xff" + bytes(r.choice([0, 5, 2, 128, 255]) for _ in range(4)), b"\x03" + self.n()]
            if r.random() < 0.3:
                parts = r.sample(parts, r.randint(0, 3))
            if r.random() < 0.1:
                parts.append(bytes([r.randint(4, 99)]) + self.n())
            return b"".join(parts) + b"\0"
        if k == "keys":
            t = [x for x in f[2] if x[0] in f[3] or r.random() < 0.6]
            if r.random() < 0.4:
                r.shuffle(t)
            return b"".join(bytes([x[0]]) + self.make(x[2]) for x in t) + bytes([f[1]])
        if k == "fontoptions":
            ks = [x for x in range(1, 60) if r.random() < 0.5] + [114, 115]
            if r.random() < 0.5:
                ks = [r.choice([12, 13, 20, 48, 51, 1, 77, 114, 115, r.randrange(1, 256)]) for _ in range(self.small(0, 8))]
            if r.random() < 0.3:
                r.shuffle(ks)
            return b"".join(bytes([x]) + (self.n(r.randrange(0x4000)) if x in (20, 48) else self.n())
                            for x in ks if x != 100) + b"\x64"
        if k == "mapmode":
            ks = [1, 2, 3, 4]
            if r.random() < 0.3:
                r.shuffle(ks)
            return b"".join(bytes([x]) + self.n(r.choice([0, 1, 2, 3, 4, -1, 77]) if x == 1 else None) for x in ks) + b"\0"
        if k == "features":
            seps = [b"\r", b"\n", b"\r\n"]
            sep = r.choice(seps)
            out = b""
            for _ in range(self.small(0, 14)):
                out += r.choice([b"", b"", b"  ", b"\t", b"feature liga {", b" sub f i by f_i; # x", b"}", self.text()])
                out += sep if r.random() < 0.95 else r.choice(seps)
            return out + r.choice([b"", b"", b"languagesystem DFLT dflt;", b" "])
        if k == "namerec":
            mac = r.random() < 0.4
            n = self.small(0, 8) if r.random() < 0.93 else r.choice([107, 108, 256, 257, 300])
            cs = [r.randrange(256) if mac else r.choice([65, 0x20AC, 0xD83D, 0xDE00, 0xFFFF, 0x10FFFF, 0, r.randrange(256)])
                  for _ in range(n)]
            return self.n(r.randint(0, 20)) + (self.n(1) + self.n(0) if mac else
                                               self.n(r.choice([3, 3, 0, 1])) + self.n(r.choice([1, 10]))) \
                + self.n(r.choice([0, 1033])) + self.n(n) + b"".join(self.n(c) for c in cs)
        if k == "zonedeltas":
            n = self.small(0, 8)
            return self.n(n) + b"".join(self.n(r.choice([0, 1, 2, 5, 12])) + self.n(r.choice([9, 10, 11, 20])) + self.n()
                                        for _ in range(n))
        if k == "classflags":
            n = self.small()
            return self.n(n) + b"".join(self.pstr() + b"".join(self.n() for _ in range(f[1])) for _ in range(n))
        if k == "guideprops":
            out = b""
            for _ in range(2):
                for _ in range(self.small()):
                    i = r.choice([1, 2, 3, 4, 9, 200, -1])
                    c = r.choice([-1, -1, 0, 255, 0xFF00, 0xFF0000, 0xFFFFFF, r.randrange(2**24)])
                    out += self.n(i) + (num(c) if c < 0 else b"\xff" + c.to_bytes(4, "big") if r.random() < 0.8 else self.n(c))
                    out += self.pstr()
                out += self.n(0)
            return out
        if k == "gdef":
            out = self.n(r.randrange(5))
            n = self.small(0, 4)
            out += self.n(n) + b"".join(self.pstr() + self.n() + num(-1) + self.n() + num(-1) for _ in range(n))
            n = self.small(0, 4)
            out += self.n(n) + b"".join(self.n() + self.n() for _ in range(n))
            n = self.small(0, 4)
            return out + self.n(n) + b"".join(self.n() for _ in range(n))
        if k == "anchors":
            n = self.small()
            m = self.ctx["masters"]
            return self.n(n) + self.n(m) + b"".join(self.n() for _ in range(2 * n * m))
        if k == "outlines":
            return self.outlines()
        if k == "mask":
            n = r.choice([0, 1, 2, 4, 16])
            return self.n(n) + b"".join(self.n(r.choice([0, 10**8, 5 * 10**7, 33333333, self.val()])) for _ in range(n)) + self.outlines()
        if k == "links":
            out = b""
            for _ in range(2):
                n = self.small()
                out += self.n(n) + b"".join(self.n() for _ in range(2 * n))
            return out
        if k in ("background", "gbitmap"):
            w, h, bpr = self.bitmap_dims()
            data = self.rle(bpr * h)
            if k == "background":
                head = self.n() + self.n() + self.un() + self.un()
            else:
                head = self.un() + self.n() + self.n() + self.un() + self.un()
            return head + self.n(w) + self.n(h) + self.n(len(data)) + data
        raise KeyError(k)


def mutate(rnd, b):
    """A record that is probably damaged somehow."""
    b = bytearray(b)
    for _ in range(rnd.choice([1, 1, 2])):
        op = rnd.randrange(4)
        p = rnd.randrange(len(b)) if b else 0
        if op == 0 and b:
            b[p] = rnd.choice([0, 1, 31, 32, 139, 140, 141, 247, 255, rnd.randrange(256)])
        elif op == 1 and b:
            del b[p]
        elif op == 2:
            b.insert(p, rnd.choice([0, 139, 140, 255, rnd.randrange(256)]))
        elif b:
            b = b[:p]
    return bytes(b)


TT = {1: 2, 2: 2, 3: 4, 4: 4, 5: 3, 6: 3, 7: 2, 8: 2, 13: 4, 14: 4, 20: 4, 21: 4, 22: 4, 23: 4}


def program(rnd):
    """A TrueType program with complete push instructions."""
    out = b""
    for _ in range(rnd.randint(0, 8)):
        k = rnd.randrange(6)
        n = rnd.randint(1, 8)
        if k == 0:
            out += bytes([0xAF + n]) + bytes(rnd.randrange(256) for _ in range(n))
        elif k == 1:
            out += bytes([0xB7 + n]) + bytes(rnd.randrange(256) for _ in range(2 * n))
        elif k == 2:
            n = rnd.choice([1, 2, 9, 255])
            out += bytes([0x40, n]) + bytes(rnd.randrange(256) for _ in range(n))
        elif k == 3:
            n = rnd.choice([1, 3, 9])
            out += bytes([0x41, n]) + bytes(rnd.randrange(256) for _ in range(2 * n))
        else:
            out += bytes([rnd.choice([x for x in range(256) if x not in (0x40, 0x41) and not 0xB0 <= x <= 0xBF])])
    return out


class GlyphGen(Gen):
    """Random glyph records: sections with chosen probability, any admissible order."""

    def doubles(self):
        return struct.pack("<d", self.rnd.choice([1.0, 1.0, -1.0, 0.5, 2.0, 0.0, 1 / 3, self.rnd.uniform(-3, 3)]))

    def hints(self, gm):
        out = b""
        for _ in range(2):
            n = self.small()
            out += self.n(n) + b"".join(self.n() for _ in range(2 * n * gm))
        n = self.small() if self.rnd.random() < 0.6 else 0
        return out + self.n(n) + b"".join(bytes([self.rnd.choice([1, 2, 255])]) + self.n() for _ in range(n))

    def imported(self):
        r = self.rnd
        parts = []
        parts.append(b"\x29" + self.un() + b"".join(self.n() for _ in range(8)))
        nc = r.choice([-1, 0, 1, 2, 3])
        nn = self.small(0, 9)
        parts.append(b"\x2a" + self.n(nc) + b"".join(self.un() for _ in range(max(nc, 0))) + self.n(nn)
                     + b"".join(self.n(r.randint(-300, 300)) + self.n(r.randint(-300, 300)) + bytes([r.randrange(256)])
                                for _ in range(nn)))
        if r.random() < 0.8:
            p = program(r)
            parts.append(b"\x2b" + self.n(len(p)) + p)
        if r.random() < 0.8:
            n = self.small()
            parts.append(b"\x2c" + self.n(n) + bytes(r.randrange(256) for _ in range(n)))
        if r.random() < 0.2:
            r.shuffle(parts)
        return b"".join(parts) + b"\x28"

    def tth(self):
        n = self.small()
        cmds = b""
        for _ in range(n):
            c = self.rnd.choice(list(TT))
            cmds += bytes([c]) + b"".join(self.n() for _ in range(TT[c]))
        body = self.n(n) + cmds + b"\x8b\x8b\x8b"
        return self.n(len(body)) + body

    def glyph(self):
        r = self.rnd
        m = self.ctx["masters"]
        s = {}
        p = r.choice([0.2, 0.5, 0.8])
        if r.random() < 0.95:
            s[1] = self.pstr() if r.random() < 0.9 else self.n(0)
        s[8] = self.outlines(m)
        if r.random() < 0.95:
            s[2] = b"".join(self.n() for _ in range(2 * m))
        if r.random() < p:
            s[3] = self.hints(m)
        if r.random() < p:
            g = b""
            for _ in range(2):
                n = self.small()
                g += self.n(n) + b"".join(self.n() + self.make(["slope"]) for _ in range(n * m))
            s[4] = g
        if r.random() < p:
            n = self.small()
            s[5] = self.n(n) + b"".join(self.n() + b"".join(self.n() + self.n() + self.doubles() + self.doubles()
                                                            for _ in range(m)) for _ in range(n))
        if r.random() < p:
            n = self.small()
            s[6] = self.n(n) + b"".join(self.n(r.choice([1, 2, 3, r.randrange(2000)]))
                                        + b"".join(self.n() for _ in range(m)) for _ in range(n))
        if r.random() < p * 0.6:
            s[9] = self.imported()
        if r.random() < p:
            s[10] = self.tth()
        order = [1, 8, 2, 3, 4, 5, 6, 9, 10]
        if r.random() < 0.15:   # hardly anything else
            s = {k: s[k] for k in s if k in (1, 8, 2)}
        if r.random() < 0.15:
            rest = order[2:]
            r.shuffle(rest)
            order = order[:2] + rest
        return b"\x01\x09\x07\x01" + b"".join(bytes([k]) + s[k] for k in order if k in s) + b"\x0f"
