"""C01: the variable-length number code."""
import io
import random
import sys
from contextlib import redirect_stdout

from vlib import guard, tlc
from vlib.report import Check
from vlib.val import tag


def api():
    from vfbLib.compilers.base import StreamWriter
    from vfbLib.compilers.value import write_value, write_value_long
    from vfbLib.parsers.base import StreamReader
    from vfbLib.parsers.value import read_value

    def dec_fn(stream, signed):
        return read_value(stream, signed=signed)

    def dec_cls(stream, signed):
        r = StreamReader()
        r.stream = stream
        return r.read_value(signed=signed)

    def enc_fn(v, signed):
        s = io.BytesIO()
        write_value(v, s, signed=signed)
        return s.getvalue()

    def enc_cls(v, signed):
        w = StreamWriter()
        w.write_value(v, signed=signed)
        return w.stream.getvalue()

    def long_fn(v):
        s = io.BytesIO()
        write_value_long(v, s)
        return s.getvalue()

    def long_cls(v):
        w = StreamWriter()
        w.write_value(v, shortest=False)
        return w.stream.getvalue()

    def dec_cli(data, signed):
        # the bytes can be given in one piece or in several, also within a number
        h = data.hex()
        cut = sorted({2 * (len(data) * k // 3) for k in range(len(data) % 4)} | {0, len(h)})
        parts = [h[a:b] for a, b in zip(cut, cut[1:])] or [""]
        out = yuri((["-s"] if signed else []) + parts).split()
        return [int(x) for x in out]

    def enc_cli(v, signed):
        return bytes.fromhex(yuri(["-e"] + (["-s"] if signed else []) + [str(v)]))

    def enc_many(vs, signed):
        return bytes.fromhex(yuri((["-s"] if signed else []) + ["-e"] + [str(v) for v in vs]))

    def long_cli(v):
        return bytes.fromhex(yuri(["--encode", "--long", "--signed", str(v)]))

    return (dec_fn, dec_cls), (enc_fn, enc_cls), (long_fn, long_cls), (dec_cli, enc_cli, long_cli, enc_many)


def yuri(args):
    """The command line tool for numbers."""
    from vfbLib.value import yuri as tool
    out = io.StringIO()
    old = sys.argv
    sys.argv = ["yuri"] + args
    try:
        with redirect_stdout(out):
            tool()
    finally:
        sys.argv = old
    return out.getvalue()


def main():
    c = Check("C01")
    rnd = random.Random(c.seed)
    decs, encs, longs, (dec_cli, enc_cli, long_cli, enc_many) = api()
    c.model("MC_Num", tlc.check("MC_Num"))
    vec = []

    def dec(b, signed):
        for f in decs:
            st = io.BytesIO(bytes(b))
            r = guard.call(f, st, signed, seconds=5)
            vec.append({"k": "dec", "bytes": list(b), "signed": int(signed),
                        "out": tag(r[1]) if r[0] == "ok" else ["exc", r[1]],
                        "used": st.tell()})

    def enc(v, signed):
        for f in encs + ((enc_cli,) if abs(v) in (107, 108, 1131, 1132) or rnd.random() < 0.02 else ()):
            r = guard.call(f, v, signed, seconds=5)
            vec.append({"k": "enc", "value": tag(v),
                        "bytes": list(r[1]) if r[0] == "ok" else [r[1]]})

    # every lead byte, alone and with what follows
    for b0 in range(256):
        for s in (True, False):
            dec([b0], s)
            dec([b0, rnd.randrange(256), rnd.randrange(256), rnd.randrange(256),
                 rnd.randrange(256), rnd.randrange(256)], s)
    for b0 in range(0xF7, 0xFF):
        for b1 in range(256):
            dec([b0, b1] + [rnd.randrange(256)] * (b1 % 2), bool(b1 & 2))
    edge = [0, 1, 0x7F, 0x80, 0xFF]
    for a in edge:
        for b in edge:
            for d in edge:
                for e in edge:
                    dec([255, a, b, d, e], (a + b + d + e) % 2 == 0)
                    dec([255, a, b, d, e], (a + b + d + e) % 2 == 1)
    for _ in range(400 if not c.thorough else 20000):
        dec([255] + [rnd.randrange(256) for _ in range(4)], rnd.random() < 0.5)
    for k in range(1, 5):
        for _ in range(12):
            dec([255] + [rnd.choice([0, 1, 128, 255, rnd.randrange(256)]) for _ in range(k - 1)],
                rnd.random() < 0.5)
    dec([], True)
    w = 1500 if not c.thorough else 70000
    for v in range(-w, w + 1):
        enc(v, True)
        if v >= 0:
            enc(v, False)
    for k in range(8, 32):
        for d in (-2, -1, 0, 1, 2):
            for s in (1, -1):
                v = s * 2**k + d
                if -(2**31) <= v < 2**31:
                    enc(v, True)
                if 0 <= v < 2**32:
                    enc(v, False)
    for v in (2**32 - 1, 2**32 - 2, 2**31, 2**31 + 1, 0xFF00FF00):
        enc(v, False)
    for _ in range(400 if not c.thorough else 20000):
        enc(rnd.randrange(-(2**31), 2**31), True)
        enc(rnd.randrange(0, 2**32), False)
        v = rnd.choice([rnd.randrange(-2000, 2000), rnd.randrange(-(2**31), 2**31)])
        for f in longs + ((long_cli,) if rnd.random() < 0.3 else ()):
            r = guard.call(f, v, seconds=5)
            vec.append({"k": "long", "value": tag(v),
                        "bytes": list(r[1]) if r[0] == "ok" else [r[1]]})
    # values that no form can hold
    for _ in range(60 if not c.thorough else 2000):
        signed = rnd.random() < 0.5
        v = rnd.choice([1, -1]) * (2 ** rnd.choice([31, 32, 32, 33, 39]) + rnd.choice([0, 1, rnd.randrange(2000), rnd.randrange(2**31)]))
        if rnd.random() < 0.3:
            v = rnd.choice([2**31, 2**32, -(2**31) - 1, -1132, -2000, -(2**31)])
        for f in encs + (enc_cli,):
            r = guard.call(f, v, signed, seconds=5)
            vec.append({"k": "big", "neg": int(v < 0), "mag": list(abs(v).to_bytes(6, "big")), "signed": int(signed),
                        "out": ["ok"] if r[0] == "ok" else ["exc", r[1]]})
        if signed:
            for f in longs + (long_cli,):
                r = guard.call(f, v, seconds=5)
                vec.append({"k": "big", "neg": int(v < 0), "mag": list(abs(v).to_bytes(6, "big")), "signed": 1,
                            "out": ["ok"] if r[0] == "ok" else ["exc", r[1]]})
    for _ in range(80 if not c.thorough else 2000):
        signed = rnd.random() < 0.5
        vs = [rnd.choice([rnd.randrange(0, 1200), rnd.randrange(0, 2**31)]) * (rnd.choice([1, -1]) if signed else 1)
              for _ in range(rnd.randrange(1, 5))]
        r = guard.call(enc_many, vs, signed, seconds=5)
        vec.append({"k": "many", "values": tag(vs), "bytes": list(r[1]) if r[0] == "ok" else [r[1]]})
    # streams of numbers: nothing is lost or read twice between them
    for _ in range(150 if not c.thorough else 4000):
        bs = []
        for _ in range(rnd.randrange(1, 9)):
            lead = rnd.choice([rnd.randrange(32, 247), rnd.randrange(247, 255), 255])
            n = 0 if lead < 247 else 1 if lead < 255 else 4
            bs += [lead] + [rnd.randrange(256) for _ in range(n)]
        if rnd.random() < 0.2:
            bs = bs[:-1]
        signed = rnd.random() < 0.5

        def run(f):
            st = io.BytesIO(bytes(bs))
            out = []
            while st.tell() < len(bs):
                out.append(f(st, signed))
            return out
        for f in decs + (dec_cli,):
            r = guard.call(dec_cli, bytes(bs), signed, seconds=5) if f is dec_cli else guard.call(run, f, seconds=5)
            vec.append({"k": "strm", "bytes": bs, "signed": int(signed),
                        "out": tag(r[1]) if r[0] == "ok" else ["exc", r[1]]})
    size = 60
    events = [{"batch": vec[i:i + size]} for i in range(0, len(vec), size)]
    bad, st = tlc.judge("C01", events)
    c.judged("numbers", events, bad, st)
    c.extra["vectors"] = len(vec)
    c.extra["by_kind"] = {k: sum(1 for v in vec if v["k"] == k)
                          for k in ("dec", "enc", "long", "big", "many", "strm")}
    c.finish()
