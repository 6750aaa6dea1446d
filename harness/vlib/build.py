"""Building and reading fonts with the code under test."""
import io
import os
import tempfile


def vfb_class():
    from vfbLib.vfb.vfb import Vfb
    return Vfb


def entry_class():
    from vfbLib.vfb.entry import VfbEntry
    return VfbEntry


def read(raw, **kw):
    v = vfb_class()(timing=False, **kw)
    v.read_bytes(io.BytesIO(bytes(raw)))
    return v


def read_path(raw, suffix=".vfb", **kw):
    from pathlib import Path
    fd, p = tempfile.mkstemp(suffix=suffix, prefix="vfbchk.")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(bytes(raw))
        return vfb_class()(Path(p), timing=False, **kw)
    finally:
        os.unlink(p)


def write(v):
    b = io.BytesIO()
    v.write_bytes(b)
    return b.getvalue()


def entries(v):
    """[(id, data)] of the entries as they are."""
    return [(e.id, e.data) for e in v.entries]


def compiled(e):
    """The bytes of an entry; compiles it if needed."""
    e.compile()
    return e.data


def context_vfb(masters=1, platform="macos", v=0, h=0):
    """An empty font with the state that record decoders look at, set the way a file
    would set it."""
    from . import corpus
    num = lambda n: bytes([n + 0x8B])  # noqa: E731
    stems = b"".join(num(n) + b"\x8b\x00\x8b" * n for n in (v, h))
    es = [(10, b"\x01" + num(0 if platform == "windows" else 1) + b"\x02\xff\x05\x02\x02\x80\x03\x8b\x00"),
          (1503, bytes([masters & 255, masters >> 8])), (1269, stems)]
    return read(corpus.file_bytes(es))
