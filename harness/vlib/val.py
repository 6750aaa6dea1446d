"""Projection of Python values to the tagged value trees the TLA+ modules use."""
import math
import struct


def tag(v):
    if v is None:
        return ["n"]
    if isinstance(v, bool):
        return ["b", int(v)]
    if isinstance(v, int):
        v = int(v)
        if -(2**31) <= v < 2**31:
            return ["i", v]
        if 0 <= v < 2**32:
            return ["u", v >> 16, v & 0xFFFF]
        return ["big", str(v)]
    if isinstance(v, float):
        return ["f", list(struct.pack("<d", v))]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, (bytes, bytearray)):
        return ["y", list(v)]
    if isinstance(v, (list, tuple)):
        return ["l", [tag(x) for x in v]]
    if isinstance(v, dict):
        if all(isinstance(k, str) for k in v):
            return ["d", {k: tag(x) for k, x in v.items()}]
        return ["m", [[tag(k), tag(x)] for k, x in v.items()]]
    if hasattr(v, "value") and isinstance(getattr(v, "value"), (int, str)):
        return tag(v.value)
    return ["?", type(v).__name__]


def scaled(v, scale, tol=1e-6):
    """[n] if v is n/scale."""
    if v != v or abs(v) > 1e12:
        return []
    n = round(v * scale)
    if abs(v * scale - n) > tol * max(1, abs(n)) or not -(2**31) <= n < 2**31:
        return []
    return [n]


def slope(v):
    """[n] if v is the angle of n/10000 in degrees."""
    if v != v or abs(v) > 90:
        return []
    n = round(math.tan(math.radians(v)) * 10000)
    if not -(2**31) <= n < 2**31 or abs(math.degrees(math.atan2(n, 10000)) - v) > 1e-9:
        return []
    return [n]


def rtag(v):
    """Like tag(), with texts as code points and reals in every form the format stores."""
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return tag(v)
    if isinstance(v, float):
        return ["f", list(struct.pack("<d", v)), scaled(v, 10**4), scaled(v, 10**8), slope(v)]
    if isinstance(v, str):
        return ["s", [ord(c) for c in v], v if all(32 <= ord(c) < 127 for c in v) else ""]
    if isinstance(v, (list, tuple)):
        return ["l", [rtag(x) for x in v]]
    if isinstance(v, dict):
        if all(isinstance(k, str) for k in v):
            return ["d", {k if k.isascii() else ascii(k): rtag(x) for k, x in v.items()}]
        return ["m", [[rtag(k), rtag(x)] for k, x in v.items()]]
    return tag(v)


def textdict(v):
    """A dictionary whose keys are texts of the font."""
    if not isinstance(v, dict) or not all(isinstance(k, str) for k in v):
        return ["?"]
    return ["sd", [[[ord(c) for c in k], rtag(x)] for k, x in v.items()]]


def q(v, scale, tol=1e-6):
    """A real number the format stores as the integer v*scale."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return ["qbad", tag(v)]
    if v != v or v in (float("inf"), float("-inf")):
        return ["qbad", ["s", repr(v)]]
    n = round(v * scale)
    if abs(v * scale - n) > tol * max(1, abs(n)):
        return ["qbad", ["s", repr(v)]]
    if not -(2**31) <= n < 2**31:
        return ["qbad", ["s", repr(v)]]
    return ["q", n]


def strip_null(t):
    return t
