"""Sample files and an independent reader and writer of the container."""
import glob
import hashlib
import os
import struct

REPO = os.environ.get("VFB_REPO", "/repo")


def files():
    r = sorted(glob.glob(os.path.join(REPO, "Tests/Data/*.vfb"))
               + glob.glob(os.path.join(REPO, "Reverse/*.vfb")))
    return r


def raw_entries(raw):
    """[(header bytes, id, data)] following the container format."""
    p = struct.unpack_from("<I", raw, 8)[0]
    masters = 0
    out = []
    while p < len(raw):
        rid, = struct.unpack_from("<H", raw, p)
        if rid & 0x8000:
            n, = struct.unpack_from("<I", raw, p + 2)
            h = raw[p:p + 6]
        else:
            n, = struct.unpack_from("<H", raw, p + 2)
            h = raw[p:p + 4]
        p += len(h)
        eid = rid & 0x7FFF
        if eid == 1410:
            n = 8 + 2 * masters
        data = raw[p:p + n]
        p += n
        if eid == 1503:
            masters, = struct.unpack("<H", data)
        out.append((h, eid, data))
        if eid == 2:
            break
    return out


def entry_bytes(eid, data):
    data = bytes(data)
    if len(data) > 0xFFFF:
        return struct.pack("<HI", eid | 0x8000, len(data)) + data
    return struct.pack("<HH", eid, len(data)) + data


def header_bytes(minor=0):
    return b"\x1aWLF10\x03" + bytes([minor]) + struct.pack("<I", 44) + bytes(32)


def file_bytes(entries, minor=0):
    return header_bytes(minor) + b"".join(entry_bytes(i, d) for i, d in entries)


def digest(b):
    return hashlib.md5(bytes(b)).hexdigest()[:16]


_cache = {}


def corpus_payloads():
    """{entry id: [(payload, context)]}: distinct payloads in all sample files."""
    if "p" in _cache:
        return _cache["p"]
    res = {}
    seen = set()
    for f in files():
        with open(f, "rb") as fh:
            raw = fh.read()
        ctx = {"masters": 0, "platform": "macos", "v": 0, "h": 0, "file": os.path.basename(f)}
        for _, eid, data in raw_entries(raw):
            if eid == 1503:
                ctx = dict(ctx, masters=struct.unpack("<H", data)[0])
            elif eid == 10:
                # key 1 is the platform, stored as a one-byte number
                if data[:1] == b"\x01":
                    ctx = dict(ctx, platform="windows" if data[1] == 0x8B else "macos")
            elif eid == 1269:
                v, h = _stem_counts(data)
                ctx = dict(ctx, v=v, h=h)
            key = (eid, data, ctx["masters"], ctx["platform"], ctx["v"], ctx["h"])
            if key in seen:
                continue
            seen.add(key)
            res.setdefault(eid, []).append((data, ctx))
    _cache["p"] = res
    return res


def num(b, p):
    v = b[p]
    if v < 0xF7:
        return v - 0x8B, p + 1
    if v <= 0xFA:
        return (v - 0xF7) * 256 + b[p + 1] + 108, p + 2
    if v <= 0xFE:
        return -(v - 0xFB) * 256 - b[p + 1] - 108, p + 2
    return struct.unpack_from(">i", b, p + 1)[0], p + 5


def _stem_counts(data):
    p = 0
    out = []
    for _ in range(2):
        n, p = num(data, p)
        out.append(n)
        for _ in range(n):
            _, p = num(data, p)
            p += 1 + data[p]
            _, p = num(data, p)
    return out
