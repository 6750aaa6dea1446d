"""Single records through the real decoders and encoders."""
from . import build, guard, val

_ctx = {}


def context(ctx):
    key = (ctx["masters"], ctx["platform"], ctx["v"], ctx["h"])
    if key not in _ctx:
        _ctx[key] = build.context_vfb(*key)
    return _ctx[key]


def project(eid, v):
    if eid in (2024, 2026):
        return val.textdict(v)
    return val.rtag(v)


def trip(eid, data, ctx, seconds=5, project=project, wf=1):
    """Decode, encode, decode again; what happened at each step."""
    vfb = context(ctx)
    VfbEntry = build.entry_class()
    e = VfbEntry(vfb, eid=eid)
    e.data = bytes(data)
    ev = {"id": eid, "data": list(data), "ctx": {k: ctx[k] for k in ("masters", "platform", "v", "h")},
          "wf": wf, "dst": "?", "dec": ["?"], "est": "?", "enc": [], "dec2": ["?"], "stable": 1}
    r = guard.call(e.decompile, seconds=seconds)
    if r[0] != "ok":
        ev["dst"] = "HANG" if r[1] in ("HANG", "MemoryError") else "error"
        ev["kept"] = int(e.data == bytes(data))
        return ev
    ev["dst"] = "ok"
    ev["dec"] = project(eid, e.data)
    r = guard.call(e.compile, seconds=seconds)
    if r[0] != "ok" or not isinstance(e.data, bytes):
        ev["est"] = "error"
        ev["err"] = str(r[1:])
        return ev
    ev["est"] = "ok"
    ev["enc"] = list(e.data)
    e2 = VfbEntry(vfb, eid=eid)
    e2.data = e.data
    r = guard.call(e2.decompile, seconds=seconds)
    if r[0] == "ok":
        ev["dec2"] = project(eid, e2.data)
        r = guard.call(e2.compile, seconds=seconds)
        ev["stable"] = int(r[0] == "ok" and e2.data == e.data)
    return ev
