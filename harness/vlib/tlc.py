"""Running TLC: vector/trace judging and exhaustive model checking."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "spec")
SPEC = os.path.normpath(SPEC)
CP = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)


class MachineryError(Exception):
    pass


def _java(args, cwd, env=None, timeout=800, heap="6g"):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    cmd = [
        "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", f"-Djava.io.tmpdir={cwd}",
        "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC",
    ] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise MachineryError(f"TLC timed out: {args}") from x
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def scratch():
    return tempfile.mkdtemp(prefix="vfbtlc.")


def judge(module, events, extra_env=None, workers=8, timeout=800, batch=None):
    """Let TLC judge every event with module!Judge.

    Returns (verdicts, stats): verdicts maps event index to the failing clause for
    every event that is not "ok".
    """
    if not events:
        raise MachineryError(f"{module}: no events to judge")
    bad = {}
    gen = dist = 0
    todo = list(range(len(events)))
    rounds = 0
    while todo:
        rounds += 1
        if rounds > 12:
            break
        d = scratch()
        try:
            p = os.path.join(d, "events.ndjson")
            with open(p, "w") as f:
                for i in todo:
                    f.write(json.dumps(events[i], separators=(",", ":")) + "\n")
            with open(os.path.join(d, module + "_run.cfg"), "w") as f:
                f.write("INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n")
            env = {"EVENTS": p, "SPECDIR": SPEC}
            env.update(extra_env or {})
            for fn in os.listdir(SPEC):
                if fn.endswith(".tla") or fn.endswith(".json"):
                    os.symlink(os.path.join(SPEC, fn), os.path.join(d, fn))
            rc, out = _java(
                ["-workers", str(workers), "-metadir", os.path.join(d, "md"),
                 "-config", module + "_run.cfg", "-noGenerateSpecTE", module + ".tla"],
                d, env, timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        g, s = stats(out)
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"(.*?)"\s*>>', out, re.S):
            bad[todo[int(m.group(1)) - 1]] = re.sub(r"\s+", " ", m.group(2))
        done = set()
        for m in re.finditer(r'<<\s*"DONE",\s*(\d+)\s*>>', out):
            done.add(int(m.group(1)))
        if rc == 0 and "No error has been found" in out:
            gen += g
            dist += s
            if s != 2 * len(todo):
                raise MachineryError(
                    f"{module}: {len(todo)} events but {s} states\n" + out[-3000:])
            break
        # An evaluation error: the event's value has a shape the specification cannot
        # even compare.  Name the event and go on with the others.
        mm = re.search(r"State \d+:[^\n]*\n(?:/\\ )?[^\n]*?\bji = (\d+)", out)
        if not mm:
            mm = re.search(r"\bji = (\d+)", out)
        if not mm:
            raise MachineryError(f"TLC failed on {module}:\n" + out[-4000:])
        k = int(mm.group(1)) - 1
        em = re.search(r"Error: (.*?)(?:\nError|\n\n|The behavior|State 1)", out, re.S)
        bad[todo[k]] = "shape: " + re.sub(
            r"\s+", " ", em.group(1) if em else "evaluation error")[:300]
        todo = [x for j, x in enumerate(todo) if j != k and x not in bad]
        # (events already judged in this round are judged again; that is harmless)
    return bad, {"generated": gen, "distinct": dist}


def check(module, cfg=None, workers=8, timeout=800, env=None, extra=None, heap="6g",
          expect_ok=True):
    """Exhaustive model checking of spec/<module>.tla with spec/<cfg>."""
    d = scratch()
    t = time.time()
    try:
        for fn in os.listdir(SPEC):
            if fn.endswith((".tla", ".json", ".cfg")):
                os.symlink(os.path.join(SPEC, fn), os.path.join(d, fn))
        rc, out = _java(
            ["-workers", str(workers), "-metadir", os.path.join(d, "md"),
             "-noGenerateSpecTE",
             "-config", (cfg or module) + ".cfg"] + (extra or []) + [module + ".tla"],
            d, env, timeout, heap)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    g, s = stats(out)
    ok = rc == 0 and "No error has been found" in out
    if expect_ok and not ok:
        raise MachineryError(f"model {module}/{cfg} does not check:\n" + out[-4000:])
    return {"generated": g, "distinct": s, "ok": ok, "out": out,
            "wall": time.time() - t}


def printed(out, label):
    """JSON values printed by PrintT(<<label, ToJson(x)>>), each once, in an order that
    doesn't depend on the workers of TLC."""
    res = set()
    for m in re.finditer(r'^<<\s*"' + label + r'",\s+"(.*)"\s*>>$', out, re.M):
        s = m.group(1)
        res.add(s.replace('\\"', '"').replace("\\\\", "\\"))
    return [json.loads(s) for s in sorted(res)]
