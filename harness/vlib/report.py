"""Collecting verdicts, known findings, replay files and evidence."""
import json
import os
import sys
import time

VERIF = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.violations = []
        self.known = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.kinds = {}
        try:
            with open(KNOWN) as f:
                kf = json.load(f)
        except FileNotFoundError:
            kf = {"findings": []}
        self.findings = [x for x in kf["findings"]
                         if x["property"] == prop and x.get("status") == "known"]

    def model(self, name, st):
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.extra.setdefault("models", {})[name] = {
            "distinct_states": st["distinct"], "states_generated": st["generated"]}

    def judged(self, name, events, bad, st, describe=None):
        """Book the verdicts of tlc.judge: every event is one validated trace."""
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.traces += len(events)
        self.extra.setdefault("traces", {})[name] = len(events)
        step = max(1, len(events) // 3)
        for i in range(0, len(events), step):
            if len(self.samples) < 12:
                s = json.dumps(events[i])
                self.samples.append({"kind": name, "event": events[i]} if len(s) < 1500
                                    else {"kind": name, "event": s[:1500] + "…"})
        for i, clause in sorted(bad.items()):
            self.violation(name + ": " + clause, events[i],
                           describe(events[i]) if describe else None)

    def violation(self, what, data=None, key=None):
        for f in self.findings:
            if self._matches(f, what, data, key):
                self.known.setdefault(f["id"], 0)
                self.known[f["id"]] += 1
                return
        self.violations.append((what, data, key))

    @staticmethod
    def _matches(f, what, data, key):
        m = f["match"]
        if "clause" in m and m["clause"] not in what:
            return False
        if "finding" in m:
            return isinstance(data, dict) and data.get("finding") == m["finding"]
        if "key" in m:
            return key == m["key"]
        return False

    def require(self, cond, what):
        """Non-vacuity: machinery failure when the run did not exercise something."""
        if not cond:
            raise SystemExit(f"machinery: vacuous run: {what}")

    def finish(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:12], **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {f['what']}"
                  f" (seen {self.known.get(f['id'], 0)} times in this run)")
        print(f"{self.prop} {self.tier}: {self.traces} traces judged, {self.states} states, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        if self.violations:
            out = os.path.join(VERIF, "out", self.prop)
            os.makedirs(out, exist_ok=True)
            for x in os.listdir(out):
                if x.startswith("violation_"):
                    os.unlink(os.path.join(out, x))
            per = {}
            for v in self.violations:
                per[v[0]] = per.get(v[0], 0) + 1
            for w, n in sorted(per.items(), key=lambda x: -x[1])[:20]:
                print(f"  {n} x {w[:300]}")
            shown = []
            for v in self.violations:  # one example of each kind first
                if all(v[0] != w[0] for w in shown):
                    shown.append(v)
            for k, (what, data, key) in enumerate(shown[:5]):
                p = os.path.join(out, f"violation_{k}.json")
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "clause": what, "event": data,
                               "key": key, "seed": self.seed, "tier": self.tier}, f, indent=1)
                print(f"  {what[:400]}")
                print(f"VIOLATION property={self.prop} replay={p}")
            sys.stdout.flush()
            sys.exit(1)
        sys.exit(0)
