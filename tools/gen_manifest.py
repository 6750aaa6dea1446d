"""Writes MANIFEST.json from the properties and the checks that exist."""
import json
import os
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": n.get("technique", "TLA+ specification checked with TLC; recorded executions of the code judged by TLC against the specification"),
            "level": "model_checking",
            "level_note": n.get("note", "Every recorded execution is judged by TLC against the specification; assurance covers the executions generated (seeded, bounded) and the exhaustive small models."),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "check under construction: specified in DESIGN.md, not claimed yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the public API exposes the abstract state. Specification language: TLA+ (TLC)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
