"""Fills the tables of DESIGN.md (fixed defects, planted bugs)."""
import json, os, re
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
d = open(os.path.join(V, "DESIGN.md")).read()
fx = json.load(open(os.path.join(V, "known_findings.json")))["fixed"]
rows = ["| property | commit | what failed |", "|---|---|---|"]
for x in fx:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    rows.append("| %s | %s | %s |" % m.groups())
def put(d, k, rows):
    return re.sub(r"<!--%s-->.*?<!--/%s-->" % (k, k), lambda m: "<!--%s-->\n%s\n<!--/%s-->" % (k, "\n".join(rows), k), d, flags=re.S)
d = put(d, "fixed", rows)
sd = os.path.join(V, "seeded")
if os.path.isdir(sd):
    rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), m.get("caught_by", m["property"])))
    d = put(d, "seeded", rows)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
