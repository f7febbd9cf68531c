#!/usr/bin/env python3
"""Writes /verif/BOUNDS.md from the evidence files (run the checks on the unchanged tree first)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Bounds", "", "Spaces explored by the quick tier on the unchanged tree, from the evidence files. *cases* are executions of one index each;",
       "*states* counts answers compared (queries, stored objects, ...). The thorough tier runs the same spaces with larger bounds and more of them.", ""]
for k in range(1, 100):
    p = os.path.join(ROOT, "evidence", "C%02d.json" % k)
    if not os.path.exists(p):
        continue
    e = json.load(open(p))
    if e["tier"] != "quick" or e["violations"]:
        continue
    c = e["coverage"]
    out += ["## %s" % e["property"], ""]
    s = c.get("schedules")
    if s:
        out += ["schedules: `%s`" % json.dumps(s)[:700], ""]
    if len(c["spaces"]) > 60:
        groups = {}
        for x in c["spaces"]:
            g = groups.setdefault(("/".join(x["space"].split(",")[0].split(" ")[0].split("/")[:2]), x["profile"]), [0, 0, 0, True])
            g[0] += 1; g[1] += x["cases"]; g[2] += x["states"]; g[3] &= x["complete"]
        out += ["| group of spaces | build | spaces | cases | states | complete |", "|---|---|---|---|---|---|"]
        out += ["| %s | %s | %d | %d | %d | %s |" % (a[0], a[1], *g[:3], "yes" if g[3] else "no") for a, g in groups.items()]
    else:
        out += ["| space | build | bounds | cases | states | complete |", "|---|---|---|---|---|---|"]
        out += ["| %s | %s | %s | %d | %d | %s |" % (x["space"].replace("|", "/"), x["profile"], json.dumps(x["bounds"])[:200].replace("|", "/"), x["cases"], x["states"], "yes" if x["complete"] else "no") for x in c["spaces"]]
    out.append("")
open(os.path.join(ROOT, "BOUNDS.md"), "w").write("\n".join(out))
