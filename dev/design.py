#!/usr/bin/env python3
"""Fills the per property section of DESIGN.md from HOW below, spec.py and meta.py: dev/design.py > DESIGN.md after editing design.head / design.tail."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import meta, spec
H = os.path.join(V, "dev")
HOW = {}
exec(open(os.path.join(H, "design_how.py")).read())
out = [open(os.path.join(H, "design.head")).read()]
for p in sorted(meta.PROPERTIES, key=lambda p: p["id"]):
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i not in spec.PROPS:
        out.append("Not applicable: " + next(n["reason"] for n in meta.NOT_APPLICABLE if n["property"] == i) + "\n")
        continue
    how, why, cost = HOW[i]
    jobs = spec.PROPS[i]["jobs"]
    q = [j for j in jobs if not j["thorough"]]
    ents = []
    for j in jobs:
        e = "%s/%s" % (j["crate"], j["entry"])
        if e not in ents:
            ents.append(e)
    out.append("* Entries: " + ", ".join("`%s`" % e for e in ents) + "; %d quick jobs, %d more in the thorough run." % (len(q), len(jobs) - len(q)))
    out.append("* Decided how: " + how)
    out.append("* Bounds: " + spec.PROPS[i]["bounds"])
    out.append("* Outside: " + spec.PROPS[i]["outside"])
    out.append("* Beyond the tests: " + why)
    out.append("* Cost: " + cost + "\n")
import json
rows = ["| change | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
out.append(open(os.path.join(H, "design.tail")).read().replace("@@SEEDS@@", "\n".join(rows) + "\n"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
