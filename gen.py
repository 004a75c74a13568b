#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and spec.py."""
import json, os
import meta, spec
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(meta.PROPERTIES, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
checks = []
for p in sorted(meta.PROPERTIES, key=lambda p: p["id"]):
    i = p["id"]
    if i not in spec.PROPS:
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "symbolic execution of the compiled code's LLVM IR, decided by z3 (bit-vectors)",
                   "level": "model_checking", "level_note": spec.PROPS[i]["bounds"] + " " + meta.LEVEL_NOTE})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": meta.NOT_APPLICABLE}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
na = {x["property"] for x in meta.NOT_APPLICABLE}
ids = {p["id"] for p in meta.PROPERTIES}
assert ids == na | {c["property"] for c in checks} and not na & {c["property"] for c in checks}, (ids, na)
assert all(len(p["title"]) <= 80 for p in meta.PROPERTIES)
