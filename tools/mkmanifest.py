#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from checks/props.py and properties.jsonl."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks = []
for i in ids:
    if i in props.P:
        p = props.P[i]
        checks.append({"property": i, "quick_cmd": f"python3 checks/run.py {i} quick",
                       "thorough_cmd": f"python3 checks/run.py {i} thorough",
                       "technique": p.get("technique", "explicit TLA+ specification: TLC explores the model and judges every behaviour recorded from the real code against it"),
                       "level": p["level"], "level_note": p.get("note", "the model is exhaustive within the bounds of its .cfg files; the binding to the code is by conformance of recorded behaviours (sampled beyond the enumerated inputs)")})
m = {"version": 1, "setup_cmd": "true", 
     "checks": checks, "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in props.P],
     "notes": "see DESIGN.md; known findings and repaired defects are in known_findings.txt"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in m["not_applicable"]])
