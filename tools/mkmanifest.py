#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harnesses compile /repo's headers and src with compiler instrumentation and replace OS calls at link time. The commits in /repo are repairs only (see known_findings.json)."}
for i in ids:
    c = CHECKS.get(i)
    if not c: m["not_applicable"].append({"property": i, "reason": "no check built yet"}); continue
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", NOTES["technique"]), "level": c.get("level", "exploration"), "level_note": c.get("note", NOTES["note"])})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
