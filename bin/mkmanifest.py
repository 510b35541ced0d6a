#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check.py %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": plan.TECHNIQUE.get(i, "TLA+ specification checked with TLC; recorded executions of the real code judged against it by TLC"),
        "level": "model_checking",
        "level_note": plan.NOTES.get(i, plan.NOTE),
    })
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness links the unmodified sources. bin/replay.py PROPERTY FILE runs a reported case again. Known findings: known-findings.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
