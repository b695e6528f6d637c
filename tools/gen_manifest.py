#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
sys.dont_write_bytecode = True
import areas
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in areas.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification checked with TLC; its behaviours replayed on the real code and the recorded traces validated with TLC",
                           level="model_checking", level_note=areas.NOTES[i]))
    else:
        na.append(dict(property=i, reason="no check has been built yet"))
json.dump(dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="none", enable="no hooks are needed: the driver uses the exported API and the wire", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. Findings and repairs: known_findings.json."), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
