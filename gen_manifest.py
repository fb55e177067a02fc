#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import components
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
TECH = getattr(components, "TECH", {})
NOTE = getattr(components, "NOTE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in components.PLAN:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, "TLA+ trace specification checked with TLC against recorded executions"),
                       "level": "model_checking", "level_note": NOTE.get(i, "Every recorded execution is a behaviour of the TLA+ specification; executions are seeded random samples.")})
    else:
        na.append({"property": i, "reason": components.NA.get(i, "check not built yet") if hasattr(components, "NA") else "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC; no hooks in /repo: the harnesses use the public interface only. known-findings.txt lists repaired defects."},
          open("/verif/MANIFEST.json", "w"), indent=1)
