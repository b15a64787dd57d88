#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from manifest_data import TECH, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "sa", "props", "p_%s.py" % p.lower())
    if os.path.exists(f) and p not in NA:
        tech, note = TECH[p]
        checks.append({"property": p, "quick_cmd": "python3 sa/check.py %s quick" % p,
                       "thorough_cmd": "python3 sa/check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no static check built for it yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "All checks read /repo/allantools/*.py (VERIF_REPO overrides the root for experiments); nothing of it is imported or run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
