#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vc import registry
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    s = registry.SPECS.get(i)
    if s is None:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i, thorough_cmd="./check.py %s --tier thorough" % i,
                       technique=s.technique, level="proof", level_note=s.level_note()))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks export the SSA form of the code as it is and compile the harness through an overlay. "
               "Genuine defects found are in known-findings.txt.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
