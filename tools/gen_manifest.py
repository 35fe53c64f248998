#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from registry import RULES, NA
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for p in props:
    if p in RULES:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                           thorough_cmd="python3 check.py %s --tier thorough" % p,
                           technique=RULES[p]["technique"], level="other", level_note=RULES[p]["note"]))
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in RULES]
m = dict(version=1, setup_cmd="make -s -j8 -C engine", checks=checks, not_applicable=na,
         notes="Static analysis of LLVM IR / debug info compiled from /repo on every run; see DESIGN.md.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
