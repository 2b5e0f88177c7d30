#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Generated-input search: nothing is shown for inputs outside those generated. Trusts the reference model and "
        "element types in /verif/harness, the compiler and the sanitizer runtimes.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                           technique=c.get("technique", "model-based property testing of random operation histories"),
                           level="exploration", level_note=c.get("note", NOTE)))
    else:
        na.append(dict(property=i, reason="no check has been built for it yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="check.py compiles each harness together with /repo/rpp from the working tree; see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
