#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rules present in fa/rules."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "fa", "rules", i.lower() + ".py")):
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py --property %s --tier quick" % i,
            "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "static analysis of the type-checked program"),
            "level": t.get("level", "proof"),
            "level_note": t.get("note", "Decided from the compiler's MIR of the current tree; trusts rustc and the models of std functions."),
        })
    else:
        na.append({"property": i, "reason": "not claimed yet: the rule for it is not built"})
json.dump({"version": 1, "setup_cmd": "python3 -m fa.build", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of rustc MIR; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
