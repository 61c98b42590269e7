#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Specifications in specs/ (TLA+, TLC); drivers of the real code in harness/; see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        tech, note = checks.META.get(i, (None, None))
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech or "TLA+ specification model checked with TLC; TLC-generated behaviours replayed on the real code and recorded traces validated against the specification with TLC",
            "level": "model_checking",
            "level_note": note or checks.NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
