#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks

TECH = "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the code and recorded traces of the code validated against the specification"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 /verif/tools/setup.py",
     "hooks": {"guard": "layout_verif", "enable": "RUSTFLAGS='--cfg layout_verif' (the checks build the harness crate in /verif/harness with it)",
               "source_commits": ["f14b879"]},
     "checks": [], "not_applicable": [],
     "notes": "Every check: python3 check.py <id>; see DESIGN.md. The verdict is TLC's on the specifications in spec/."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
            "technique": TECH, "level": "model_checking",
            "level_note": checks.NOTES.get(i, "Bounded: exhaustive on the model's constants; the code is checked on the behaviours replayed and recorded.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check is registered yet: its specification is under construction."})
if not m["not_applicable"]:
    m["not_applicable"] = []
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
