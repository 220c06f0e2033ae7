#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/targets.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from targets import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 bin/check.py build",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the explorer takes control at the pthread/futex/clock level and through compiler instrumentation of unmodified sources."}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} quick", "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": "model_checking",
                        "level_note": f"Bounds: {c['bounds']}. {c['note']}"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
