#!/usr/bin/env python3
"""Write MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
       "notes": "See DESIGN.md. Every check enumerates its space completely; nothing is sampled."}
for p in ids:
    if p in checks.CHECK:
        man["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p,
                              "thorough_cmd": "python3 run.py %s thorough" % p,
                              "technique": checks.TECH.get(p, checks.MC),
                              "level": checks.LEVEL.get(p, "model_checking"),
                              "level_note": checks.NOTE[p]})
    else:
        man["not_applicable"].append({"property": p, "reason": checks.NA.get(p, checks.NA_DEFAULT)})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
