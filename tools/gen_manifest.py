#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and the list of properties."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from checks import CHECKS, TECH
props = [json.loads(l)["id"] for l in open(HERE + "/../properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for p in props:
    if p not in CHECKS: m["not_applicable"].append(dict(property=p, reason="check under construction")); continue
    t, note = TECH[p]
    m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p, technique=t, level=CHECKS[p]["level"], level_note=note))
m["notes"] = "No hooks in /repo: monitors sit at the public boundary (data sources, probe layers, streams, files). See DESIGN.md."
json.dump(m, open(HERE + "/../MANIFEST.json", "w"), indent=1)
