#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts.py and properties.jsonl."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from contracts import PROPS, TECH, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=PROPS[i].get("technique", TECH), level=PROPS[i]["level"], level_note=PROPS[i]["note"], **({"theorems": PROPS[i]["theorems"]} if "theorems" in PROPS[i] else {})) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na, notes="No hooks in /repo: functions are extracted from the sources and the search uses the public API. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
