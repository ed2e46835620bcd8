#!/usr/bin/env python3
"""Source of MANIFEST.json (run from /verif: python3 tools/mkmanifest.py)."""
import json, sys
sys.path.insert(0, "bin")
from registry import CHECKS, TECH, NOT_APPLICABLE
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for pid in sorted(CHECKS):
    t, lv, note = TECH[pid]
    m["checks"].append(dict(property=pid, quick_cmd="python3 bin/check %s quick" % pid,
                            thorough_cmd="python3 bin/check %s thorough" % pid,
                            technique=t, level=lv, level_note=note))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
for i in ids:
    if i not in CHECKS:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
