#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (development aid, not run by any check)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from catalog import PROPS
props, checks, na = [], [], []
for p in PROPS:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["for"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
    })
    assert len(p["title"]) <= 80, p["id"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({
            "property": p["id"], "quick_cmd": "./run.sh " + p["id"], "thorough_cmd": "./run.sh -tier thorough " + p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"],
        })
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is static: it loads /repo's current source, type-checks it, builds SSA and interprets it abstractly; nothing in /repo is executed. /repo carries no hooks."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
print(len(checks), "claimed,", len(na), "not applicable")
