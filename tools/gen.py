#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.py (development aid)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", [])}}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [],
     "notes": "All checks are static analyses of /repo's current source (SSA form built by golang.org/x/tools, vendored in analyzer/vendor); nothing of /repo is executed. Genuine defects found were repaired by fix: commits, see known_findings.txt."}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh -thorough " + p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
