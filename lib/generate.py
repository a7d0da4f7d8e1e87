#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py (run by hand after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import PROPERTIES
from registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(PROPERTIES, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"] or p["files"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check rebuilds the sources it uses from /repo's working tree into /verif/.build (git-ignored). No hooks."}
for p in sorted(PROPERTIES, key=lambda p: p["id"]):
    assert p["id"] in CHECKS
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration",
        "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
