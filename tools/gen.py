#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE
H = os.path.join(os.path.dirname(__file__), "..")
C = "paladin-core/src/"
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        a = p["anchors"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["for_all"]}, "why_tests_cant": p["why"],
             "anchors": {"files": sorted({C + x if not x.startswith("paladin-") else x for x, _, _ in a}),
                         "mechanism": [{"name": n, "where": (C + x if not x.startswith("paladin-") else x) + ": " + w} for x, n, w in a]}}
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["level_note"]} for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
     "notes": "Static analysis only: a rustc driver extracts the typed MIR of /repo's crates on every run and path-sensitive rules decide each property over it. No hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")
