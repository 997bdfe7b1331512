#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and harness/checks.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(ROOT, "harness/checks.json")))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]:
            anchors["state"] = p["state"]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in P:
    if p["id"] in checks:
        m["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick bin/check {p['id']}",
                            "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}",
                            "evidence_file": f"evidence/{p['id']}.json",
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "its check is not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
