#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing meta/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["q"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
man = {"version": 1,
       "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'rules'); import facts; facts.build_tool()\"",
       "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": " ".join(p["na"].split())})
    else:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                              "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                              "evidence_file": "evidence/%s.json" % p["id"],
                              "technique": "static analysis: " + " ".join(p["tech"].split()),
                              "level": "other", "level_note": " ".join(p["note"].split())})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
