#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py and validates them."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, checks, na = [], [], []
P.sort(key=lambda p: p["id"])
for p in P:
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a})
    if p["claim"]:
        c = p["claim"]
        checks.append({"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "bin/check %s --thorough" % p["id"],
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md. properties.jsonl and this file are generated by meta/gen.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not applicable")
