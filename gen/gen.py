#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (development aid)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NA, TECH
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        over, text = p["q"]
        a = p["a"]
        o = {"id": p["id"], "title": p["title"], "statement": p["st"],
             "quantifier": {"over": over, "text": text},
             "why_tests_cant": p["why"],
             "anchors": {"files": a["files"],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in a.get("state", [])],
                         "mechanism": [{"name": n, "where": w} for n, w in a["mech"]],
                         "observe_at": a.get("obs", []), "hook_needed": None}}
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
na = {x["property"] for x in NA}
m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
                 "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
                 "technique": p.get("tech", TECH), "level": "other", "level_note": p["note"]}
                for p in PROPS if p["id"] not in na],
     "not_applicable": NA,
     "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo's source and never build or run it with additions"},
     "notes": "Static analysis only: abstract interpretation of the SSA form of /repo's current source (tool/). DESIGN.md describes the domains, the rules, the bounds and what is left out."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
