#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in properties.py (run after editing that file)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import PROPS, NOT_CLAIMED
OUT = os.path.dirname(HERE)
TECH = "static analysis: "
with open(os.path.join(OUT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        r = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in NOT_CLAIMED:
        na.append(dict(property=p["id"], reason=NOT_CLAIMED[p["id"]]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"],
                       technique=TECH + p["tech"], level=p.get("level", "other"), level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 engine/dump.py", checks=checks, not_applicable=na,
               notes="Every check analyses the type-checked program (MIR) of /repo's current tree through /verif/driver; nothing of /repo is executed."),
          open(os.path.join(OUT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
