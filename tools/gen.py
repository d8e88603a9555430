#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.py and specs.py (run after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/tools"]
from props import PROPS, NOT_APPLICABLE
from specs import SPECS
SUB = "subprojects/ufjfmltk-"
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["tests"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in SPECS: continue
    s = SPECS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough", technique=p["technique"], level=s["level"], level_note=p["note"]))
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE] + [dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in SPECS and p["id"] not in dict(NOT_APPLICABLE)]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na, notes="Every check compiles its harness together with /repo's headers and sources in a scratch directory under /tmp and removes it. No hooks in /repo are needed."), open(V + "/MANIFEST.json", "w"), indent=1)
import subprocess
print(len(PROPS), "properties,", len(checks), "checks")
