#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/table.py (developer tool; no check runs it)"""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NA

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(ROOT, "sa/props", p["id"] + ".py")):
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']}", thorough_cmd=f"./check.py {p['id']}", evidence_file=f"evidence/{p['id']}.json",
                       technique=p["tech"], level="other", level_note=p["note"]))
na = [dict(property=p["id"], reason=p["reason"]) for p in NA]
na += [dict(property=p["id"], reason="check not built yet") for p in PROPS if not os.path.exists(os.path.join(ROOT, "sa/props", p["id"] + ".py"))]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./check.py --version", checks=checks, not_applicable=na,
                   notes="Static analysis only: every check parses /repo/src anew and decides its obligations without executing it."), f, indent=1)
    f.write("\n")
