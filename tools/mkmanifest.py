#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        c = props.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i} --tier quick", thorough_cmd=f"python3 tools/check.py {i} --tier thorough",
                           technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=getattr(props, "NOT_APPLICABLE", {}).get(i, "not built yet: its specification and driver are still to be written")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
