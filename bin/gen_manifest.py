#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
V = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i,
                           thorough_cmd="bin/check %s --tier thorough" % i, technique=P["technique"],
                           level=P.get("level", "model_checking"), level_note=P["note"]))
na = [dict(property=i, reason=props.NA.get(i, "specification and conformance check still to be written") if hasattr(props, "NA")
           else "specification and conformance check still to be written") for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: the public API exposes the state. Repairs are the fix: commits, listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
