#!/usr/bin/python3
"""Regenerates MANIFEST.json from the property modules present."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
V = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import importlib
checks, na = [], []
NA = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    if os.path.exists(V + "/pbt/props/%s.py" % pid.lower()) and pid not in NA:
        m = importlib.import_module("pbt.props." + pid.lower())
        checks.append(dict(property=pid, quick_cmd="./check.sh %s quick" % pid, thorough_cmd="./check.sh %s thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, level="exploration",
                           technique=getattr(m, "TECHNIQUE", "property-based testing: generated cases against an independent model, shrinking to a replay file"),
                           level_note=getattr(m, "LEVEL_NOTE", m.RULE)))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check built yet (work in progress)")))
json.dump(dict(version=1, setup_cmd="python3 -m pbt.build server cli pymod", checks=checks, not_applicable=na,
               notes="See DESIGN.md. Every check rebuilds the library from /repo's working tree into build/ and explores generated inputs."),
          open(V + "/MANIFEST.json", "w"), indent=1)
