#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for pid in sorted(PROPS):
    c = PROPS[pid]
    checks.append(dict(property=pid, quick_cmd="python3 tools/run.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 tools/run.py " + pid,
                       evidence_file="evidence/%s.json" % pid, technique=c["technique"], level="exploration", level_note=c["note"]))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 tools/run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: all monitors observe public interfaces, sanitizer reports, coverage callbacks and allocation, and build the sources of /repo's working tree with their own flags. Repairs of defects are the fix: commits listed in known_findings.json.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), len(na))
