#!/usr/bin/env python3
"""Writes MANIFEST.json from nv/props.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from nv.props import PROPS, NOT_APPLICABLE

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in PROPS:
        P = PROPS[pid]
        checks.append({"property": pid, "quick_cmd": "python3 run.py %s" % pid,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": P["technique"], "level": "other", "level_note": P["note"]})
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE[pid]})
json.dump({"version": 1, "setup_cmd": "bash exporter/build.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of /repo's sources only; no hooks in /repo. The checks export the syntax trees of every translation unit with a clang tool built by setup_cmd (and rebuilt on demand)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
