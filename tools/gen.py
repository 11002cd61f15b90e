#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
sys.path[:0] = [here, top]
from properties import PROPERTIES
from props import PROPS
from notes import TECHNIQUE, NOTE
with open(os.path.join(top, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPERTIES:
    i = p["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECHNIQUE[i], level="exploration",
                           level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="the check is still being built"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes the public API, sanitizer reports and heap accounting. "
               "Defects found and repaired are listed in known-findings.jsonl and DESIGN.md.")
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
