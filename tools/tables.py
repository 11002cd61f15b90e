#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from known-findings.jsonl and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
fixed = ["| property | commit | what failed |", "| --- | --- | --- |"]
for l in open(V + "/known-findings.jsonl"):
    d = json.loads(l)
    if d["status"] == "fixed":
        fixed.append("| %s | %s | %s |" % (d["property"], d["commit"], d["text"].split(" ", 3)[-1]))
notes = json.load(open(V + "/tools/seeded-notes.json"))
rows = ["| bug | breaks | needs | first |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, d["what_it_breaks"], d["needs"], notes.get(i, "caught")))
for name, t in (("fixed", fixed), ("seeded", rows)):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, "\n".join(t), name), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
