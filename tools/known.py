#!/usr/bin/env python3
"""Writes known-findings.jsonl: the repaired defects (from the fix: commits) and the recorded ones."""
import json, os, subprocess
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject of the fix: commit -> property it broke
    "release the phrase's own data": "C02", "allocate the array table": "C02", "keep the phrase's input dimension": "C01",
    "rescale the output modality": "C04", "a phrase with no frame is empty": "C01", "assigning an attribute does not": "C20",
    "bound vector attribute access": "C20", "training set copies own": "C03", "propagate the limits": "C03",
    "removePhrasesOfClass": "C03", "assigning a phrase or reading": "C03", "shared parameters can be switched back": "C20",
    "change the sign": "C08", "release the intermediate": "C08", "set a gaussian from": "C09", "ellipses of isotropic": "C09",
    "setting the current covariance mode": "C08", "read gaussians with": "C06", "keep the input dimension of gaussians": "C08",
    "orientation of ellipses": "C09", "the message of JSON": "C07", "read floating-point": "C06", "reject negative": "C07",
    "check the sizes of the data": "C07", "check the column names and": "C07", "check the components": "C07",
    "assigning HMM parameters": "C24", "allocate the forward": "C12",
    "count each likelihood": "C12", "initial likelihood of ergodic": "C12", "no result or state": "C12",
    "estimate the prior": "C10", "transitions of states that": "C10", "the window of states": "C13",
    "the progress of hierarchical": "C12", "output covariance of the likeliest": "C13", "exit probabilities of": "C25",
    "mixture regression of": "C13", "copies of KMeans": "C15", "filter with KMeans": "C21", "training flags": "C17",
    "races between": "C19", "copies of models": "C15", "floating-point parameters refuse": "C20",
    "shared parameters can be switched to bimodal": "C20",
}
PROP.update(json.load(open(os.path.join(top, "tools", "known-more.json"))) if os.path.exists(os.path.join(top, "tools", "known-more.json")) else {})
log = subprocess.run(["git", "-C", os.environ.get("VF_REPO", "/repo"), "log", "--reverse", "--format=%h\t%s", "e83ab93..HEAD"],
                     capture_output=True, text=True, check=True).stdout
with open(os.path.join(top, "known-findings.jsonl"), "w") as f:
    for line in log.splitlines():
        h, s = line.split("\t", 1)
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        if s == "reading a configuration from JSON sets its values":  # reverted: it changed nothing
            continue
        p = [v for k, v in PROP.items() if s.startswith(k)]
        assert len(p) == 1, (s, p)
        f.write(json.dumps(dict(status="fixed", property=p[0], commit=h,
                                text="fixed: property=%s %s %s" % (p[0], h, s))) + "\n")
    rec = os.path.join(top, "tools", "recorded-findings.jsonl")
    if os.path.exists(rec):
        f.write(open(rec).read())
