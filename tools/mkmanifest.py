#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a harness; the rest is listed as not applicable, with the reason."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = "".join(open(os.path.join(d, f)).read() for d, _, fs in os.walk(root + "/harness") for f in fs if f.endswith(".go"))
have = set(re.findall(r'"(C\d\d)\.', src))
NOTE = json.load(open(root + "/tools/notes.json"))
NA = json.load(open(root + "/tools/na.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            technique="symbolic execution of the real code's SSA with z3, counterexamples replayed natively",
            level="model_checking",
            level_note="Bounded: holds for all values within the bounds of the harness (listed in the evidence). " + NOTE.get(i, NOTE["default"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=na,
    notes="One engine (gosym) executes the Go SSA of /repo and of the harnesses symbolically; see DESIGN.md."), open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
