#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import checks as C
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
out = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for i in ids:
    if i in C.CHECKS:
        s = C.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=s["technique"], level="model_checking", level_note=s["note"]))
    else:
        out["not_applicable"].append(dict(property=i, reason=C.NOT_CLAIMED.get(i, "no check has been built for this property yet; it is not claimed")))
with open(H + "/MANIFEST.json", "w") as f: json.dump(out, f, indent=1); f.write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
