#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = "/verif"
sys.path.insert(0, V + "/bin")
from plan import PLAN
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
NOTE = ("TLC explores the property's model exhaustively within the small scope given in DESIGN.md and every recorded "
        "execution of the real code (model-enumerated cases and seeded random ones) must be a behaviour of the TLA+ "
        "specification; executions outside the recorded ones are not covered. Trusts the driver's projection of real "
        "values to specification values and TLC.")
checks = []
for p in props:
    if p["id"] not in PLAN:
        continue
    q = PLAN[p["id"]]
    specs = sorted({d["spec"] for d in q["drivers"]} | {m[0] for m in q.get("models", ())})
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s" % p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % p["id"],
                       technique="TLA+ specification (%s): TLC model checking plus trace validation of the real code" % ", ".join(specs),
                       level=q.get("level", "model_checking"), level_note=q.get("note", NOTE)))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in props if p["id"] not in PLAN],
         notes="No hooks in /repo: the public API exposes everything the specifications talk about.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
