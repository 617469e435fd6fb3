#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (a property is claimed when it is listed here)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "TLA+ specification checked exhaustively with TLC; "
CHECKS = json.load(open(os.path.join(HERE, "claims.json")))
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check copies /repo's working tree to a scratch directory, builds the tools and the drivers there, runs TLC on /verif/spec and binds the model to the code by replaying TLC's behaviours and validating recorded executions."}
for c in CHECKS["claimed"]:
    m["checks"].append({"property": c["id"], "quick_cmd": "./check.py %s quick" % c["id"], "thorough_cmd": "./check.py %s thorough" % c["id"],
                        "evidence_file": "evidence/%s.json" % c["id"], "technique": T + c["bind"], "level": "model_checking", "level_note": c["note"]})
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
na = CHECKS["not_applicable"]
done = {c["property"] for c in m["checks"]}
m["not_applicable"] = [{"property": i, "reason": na.get(i, "check not built yet")} for i in ids if i not in done]
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
