#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json; CLAIMED and NA are kept in step with DESIGN.md."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "Every check runs govc (/verif/govc), a deductive verifier for go/ssa, over the contracts in /verif/spec against /repo's current source, and the concrete search of /verif/harness beside it. See DESIGN.md."}
for i in ids:
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": CLAIMED[i] + " " + COMMON})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
