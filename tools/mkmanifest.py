#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/plans.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/build.py"}
if plans.HOOKS:
    m["hooks"] = plans.HOOKS
m["checks"] = []
m["not_applicable"] = []
for p in props:
    if p in plans.PLANS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": "deterministic simulation with fault injection: " + plans.TECHNIQUE[p],
                            "level": "exploration", "level_note": plans.NOTE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": plans.NA[p]})
m["notes"] = "Replay a violation with: python3 check.py <property> --replay <file>. See DESIGN.md."
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
