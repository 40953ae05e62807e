#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = checks.NOT_APPLICABLE if hasattr(checks, "NOT_APPLICABLE") else {}
m = {"version": 1, "setup_cmd": "harness/setup.sh",
     "hooks": {"guard": "cfg(vp_hooks)", "enable": "harness/full/seafowl/build.rs emits rustc-cfg=vp_hooks", "source_commits": ["a2cd974"]},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {i}",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: its conformance harness is still being built")})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
