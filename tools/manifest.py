#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl and validates it when jsonschema is there."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "no hooks are needed in /repo: the monitors sit behind the library's own service interfaces, provider interface and mutex/condition variable interfaces", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Defects found in the library were repaired with fix: commits in /repo; see known_findings.json and DESIGN.md."}
for p in props:
    if p in plan.PLAN:
        c = plan.PLAN[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p,
                            "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"],
                            "level_note": c["note"] or plan.NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(m["checks"]), "checks")
except ImportError: pass
