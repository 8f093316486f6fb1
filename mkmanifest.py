#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl (run after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "harness"))
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p, "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", "exhaustive bounded enumeration of executions of the real code against a reference model (stateless model checking)"),
                            "level": "model_checking", "level_note": "Completed bound: " + c["bound"] + ". Trusts: " + "; ".join(c["assumptions"]) + "."})
    else:
        m["not_applicable"].append({"property": p, "reason": checks.NOT.get(p, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
