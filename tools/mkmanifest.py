#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC checks every recorded call of the real code against the TLA+ specification, with exact rational arithmetic and exact "
        "derivatives; scenarios are generated from the specification (exhaustive over small structures and short histories, pseudo-random beyond). "
        "Assumes the TLA+ definitions (themselves model-checked against each other), the compilers, and that unvisited inputs behave like visited ones.")
m = {"version": 1, "setup_cmd": "sh tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: every observation uses the public API and the generated files", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if hasattr(checks, p["id"]):
        m["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 tools/run.py " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 tools/run.py " + p["id"],
                            "technique": "TLA+ specification checked with TLC; conformance by replaying specification behaviours on the code and validating recorded traces",
                            "level": "model_checking", "level_note": checks.NOTES.get(p["id"], "") + NOTE})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
