"""Regenerates MANIFEST.json from harness/registry.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.registry import CHECKS, COMMON  # noqa: E402

props = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p][2],
                 "level": "model_checking", "level_note": CHECKS[p][3] + COMMON} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CHECKS],
     "notes": "No hooks in /repo. Specifications are TLA+ (spec/), checked with TLC; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
