#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMS: property -> (level, technique, note)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
from claims import CLAIMS, NOT_APPLICABLE
checks = []
for p in props:
    if p not in CLAIMS: continue
    level, tech, note = CLAIMS[p]
    checks.append({"property": p, "quick_cmd": "bash run.sh %s" % p,
                   "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s" % p,
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in CLAIMS],
     "notes": "Every check rebuilds the checker (module mc) against /repo's working tree through a replace directive; no hooks are committed to /repo. Repaired defects are listed in known_findings.jsonl."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
