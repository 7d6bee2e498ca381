#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from props import PROPS
root = pathlib.Path(__file__).resolve().parent.parent
with open(root / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
try:
    from claims import CLAIMS, NOT_APPLICABLE
except ImportError:
    CLAIMS, NOT_APPLICABLE = {}, {}
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CLAIMS:
        c = CLAIMS[i]
        checks.append({"property": i,
                       "quick_cmd": f"./check {i}",
                       "thorough_cmd": f"./check {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": c["technique"], "level": "exploration",
                       "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks,
           "not_applicable": na,
           "notes": "All checks run through ./check <id> (see DESIGN.md); the tier comes from VERIF_TIER."},
          open(root / "MANIFEST.json", "w"), indent=1)
