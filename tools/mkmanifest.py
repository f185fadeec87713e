#!/usr/bin/env python3
"""Writes MANIFEST.json from catalog.py and the not-applicable list."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CATALOG
from mkprops import NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py plain asan",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"] + " Seeded sampling: a quiet run is evidence, not proof.",
    } for p, c in CATALOG.items()],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
    "notes": "No hooks in /repo: all seams are interposed from outside (DESIGN.md). A violation's replay file is executed by 'python3 check.py --replay FILE'.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
