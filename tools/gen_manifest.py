#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from mc/config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc")
from config import CHECKS
try: from config import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 mc/check.py %s quick" % i, "thorough_cmd": "python3 mc/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "The check for this property is not built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 mc/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Every check builds the library from /repo's working tree with its own flags (content-hash cached under /verif/build). No hooks are needed in /repo; the commits there are 'fix:' repairs listed in known_findings.jsonl."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
