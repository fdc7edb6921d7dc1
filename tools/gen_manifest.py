#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "checks"))
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run_check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run_check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", "model-based property testing: generated operation histories against a reference model, with ASan/UBSan"),
                   "level": c["level"], "level_note": c.get("level_note", "sampled, not exhaustive: held on every generated case; see coverage in the evidence file")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Each check compiles its own harness from /repo/include and searches generated cases; no hooks in /repo are needed. Failures are shrunk to a replay file under replays/."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
