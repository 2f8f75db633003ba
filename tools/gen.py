#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in tools/table.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools")); sys.path.insert(0, os.path.join(HERE, "sim"))
from table import TABLE, NOT_APPLICABLE, HOOK_COMMITS
from props import PROPS
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in TABLE + [n["prop"] for n in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks = []
for p in TABLE:
    assert p["id"] in PROPS, p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py check %s quick" % p["id"], "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 run.py selftest",
     "hooks": {"guard": "PDAAAL_SIMULATION", "enable": "the checks compile /repo's sources with -DPDAAAL_SIMULATION (run.py)", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
     "notes": "Every check is seeded deterministic simulation (python3 run.py check <id>); replay a violation with python3 run.py replay <file>. Repairs of genuine defects are listed in known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
