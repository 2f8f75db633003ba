#!/usr/bin/env python3
"""Writes the fixed list of known_findings.json from /repo's fix: commits (property mapping below, by subject)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {l.split("|", 1)[1].strip(): l.split("|", 1)[0].strip() for l in open(os.path.join(HERE, "tools/fixed.txt")) if "|" in l}
k = json.load(open(os.path.join(HERE, "known_findings.json")))
k["fixed"] = []
for line in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]; pid = next((v for key, v in MAP.items() if s.startswith(key)), None)
        assert pid, s
        k["fixed"].append("fixed: property=%s %s %s" % (pid, h, s))
json.dump(k, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1); open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
