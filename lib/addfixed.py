#!/usr/bin/env python3
"""Development helper: addfixed.py <property> — records every fix: commit of /repo not yet in known_findings.json under that property."""
import json, subprocess, sys
f = "/verif/known_findings.json"
j = json.load(open(f))
have = {x.split()[2] for x in j["fixed"]}
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and h not in have:
        p = sys.argv[1]
        if len(sys.argv) > 2 and h == sys.argv[2]: break
        j["fixed"].append("fixed: property=%s %s %s" % (p, h, s[5:]))
json.dump(j, open(f, "w"), indent=1)
