#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import LIST
from props import PROPS, TECHNIQUE, LEVEL_NOTE
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in LIST:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]: assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in LIST:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", TECHNIQUE), "level": "model_checking",
                       "level_note": c.get("note", "") + LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": "the specification of this part is still being written"})
json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ (TLC). See DESIGN.md. known_findings.json lists repaired defects and known findings."}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "unclaimed")
