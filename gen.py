#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os, sys
sys.dont_write_bytecode = True
import props, checks
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": [], "not_applicable": [],
       "notes": "Every check builds its own drivers from /repo/src; no hooks in /repo are needed."}
for p in props.P:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        man["checks"].append({
            "property": i, "quick_cmd": "python3 vrun.py " + i, "thorough_cmd": "python3 vrun.py --thorough " + i,
            "technique": c.get("technique", "runtime monitoring: online oracle over seeded random workloads, under ASan/UBSan"),
            "level": c.get("level", "exploration"), "level_note": c.get("note", "holds on everything explored; see evidence for what was observed")})
    else:
        man["not_applicable"].append({"property": i, "reason": props.NA.get(i, "check under construction")})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
