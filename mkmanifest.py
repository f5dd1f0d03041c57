#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and check.py's plans."""
import json
import check

TECH = check.TECHNIQUE
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PLANS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=TECH[i][0], level="exploration", level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason="no check registered yet (under construction)"))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na,
         notes="All checks go through check.py, which rebuilds the harness (path dependencies on /repo) from the working tree. No hooks in /repo are needed.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
