#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import jobs
props = [json.loads(l)["id"] for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks = []
for p in props:
    if p not in jobs.CHECKS:
        continue
    c = jobs.CHECKS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=p, reason=r) for p, r in jobs.NOT_APPLICABLE]
have = {c["property"] for c in checks} | {x["property"] for x in na}
for p in props:
    if p not in have:
        na.append(dict(property=p, reason="no check built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
if jobs.__dict__.get("HOOKS"):
    m["hooks"] = jobs.HOOKS
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
