#!/usr/bin/python3
"""Writes /verif/MANIFEST.json from the table below (checks that exist) and tools/na.txt."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
claimed = set()
for ln in open(os.path.join(V, "tools", "claims.txt")):
    ln = ln.rstrip("\n")
    if not ln or ln.startswith("#"):
        continue
    pid, tech, note = [x.strip() for x in ln.split("|", 2)]
    claimed.add(pid)
    checks.append({"property": pid, "quick_cmd": "./check.sh " + pid, "thorough_cmd": "./check.sh " + pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "static analysis: " + tech,
                   "level": "other", "level_note": note})
na = []
reasons = {}
for ln in open(os.path.join(V, "tools", "na.txt")):
    if "|" in ln:
        p, r = [x.strip() for x in ln.split("|", 1)]
        reasons[p] = r
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)["id"]
    if p not in claimed:
        na.append({"property": p, "reason": reasons.get(p, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "All checks analyse /repo's current sources (LLVM IR produced by clang, no execution of the code)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
