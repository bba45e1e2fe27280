#!/usr/bin/env python3
"""Writes MANIFEST.json. Levels: proof only where every function the property depends on is under contract."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "deductive verification (Verus) of contracts on the functions extracted from /repo on every run"
PART = "deductive verification (Verus) of the contracted functions; bounded cross-check of the remaining ones"
L = json.load(open(os.path.join(D, "tools", "levels.json")))
checks = []
for l in open(os.path.join(D, "properties.jsonl")):
    p = json.loads(l)["id"]
    lev, note = L.get(p, ["other", ""])
    if lev == "skip":
        continue
    checks.append({"property": p, "quick_cmd": "python3 /verif/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p,
                   "technique": TECH if lev == "proof" else PART, "level": lev, "level_note": note})
na = [{"property": json.loads(l)["id"], "reason": L[json.loads(l)["id"]][1]} for l in open(os.path.join(D, "properties.jsonl")) if L.get(json.loads(l)["id"], [""])[0] == "skip"]
json.dump({"version": 1, "setup_cmd": "python3 /verif/check.py setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the extractor (vx) reads /repo's sources, the harness uses the public API."},
          open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
