#!/usr/bin/env python3
"""fixed.py PROPERTY[,PROPERTY] TEXT [COMMIT]: record the last commit of /repo as a repair in known_findings.json"""
import json, subprocess, sys
K = "/verif/known_findings.json"
try:
    d = json.load(open(K))
except FileNotFoundError:
    d = {"findings": [], "fixed": []}
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
for p in sys.argv[1].split(","):
    d["fixed"].append(f"fixed: property={p} {h} {sys.argv[2]}")
json.dump(d, open(K, "w"), indent=1)
