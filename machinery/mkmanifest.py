#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"{V}/checks/{i.lower()}.py"
    if os.path.exists(f):
        t = open(f).read()
        doc = t.split('"""')[1].strip().split(": ", 1)[1]
        checks.append({"property": i, "quick_cmd": f"python3-vt machinery/check.py {i} --tier quick",
                       "thorough_cmd": f"python3-vt machinery/check.py {i} --tier thorough",
                       "technique": "property-based testing (Hypothesis generation and shrinking): " + " ".join(doc.split()),
                       "level": "exploration",
                       "level_note": "generated-input search against an explicit oracle; counts, classes and samples in evidence"})
    else:
        na.append({"property": i, "reason": "no check built yet; property-based testing applies"})
m = {"version": 1, "setup_cmd": "python3 machinery/build.py opt qdng qdz qdinfo qds2qdi qdrv && python3 machinery/build.py asan qdrv", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
