#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import jobs
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "make -s -C engine OUT=/verif/build -j8",
     "checks": [], "not_applicable": []}
for i in ids:
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": s["technique"],
                            "level": s["level"], "level_note": s["note"] + ". Bounds: " + s["bounds"]})
    else:
        m["not_applicable"].append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "no check yet")
                                    if hasattr(jobs, "NOT_APPLICABLE") else "no check yet"})
m["notes"] = "All checks run the symbolic executor in engine/ on LLVM IR compiled from /repo's working tree on every run. No hooks in /repo."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
