#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and the notes below.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(here, "..")
exec(open(os.path.join(here, "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in NOTES:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: the checker for it is not finished")})
m["notes"] = "No hooks in /repo: the checkers interpose libc (SysV IPC, files, clocks, locks) at link time. See DESIGN.md."
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in m["checks"]], [c["property"] for c in m["not_applicable"]])
