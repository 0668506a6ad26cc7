#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, plans
from manifest_notes import NOTES
ps = [json.loads(l) for l in open(f"{vlib.ROOT}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if i in plans.PLANS:
        tech, note = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
    else: m["not_applicable"].append({"property": i, "reason": "no check yet"})
m["notes"] = "TLA+ specification in spec/, explored and checked by TLC; recorded behaviour of the library is replayed through the Trace module. No hooks in /repo."
json.dump(m, open(f"{vlib.ROOT}/MANIFEST.json", "w"), indent=1); open(f"{vlib.ROOT}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
