"""Writes MANIFEST.json (run by hand after a check is added)."""
import json, re, sys
sys.path.insert(0, ".")
from mk_tables import TECH, NOTES, NA
checks = []
for i in sorted(TECH):
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
                   "technique": TECH[i], "level": "model_checking", "level_note": NOTES[i]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k not in TECH]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
