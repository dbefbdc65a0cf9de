"""Writes /verif/MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = {}
exec(open(HERE + "/tools/levels.py").read())
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    lv, tech, note = LEVEL.get(i, DEFAULT)
    checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                   "technique": tech, "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks: the verifier reads the LLVM IR compiled from /repo's sources as they are."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
