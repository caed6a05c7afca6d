"""Writes MANIFEST.json from properties.jsonl and tools/levels.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
levels = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    lv = levels.get(p, levels["default"])
    if lv.get("not_applicable"):
        na.append({"property": p, "reason": lv["not_applicable"]})
        continue
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": lv["technique"], "level": lv["level"], "level_note": lv["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo.  Defect repairs are the fix: commits listed in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
