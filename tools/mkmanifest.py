"""Writes MANIFEST.json from the checks that exist."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        t, n = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3-vt checks/run.py %s" % i,
                       "thorough_cmd": "python3-vt checks/run.py %s --tier thorough" % i,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "no check is built for it yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
