#!/usr/bin/env python3
"""Write properties.jsonl, MANIFEST.json and lib/levels.json from tools/props.py and tools/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
import checks
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in P]
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": checks.HOOKS,
     "checks": [{"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                 "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for i, c in checks.CHECKS.items()],
     "not_applicable": [{"property": i, "reason": r} for i, r in checks.NOT.items()], "notes": checks.NOTES}
if not m["hooks"]:
    del m["hooks"]
assert sorted(list(checks.CHECKS) + list(checks.NOT)) == sorted(ids), set(ids) ^ set(list(checks.CHECKS) + list(checks.NOT))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
json.dump({i: c["level"] for i, c in checks.CHECKS.items()}, open(os.path.join(root, "lib", "levels.json"), "w"), indent=1)
