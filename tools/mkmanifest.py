#!/usr/bin/env python3
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read(), globals())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for id in props:
    if id not in CLAIMS: continue
    level, tech, note = CLAIMS[id]
    checks.append({"property": id, "quick_cmd": f"./run.sh {id} -tier quick", "thorough_cmd": f"./run.sh {id} -tier thorough",
      "technique": tech, "level": level, "level_note": note})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are driven by run.sh, which rebuilds the checker against /repo's working tree. No hooks are needed in /repo: the relay's scheduling points are inserted by rewriting a copy of its sources at check time."}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
