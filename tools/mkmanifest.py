#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
claims = json.load(open(os.path.join(here, 'claims.json')))
checks, na = [], []
for p in props:
    c = claims.get(p['id'])
    if not c:
        na.append({"property": p['id'], "reason": "the check is not built yet"})
        continue
    if 'na' in c:
        na.append({"property": p['id'], "reason": c['na']})
        continue
    checks.append({"property": p['id'], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "technique": c['technique'], "level": c.get('level', 'model_checking'), "level_note": c['note']})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks in /repo: instrumentation is put in with go build -overlay by the checks", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the harness against /repo's working tree. VH_ONLY='<case>' ./run.sh ID TIER replays one case. See DESIGN.md."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
