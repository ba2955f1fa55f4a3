#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks (engine/claims.json)"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
claims = json.load(open(os.path.join(V, 'engine/claims.json')))
checks, na = [], []
for p in props:
    c = claims['checks'].get(p['id'])
    if c:
        checks.append({'property': p['id'], 'quick_cmd': f'python3 engine/check.py {p["id"]}', 'thorough_cmd': f'python3 engine/check.py {p["id"]}',
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else:
        na.append({'property': p['id'], 'reason': claims['not_applicable'].get(p['id'], 'the static analysis for this property is not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash driver/build.sh', 'checks': checks, 'not_applicable': na, 'notes': 'no hooks in /repo; see DESIGN.md'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
