#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
ps = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in ps:
    i = p['id']
    if i in CLAIMS:
        lvl, tech, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 checks/run.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                       'technique': tech, 'level': lvl, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
