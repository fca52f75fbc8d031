#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import json, os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(HOME, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(HOME, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HOME, 'checks', i.lower() + '.py')):
        tech, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': tech, 'level': 'exploration',
                       'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na, 'hooks': None,
     'notes': 'Own property-based testing engine (pbt/) because nxt only runs under PyPy 3.9 here, for which no hypothesis is installed. See DESIGN.md.'}
m = {k: v for k, v in m.items() if v is not None}
open(os.path.join(HOME, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
