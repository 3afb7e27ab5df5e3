"""Regenerates MANIFEST.json from the checks that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json'), encoding='utf-8'))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sa', 'checks', i.lower() + '.py')):
        t = TECH['checks'][i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 -m sa.check %s --tier quick' % i,
            'thorough_cmd': 'python3 -m sa.check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': t[0], 'level': 'other', 'level_note': t[1],
        })
    else:
        na.append({'property': i, 'reason': TECH['na'].get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
