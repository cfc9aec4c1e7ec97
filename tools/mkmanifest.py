#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(V, 'mon', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason':
                   'check not built yet'})
        continue
    src = open(f).read()
    g = {}
    for name in ('TECHNIQUE', 'NOTE', 'LEVEL'):
        m = re.search(r'^%s = (\(.*?\n?.*?\)|\'[^\n]*\')\n(?=\S|\n)' % name, src, re.M | re.S)
        if m:
            g[name] = eval(m.group(1))
    checks.append({'property': p['id'],
                   'quick_cmd': './check %s' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': g.get('TECHNIQUE', 'runtime monitoring with reference-model oracle'),
                   'level': g.get('LEVEL', 'exploration'),
                   'level_note': g.get('NOTE', 'held on the executions of the seeded workload; no claim beyond them')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
