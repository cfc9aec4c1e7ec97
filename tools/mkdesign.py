#!/usr/bin/env python3
"""Assemble DESIGN.md from tools/design_*.md, properties.jsonl and the checks"""
import ast
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(name):
    with open(os.path.join(V, name)) as f:
        return f.read()


def consts(cid):
    out = {}
    for node in ast.parse(read('mon/checks/%s.py' % cid.lower())).body:
        if isinstance(node, ast.Assign):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, AttributeError):
                pass
    return out


oracles = dict(l.split(': ', 1) for l in
               read('tools/design_oracles.md').strip().split('\n'))
out = [read('tools/design_head.md').rstrip(), '',
       '## 2. Properties, oracles, bounds, cost', '',
       'Generated by `tools/mkdesign.py`. Quick/thorough give the number of '
       'executions; the time of a quick check is 5-15 s with 8 cores, that of '
       'a thorough check up to some minutes.', '']
for line in read('properties.jsonl').strip().split('\n'):
    p = json.loads(line)
    cid = p['id']
    c = consts(cid)
    src = read('mon/checks/%s.py' % cid.lower())
    cases = re.findall(r"@case\('([^']+)', (\d+), (\d+)", src)
    sc = c.get('SCALE', 1)
    out.append('### %s %s' % (cid, p['title']))
    out.append('')
    out.append('* Monitor: %s.' % c['TECHNIQUE'])
    out.append('* Oracle: %s' % oracles[cid])
    out.append('* Workload: %s.' % c['RULE'])
    out.append('* Bounds: %s. Executions (quick/thorough): %s.' % (
        c['NOTE'], ', '.join('%s %d/%s' % (n, int(a) * sc, b)
                             for n, a, b in cases)))
    out.append('* Assumptions: %s.' % '; '.join(c['ASSUMPTIONS']))
    out.append('* Beyond the tests: %s' % p['why_tests_cant'])
    out.append('')
notes = json.loads(read('tools/seeded_notes.json'))
rows = ['| bug | breaks | needs | checks |', '|---|---|---|---|']
for bid in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.loads(read('seeded/%s/meta.json' % bid))
    rows.append('| %s | %s | %s | %s |' % (
        bid, m['what_it_breaks'].replace('|', '/'),
        m['needs'].replace('|', '/'),
        notes.get(bid, 'caught by %s' % m['property'])))
tail = read('tools/design_tail.md').rstrip()
tail = tail.replace('@SEEDED@', '\n'.join(rows))
tail = tail.replace('@SWEEP@', read('tools/sweep.md').strip())
out.append(tail)
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
