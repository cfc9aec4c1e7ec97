#!/opt/venv/bin/python
"""
Lines of rf which no check executes: tools/reach.py [IDs]

Runs the quick checks with VERIF_REACH and prints the remaining lines. A check
fails to see a change in a line which it never executes, the reverse does not
hold (see the mutation campaign in DESIGN.md).
"""
import collections
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from mon import reach  # noqa
REPO = os.environ.get('VERIF_REPO', '/repo')

ids = sys.argv[1:] or ['C%02d' % i for i in range(1, 33)]
with tempfile.TemporaryDirectory() as tmp:
    fname = os.path.join(tmp, 'reach')
    for i in ids:
        subprocess.run([os.path.join(VERIF, 'check'), i], env=dict(
            os.environ, VERIF_REACH=fname, VERIF_OUT=tmp),
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    hit = collections.defaultdict(set)
    with open(fname) as f:
        for line in f:
            prop, name, n = line.split()
            hit[name, int(n)].add(prop)
total = done = 0
for name, lines in reach.possible(REPO).items():
    n = [x for x in lines if (name, x) in hit]
    total, done = total + len(lines), done + len(n)
    print('%s: %d of %d lines of functions executed' % (
        name, len(n), len(lines)))
    with open(os.path.join(REPO, 'rf', name), encoding='utf-8') as f:
        src = f.read().split('\n')
    for x in sorted(lines - set(n)):
        print('    never %4d: %s' % (x, src[x - 1].strip()))
    for x in sorted(n):
        if len(hit[name, x]) == 1:
            print('    %s   %4d: %s' % (*hit[name, x], x, src[x - 1].strip()))
print('%d of %d' % (done, total))
