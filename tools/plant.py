#!/usr/bin/env python3
"""
Plant bugs: python3 tools/plant.py SPEC.py [ID ...]   create from a spec file
            python3 tools/plant.py --verify [ID ...]  re-run what is in seeded/

Each bug is applied to a scratch copy of /repo, the tests and the
demonstration are run there, then the check of its property. Nothing is ever
changed in /repo.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
DEMO_SH = '''#!/bin/bash
# run with cwd in the root of the repository
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
"$PY" -W ignore "$D/demo.py"
'''


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def process(bug):
    bid = bug['id']
    out = os.path.join(V, 'seeded', bid)
    tmp = tempfile.mkdtemp(prefix='plant_')
    copy = os.path.join(tmp, 'repo')
    msg = [bid]
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        if 'edits' in bug:
            for fname, old, new in bug['edits']:
                f = os.path.join(copy, fname)
                s = open(f).read()
                if s.count(old) != 1:
                    return bid + ' EDIT %d matches: %r' % (s.count(old), old)
                open(f, 'w').write(s.replace(old, new))
            patch = run(['git', 'diff'], cwd=copy).stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            open(os.path.join(out, 'demo.py'), 'w').write(bug['demo'].lstrip())
            json.dump({'property': bug['prop'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']},
                      open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        else:
            r = run(['git', 'apply', os.path.join(out, 'patch.diff')], cwd=copy)
            if r.returncode:
                return bid + ' PATCH does not apply ' + r.stdout
        prop = json.load(open(os.path.join(out, 'meta.json')))['property']
        env = dict(ENV, PYTHONPATH=copy)
        ok = True
        if not os.environ.get('NOTEST'):
            r = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                     '-o', 'python_functions=__none__', '--timeout=300',
                     'rf/tests'], cwd=copy, env=env)
            t = r.stdout.strip().split('\n')[-1]
            if '32 passed' not in t:
                ok = False
                msg.append('TESTS FAIL: ' + ' '.join(
                    l for l in r.stdout.split('\n') if l.startswith('FAILED'))[:300] + t)
            d = os.path.join(out, 'demo.sh')
            a = run(['bash', d], cwd='/repo', env=ENV)
            b = run(['bash', d], cwd=copy, env=ENV)
            if a.returncode != 0:
                ok = False
                msg.append('DEMO FAILS ON CLEAN TREE: ' + a.stdout[-500:])
            if b.returncode == 0:
                ok = False
                msg.append('DEMO PASSES WITH BUG')
        if ok or os.environ.get('FORCE'):
            for p in [prop] + os.environ.get('ALSO', '').split():
                r = run([os.path.join(V, 'check'), p], env=dict(
                    env, VERIF_REPO=copy, VERIF_OUT=tmp))
                l = [l for l in r.stdout.split('\n') if 'clause' in l]
                msg.append('%s: %s %s' % (
                    p, {1: 'CAUGHT', 0: 'MISSED'}.get(
                        r.returncode, 'ERROR %d' % r.returncode),
                    (l or r.stdout.strip().split('\n')[-1:])[0][:220]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return '\n   '.join(msg)


if __name__ == '__main__':
    if sys.argv[1] == '--verify':
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        bugs = [{'id': i} for i in ids]
    else:
        g = {}
        exec(open(sys.argv[1]).read(), g)
        bugs = [b for b in g['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get('NP', 3))) as ex:
        for r in ex.map(process, bugs):
            print(r, flush=True)
