"""
Monitoring core: seeded workload driver, clause recorder, verdict, evidence.

A check module (mon/checks/cXX.py) defines

    PROP, RULE, ASSUMPTIONS
    CASES = [Case(name, func, quick, thorough, chunk)]
    REQUIRED = {event or clause: minimum in quick tier}
    SCALE = factor for the number of cases in the quick tier

func(ctx) drives the real code and reports what was observed to ctx.
Each chunk of cases is executed in an own forked process, such that a run is
a deterministic function of (seed, tier, working tree) and can be replayed.

Verdicts: violated (exit 1), held (exit 0), inconclusive (exit 2: watchdog,
environment problem, or a monitor was not reached often enough).
"""
import collections
import errno
import hashlib
import importlib
import json
import multiprocessing as mp
from multiprocessing.connection import wait
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

from mon import reach

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)
MAX_FAILS = 25


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


Case = collections.namedtuple('Case', 'name func quick thorough chunk')


def case(name, quick, thorough, chunk=None):
    def deco(func):
        func.case = Case(name, func, quick, thorough,
                         chunk or max(1, min(50, quick // 16)))
        return func
    return deco


def cases_of(namespace):
    return [f.case for f in namespace.values()
            if isinstance(getattr(f, 'case', None), Case)]


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):

    """Recorder handed to each case"""

    def __init__(self, prop, casename, seed, index, tier, tmp):
        self.prop, self.case, self.seed, self.index = (prop, casename, seed,
                                                       index)
        self.tier = tier
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(('%s:%s' % (prop, casename)).encode()), index])
        self.clauses = collections.Counter()
        self.events = collections.Counter()
        self.fails = []
        self.known = collections.OrderedDict()
        self.sigs = set()
        self.desc = {}
        self._trivial = False
        self.tmpbase = tmp

    # -- helpers for workload generation
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def u(self, a, b):
        return float(self.rng.uniform(a, b))

    def i(self, a, b):
        """integer in [a, b]"""
        return int(self.rng.integers(a, b + 1))

    def p(self, prob):
        return bool(self.rng.random() < prob)

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.tmpbase)

    # -- what the monitor sees
    def ev(self, name, n=1):
        self.events[name] += n

    def sig(self, *items):
        self.sigs.add('/'.join(str(i) for i in items))

    def trivial(self):
        self._trivial = True

    # -- oracle verdicts
    def fail(self, clause, msg=''):
        if callable(msg):
            msg = msg()
        if len(self.fails) < MAX_FAILS:
            self.fails.append((clause, short(str(msg), 1500)))

    def ok(self, clause, cond, msg=''):
        self.clauses[clause] += 1
        if not cond:
            self.fail(clause, msg)
        return bool(cond)

    def same(self, clause, got, want, msg=''):
        try:
            eq = bool(got == want)
        except Exception:
            eq = False
        return self.ok(clause, eq, lambda: '%s got %s expected %s' % (
            msg, short(got), short(want)))

    def close(self, clause, got, want, rtol=0., atol=0., msg=''):
        """all |got - want| <= atol + rtol * max|want| (NaNs must agree)"""
        g = np.asarray(got)
        w = np.asarray(want)
        if g.dtype == object or w.dtype == object:
            try:
                g, w = g.astype(float), w.astype(float)
            except (TypeError, ValueError):
                return self.ok(clause, False, lambda: '%s got %s expected %s'
                               % (msg, short(got), short(want)))
        if g.shape != w.shape:
            return self.ok(clause, False, lambda: '%s shape %s expected %s'
                           % (msg, g.shape, w.shape))
        if g.size == 0:
            return self.ok(clause, True)
        nan = np.isnan(g) != np.isnan(w)
        fin = ~(np.isnan(g) | np.isnan(w))
        with np.errstate(all='ignore'):
            dif = np.where(fin, np.abs(g - w), 0.)
            dif = np.where(fin & (g == w), 0., dif)  # inf == inf
            lim = atol
            if rtol:
                lim = atol + rtol * np.max(np.abs(w[np.isfinite(w)]),
                                           initial=0.)
        bad = nan | ~(dif <= lim)
        return self.ok(clause, not bad.any(), lambda: (
            '%s %d of %d values differ, max diff %.6g > %.3g, first at %s: '
            'got %s expected %s' % (
                msg, bad.sum(), bad.size, np.max(dif), lim,
                tuple(int(j) for j in np.argwhere(bad)[0]),
                g[tuple(np.argwhere(bad)[0])],
                w[tuple(np.argwhere(bad)[0])])))

    def raises(self, clause, func, *args, **kwargs):
        """func has to raise an exception"""
        msg = kwargs.pop('_msg', '')
        try:
            ret = func(*args, **kwargs)
        except Exception:
            return self.ok(clause, True)
        return self.ok(clause, False, '%s no exception, returned %s' %
                       (msg, short(ret)))

    def known_finding(self, key, what):
        """A violation with the mechanism `key` of the known-findings file"""
        self.clauses['known:' + key] += 1
        self.known.setdefault(key, what)


def _env_problem(ex):
    if isinstance(ex, (MemoryError, Inconclusive)):
        return True
    if isinstance(ex, OSError) and ex.errno in (
            errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM,
            errno.EDQUOT, errno.EIO, errno.EAGAIN):
        return True
    return False


def _run_case(prop, c, seed, index, tier, tmp):
    ctx = Ctx(prop, c.name, seed, index, tier, tmp)
    out = {'index': index, 'inconclusive': None}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.func(ctx)
    except CaseTimeout:
        out['inconclusive'] = 'watchdog: case %s[%d] did not finish' % (
            c.name, index)
    except Exception as ex:
        if _env_problem(ex):
            out['inconclusive'] = 'environment: %r' % ex
        else:
            # The same workload finishes on a tree for which the property
            # holds: code under test raised or returned something which
            # the oracle cannot interpret.
            tb = traceback.extract_tb(ex.__traceback__)
            where = ' <- '.join(
                '%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name)
                for f in tb[::-1][:8])
            ctx.clauses['unexpected-exception'] += 1
            ctx.fail('unexpected-exception', '%s: %s at %s' % (
                type(ex).__name__, ex, where))
    d = json.dumps(ctx.desc, sort_keys=True, default=str)
    out.update(clauses=ctx.clauses, events=ctx.events, fails=ctx.fails,
               known=ctx.known, sigs=ctx.sigs, trivial=ctx._trivial,
               desc=short(d, 1200),
               hash=hashlib.sha1((c.name + d).encode()).hexdigest()[:16])
    return out


def _alarm(*_):
    raise CaseTimeout()


def _run_chunk(conn, prop, c, seed, start, stop, tier, tmp, limit):
    res = []
    signal.signal(signal.SIGALRM, _alarm)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    work = tempfile.mkdtemp(dir=tmp)
    os.chdir(work)
    t0 = time.time()
    reach.start(REPO)
    for index in range(start, stop):
        signal.setitimer(signal.ITIMER_REAL, limit)
        res.append(_run_case(prop, c, seed, index, tier, work))
        signal.setitimer(signal.ITIMER_REAL, 0)
    conn.send((c.name, start, stop, res, time.time() - t0, reach.lines()))
    conn.close()
    # leave without running inherited exit handlers
    os._exit(0)


def run_tasks(prop, tasks, seed, tier, nproc, case_limit, deadline):
    """Run chunks in forked processes, yield their results in task order"""
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    ctx = mp.get_context('fork')
    todo = collections.deque(enumerate(tasks))
    running = {}
    results = {}
    dead = []
    try:
        while todo or running:
            while todo and len(running) < nproc and time.time() < deadline:
                n, (c, a, b) = todo.popleft()
                r, w = ctx.Pipe(False)
                pr = ctx.Process(target=_run_chunk, args=(
                    w, prop, c, seed, a, b, tier, tmp, case_limit))
                pr.start()
                w.close()
                running[r] = (n, pr, c, a, b)
            if todo and time.time() >= deadline:
                dead.append('%d chunks not started before time limit' %
                            len(todo))
                todo.clear()
            for r in wait(list(running), timeout=5):
                n, pr, c, a, b = running.pop(r)
                try:
                    results[n] = r.recv()
                except EOFError:
                    dead.append('worker of %s[%d:%d] ended' % (c.name, a, b))
                r.close()
                pr.join()
            if time.time() > deadline + 120:
                for r, (n, pr, c, a, b) in running.items():
                    pr.kill()
                    dead.append('%s[%d:%d] killed by watchdog' %
                                (c.name, a, b))
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [results[n] for n in sorted(results)], dead


def executed(lines):
    """{file: lines of functions which were executed of all such lines}"""
    out = {}
    for name, possible in reach.possible(REPO).items():
        n = len({ln for f, ln in lines if f == name} & possible)
        if n:
            out[name] = '%d of %d' % (n, len(possible))
    return out


def load_known():
    """Known findings: {property: {key: text}}"""
    known = {}
    fname = os.path.join(VERIF, 'known_findings.txt')
    try:
        with open(fname) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    prop, key, text = line[7:].split(' ', 2)
                    prop = prop.split('=')[1]
                    key = key.split('=')[1]
                    known.setdefault(prop, {})[key] = text
    except FileNotFoundError:
        pass
    return known


def run_check(prop, tier='quick', seed=1, replay=None, nproc=None,
              only=None, scale=1.):
    t0 = time.time()
    mod = importlib.import_module('mon.checks.' + prop.lower())
    from mon import hooks
    hooks.verify_target(REPO)
    cases = cases_of(vars(mod))
    if only:
        cases = [c for c in cases if c.name in only]
    nproc = nproc or max(1, min(8, len(os.sched_getaffinity(0))))
    limit = 150 if tier == 'quick' else 600
    deadline = t0 + (600 if tier == 'quick' else 6 * 3600)
    tasks = []
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        seed, tier = rp['seed'], rp['tier']
        c = [c for c in cases if c.name == rp['case']][0]
        tasks = [(c, rp['start'], rp['index'] + 1)]
    else:
        for c in cases:
            n = (c.quick * getattr(mod, 'SCALE', 1) if tier == 'quick' else
                 c.thorough)
            n = max(1, int(n * scale))
            k = c.chunk if tier == 'quick' else max(
                c.chunk, min(4 * c.chunk, n // 64))
            tasks.extend((c, a, min(a + k, n)) for a in range(0, n, k))
    if hasattr(mod, 'prepare'):
        mod.prepare()
    results, dead = run_tasks(prop, tasks, seed, tier, nproc, limit, deadline)
    clauses, events = collections.Counter(), collections.Counter()
    sigs, hashes, samples, fails, inconcl = set(), set(), [], [], list(dead)
    known = collections.OrderedDict()
    percase = collections.Counter()
    walls = collections.Counter()
    reached = set()
    for name, start, stop, res, wall, lines in results:
        walls[name] += wall
        reached.update(map(tuple, lines))
        for r in res:
            percase[name] += 1
            clauses.update(r['clauses'])
            events.update(r['events'])
            sigs |= {name + '|' + s for s in r['sigs']}
            if r['inconclusive']:
                inconcl.append(r['inconclusive'])
            if not r['trivial'] and sum(r['clauses'].values()):
                if r['hash'] not in hashes and sum(
                        s['case'] == name for s in samples) < 2:
                    samples.append({
                        'case': name, 'index': r['index'],
                        'input': r['desc'],
                        'oracle_verdicts': sum(r['clauses'].values()),
                        'events': dict(r['events'].most_common(8))})
                hashes.add(r['hash'])
            for key, what in r['known'].items():
                known.setdefault(key, (what, name, r['index']))
            for clause, msg in r['fails']:
                fails.append((name, start, r['index'], clause, msg))
    listed = load_known().get(prop, {})
    for key, (what, name, index) in known.items():
        if key not in listed:
            fails.append((name, index, index, 'known:' + key, what))
    nviol = len(fails)
    out = []
    for key, (what, name, index) in known.items():
        if key in listed:
            out.append('KNOWN-FINDING: property=%s %s (%s; observed e.g. %s)'
                       % (prop, listed[key], key, what))
    if fails:
        rdir = os.path.join(OUT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for name, start, index, clause, msg in fails:
            if (name, clause) in seen or len(seen) > 12:
                continue
            fname = os.path.join(rdir, '%s_%s_%s_%d_%d.json' % (
                prop, tier, name, seed, index))
            with open(fname, 'w') as f:
                json.dump({'prop': prop, 'tier': tier, 'seed': seed,
                           'case': name, 'start': start, 'index': index,
                           'clause': clause, 'msg': msg}, f, indent=1)
            out.append('VIOLATION property=%s replay=%s\n    clause %s, case '
                       '%s[%d]: %s' % (prop, fname, clause, name, index, msg))
            seen.add((name, clause))
    required = dict(getattr(mod, 'REQUIRED', {}))
    short_of = []
    if not replay and not only and not fails and scale >= 1:
        for name, minimum in required.items():
            got = clauses[name] + events[name]
            if got < minimum:
                short_of.append('%s: %d < %d' % (name, got, minimum))
    wall = time.time() - t0
    if os.environ.get('VERIF_REACH'):  # for tools/reach.py
        with open(os.environ['VERIF_REACH'], 'a') as f:
            for name, line in sorted(reached):
                f.write('%s %s %d\n' % (prop, name, line))
    if not replay and not only:
        ev = {'property': prop, 'tier': tier, 'seed': seed,
              'level': getattr(mod, 'LEVEL', 'exploration'),
              'coverage': {
                  'evaluations': int(sum(percase.values())),
                  'distinct_nontrivial': len(hashes),
                  'rule': mod.RULE,
                  'samples': samples[:12],
                  'cases': dict(percase),
                  'oracle_verdicts': dict(sorted(clauses.items())),
                  'observed_events': dict(sorted(events.items())),
                  'distinct_states': len(sigs),
                  'state_examples': sorted(sigs)[:20],
                  'rf_lines_executed': executed(reached),
                  'required_minimum': required},
              'assumptions': list(mod.ASSUMPTIONS),
              'wall_s': round(wall, 2),
              'violations': nviol}
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        fname = os.path.join(OUT, 'evidence', prop + '.json')
        with open(fname + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(fname + '.tmp', fname)
    for line in out:
        print(line)
    print('%s %s seed=%d: %d executions (%d distinct), %d oracle verdicts, '
          '%d events, %d states, %d violations, %.1f s' % (
              prop, tier, seed, sum(percase.values()), len(hashes),
              sum(clauses.values()), sum(events.values()), len(sigs), nviol,
              wall))
    if os.environ.get('VERIF_VERBOSE'):
        print('cpu per case', dict(walls))
        for k, v in sorted(clauses.items()):
            print('   clause %-40s %d' % (k, v))
        for k, v in sorted(events.items()):
            print('   event  %-40s %d' % (k, v))
    if fails:
        return 1
    for msg in inconcl[:10] + short_of:
        print('INCONCLUSIVE property=%s %s' % (prop, msg))
    return 2 if inconcl or short_of else 0
