"""
C18: stack returns one mean trace per seed id with the metadata of that id
"""
import collections

import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen
from mon.core import case

PROP = 'C18'
SCALE = 8
TECHNIQUE = 'runtime monitor of stack, conservation oracle: mean over the traces of each seed id, snapshots of the input'
NOTE = 'held on sampled streams'
RULE = ('random streams with 1-6 ids (similar ids included), 1-12 traces per '
        'id in random order, own length, sampling rate and headers per id')
ASSUMPTIONS = ['traces of the same id have the same sampling rate']
REQUIRED = {'ids': 150, 'mean': 346, 'metadata': 500, 'onset': 300,
            'unmodified': 138, 'order': 80, 'lengths': 35, 'empty': 5,
            'ids>2': 60, 'without-onset': 20, 'subset': 60, 'after-rf': 3}
META = ('phase', 'moveout', 'station_latitude', 'station_longitude',
        'station_elevation')


def similar_ids(ctx, n):
    """ids which differ in a single part only"""
    base = ['CX', 'PB01', '', 'BHQ']
    pool = []
    for _ in range(60):
        x = list(base)
        for _ in range(ctx.choice([1, 1, 2, 3])):
            k = ctx.i(0, 3)
            x[k] = ctx.choice([['CX', 'C', 'X', 'CXX'],
                               ['PB01', 'PB02', 'PB0', 'PB011', 'B01', 'pb01', 'PB?'],
                               ['', '00', '10', '0'],
                               ['BHQ', 'BHL', 'BHT', 'HHQ', 'Q', 'BQ', 'BHq', 'bhq',
                                'B?Q', '*', '[BH]Q']][k])
        pool.append(tuple(x))
    pool = sorted(set(pool))
    return [pool[j] for j in ctx.rng.permutation(len(pool))[:n]]


def make(ctx, ids, constant=True):
    from rf import RFStream
    from rf.rfstream import RFTrace
    traces = []
    for k, (net, sta, loc, cha) in enumerate(ids):
        n = ctx.i(1, 60)
        sr = ctx.choice([.5, 1., 5., 10., 100.])
        off = ctx.choice([0., ctx.u(0, 20), ctx.u(-10, 30), 5.])
        meta = {'station_latitude': ctx.u(-90, 90),
                'station_longitude': ctx.u(-180, 180),
                'station_elevation': ctx.u(-100, 4000),
                'phase': ctx.choice(['P', 'PP', 'S'])}
        if ctx.p(.3):  # values which are false
            meta[ctx.choice(sorted(set(meta) - {'phase'}))] = ctx.choice(
                [0., 0])
        if ctx.p(.5):
            meta['moveout'] = ctx.choice(['Ps', 'Ppps', 'Sp'])
        if ctx.p(.2):
            meta.pop('station_elevation')
        if ctx.p(.1):
            meta = {}
        with_onset = not ctx.p(.15)
        dtype = ctx.choice([float, float, float, np.float32, int])
        scale = 10. ** ctx.i(-3, 5)
        for j in range(ctx.choice([1, 2, 3, ctx.i(1, 12)])):
            d = scale * ctx.rng.normal(size=n) + ctx.u(-1, 1)
            if dtype is not int and ctx.p(.03):  # not known there
                d[ctx.i(0, n - 1)] = np.nan
            t0 = UTC(10**9) + 1e5 * ctx.i(0, 1000) + ctx.u(0, 1)
            tr = RFTrace(data=d.astype(dtype), header={
                'network': net, 'station': sta, 'location': loc,
                'channel': cha, 'sampling_rate': sr, 'starttime': t0})
            tr.stats.update(meta)
            if with_onset:
                tr.stats.onset = t0 + off
            tr.stats.update({'back_azimuth': ctx.u(0, 360),
                             'slowness': ctx.u(4, 9), 'type': 'rf',
                             'distance': ctx.u(30, 90),
                             'event_time': t0 - 500})
            traces.append(tr)
    return RFStream([traces[i] for i in ctx.rng.permutation(len(traces))])


def judge(ctx, stack, groups):
    ctx.same('ids', sorted(tr.id for tr in stack), sorted(groups))
    for tr in stack:
        g = groups[tr.id]
        f32 = g[0].data.dtype == np.float32
        want = np.sum([t.data.astype(float) for t in g], axis=0) / len(g)
        ctx.close('mean', tr.data, want, rtol=1e-4 if f32 else 1e-11,
                  atol=0 if not f32 else 1e-30, msg='%s of %d' % (
                      tr.id, len(g)))
        ctx.same('sampling', tr.stats.sampling_rate,
                 g[0].stats.sampling_rate)
        for k in META:
            ctx.same('metadata', tr.stats.get(k), g[0].stats.get(k), k)
        if 'onset' in g[0].stats:
            offs = [t.stats.onset - t.stats.starttime for t in g]
            got = tr.stats.onset - tr.stats.starttime
            ctx.ok('onset', min(abs(got - o) for o in offs) < 1e-5,
                   lambda: '%s: %s of %s' % (tr.id, got, offs))
        else:
            ctx.ev('without-onset')
            ctx.ok('onset', 'onset' not in tr.stats)
        ctx.ok('class', type(tr).__name__ == 'RFTrace')


@case('stack', 200, 20000)
def case_stack(ctx):
    ids = similar_ids(ctx, ctx.i(1, 6))
    st = make(ctx, ids)
    groups = collections.OrderedDict()
    for tr in st:
        groups.setdefault(tr.id, []).append(tr.copy())
    ctx.desc = {'ids': [tr.id for tr in st], 'npts': [len(t) for t in st],
                'sum': float(sum(tr.data.sum() for tr in st))}
    ctx.sig(len(ids), len(st), st[0].data.dtype)
    if len(ids) > 2:
        ctx.ev('ids>2')
    before = gen.snap(st)
    stack = st.stack()
    ctx.same('stack-class', type(stack).__name__, 'RFStream')
    judge(ctx, stack, groups)
    ctx.ok('unmodified', gen.snap(st) == before)
    for tr in stack:
        ctx.ok('own-data', not any(np.shares_memory(tr.data, t.data)
                                   for t in st))
    # order of traces
    perm = st.__class__([st[i] for i in ctx.rng.permutation(len(st))])
    a = {tr.id: tr for tr in stack}
    b = {tr.id: tr for tr in perm.stack()}
    ctx.same('ids', sorted(a), sorted(b))
    for k in a:
        f32 = a[k].data.dtype == np.float32
        ctx.close('order', b[k].data, a[k].data, rtol=1e-4 if f32 else 1e-11)
        for m in META:
            ctx.same('order', b[k].stats.get(m), a[k].stats.get(m))
    # stack of a single id is independent of other ids
    one = ctx.choice(sorted(a))
    sub = st.__class__([tr for tr in st if tr.id == one]).stack()
    ctx.same('subset', len(sub), 1)
    ctx.ok('subset', np.allclose(
        sub[0].data, a[one].data, rtol=1e-4, atol=0, equal_nan=True))
    # stack of the stack
    again = stack.stack()
    for tr in again:
        ctx.close('idempotent', tr.data, a[tr.id].data, rtol=1e-12)


@case('errors', 70, 3000)
def case_errors(ctx):
    from rf import RFStream
    ids = similar_ids(ctx, ctx.i(1, 3))
    st = make(ctx, ids)
    j = ctx.i(0, len(st) - 1)
    tr = st[j].copy()
    n = len(tr)
    tr.data = np.ones(ctx.choice([n + 1, 2 * n, 1 if n > 1 else 3]))
    st.insert(ctx.i(0, len(st)), tr)
    ctx.desc = {'ids': [t.id for t in st], 'n': [len(t) for t in st]}
    before = gen.snap(st)
    ctx.raises('lengths', st.stack)
    ctx.ok('unmodified', gen.snap(st) == before)
    if ctx.p(.3):
        ctx.same('empty', len(RFStream().stack()), 0)
        ctx.ev('empty')


@case('workflow', 6, 200, 1)
def case_workflow(ctx):
    """stack of calculated receiver functions"""
    ids = [gen.seed_id(ctx)[:3] + (gen.band_code(ctx),) for _ in range(2)]
    st = gen.data_stream(ctx, nev=ctx.i(2, 4), sr=5., npts=400, ids=ids)
    rot = ctx.choice(['ZNE->LQT', 'NE->RT'])
    st.rf(rotate=rot)
    if ctx.p(.5):
        st.moveout()
    st.trim2(-5, 22, 'onset')
    n = min(len(tr) for tr in st)
    for tr in st:
        tr.data = tr.data[:n]
    ctx.desc = {'ids': ids, 'rot': rot}
    groups = {}
    for tr in st:
        groups.setdefault(tr.id, []).append(tr.copy())
    before = gen.snap(st)
    judge(ctx, st.stack(), groups)
    ctx.ok('unmodified', gen.snap(st) == before)
    ctx.ev('after-rf')
