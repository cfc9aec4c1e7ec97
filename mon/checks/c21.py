"""
C21: harmonic decomposition is the least squares fit of azimuthal terms
"""
import warnings

import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen
from mon.core import case

PROP = 'C21'
SCALE = 7
TECHNIQUE = 'runtime monitor of harmonics on synthetic azimuthal data, oracle are known coefficients, normal equations and an independent design matrix'
NOTE = 'held on sampled back azimuth distributions, coefficients, components, azim, scalars and methods'
RULE = ('3-40 events with regular, random or clustered back azimuths in '
        'random order, other components present, five known coefficient '
        'time series (modeled and unmodeled) with and without noise')
ASSUMPTIONS = ['event_time is unique for each event and component',
               'conventions of Park and Levin (2016), eq. 44-47']
REQUIRED = {'recovered': 51, 'normal-equations': 60, 'labels': 400,
            'methods': 60, 'onset': 400, 'unmodified': 60, 'order': 60,
            'unsupported': 20, 'missing': 20, 'two-components': 32,
            'one-component': 26, 'scalars': 11, 'azim': 60, 
            'unpaired': 6}
TERMS = ['constant', 'cos', 'sin', 'cos2', 'sin2']


def design(baz, azim, comps, scalars=(3, .3)):
    """rows: data of first component, then of T"""
    f = [np.deg2rad(b - azim) for b in baz]
    rows = []
    if len(comps) == 1:
        for x in f:
            rows.append([1, np.cos(x), np.sin(x), np.cos(2 * x),
                         np.sin(2 * x)])
        return np.array(rows)
    for x in f:
        c, s, c2, s2 = np.cos(x), np.sin(x), np.cos(2 * x), np.sin(2 * x)
        rows.append([scalars[0], c, s, c2, s2, 0, c, s, c2, s2])
    for x in f:
        c, s, c2, s2 = np.cos(x), np.sin(x), np.cos(2 * x), np.sin(2 * x)
        rows.append([0, -s, c, -s2, c2, scalars[1], s, -c, s2, -c2])
    return np.array(rows)


def build(ctx, comps, baz, data, extra='', n=None, off=5., sr=5.):
    """data: {component: array (events, samples)}"""
    from rf import RFStream
    from rf.rfstream import RFTrace
    t0 = UTC(10**9)
    step = ctx.choice([86400, 86400, 600, 1])
    etimes = [t0 + 1. * step * (int(j) + ctx.u(0, .5))
              for j in ctx.rng.permutation(len(baz))]
    code = gen.band_code(ctx)
    traces = []
    for j, b in enumerate(baz):
        start = etimes[j] + ctx.u(300, 1300)
        for c in list(comps) + list(extra):
            d = data[c][j] if c in data else ctx.rng.normal(size=n)
            tr = RFTrace(data=d.copy(), header={
                'network': 'X', 'station': 'ABC', 'location': '',
                'channel': code + c, 'sampling_rate': sr,
                'starttime': start})
            tr.stats.update({'onset': start + off, 'back_azimuth': float(b),
                             'event_time': etimes[j], 'type': 'rf',
                             'phase': 'P', 'slowness': ctx.u(5, 8),
                             'inclination': ctx.u(10, 40),
                             'event_depth': ctx.u(0, 500),
                             'event_latitude': 3., 'event_longitude': 4.,
                             'event_magnitude': 6., 'event_id': 'x%d' % j,
                             'station_latitude': 10., 'moveout': 'Ps',
                             'distance': ctx.u(30, 90)})
            traces.append(tr)
    return RFStream([traces[i] for i in ctx.rng.permutation(len(traces))])


def run(st, comps, kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return st.harmonics(comps, **kw)


@case('harmonics', 120, 15000, 5)
def case_harmonics(ctx):
    comps = ctx.choice(['R', 'Q', 'T', 'RT', 'QT', 'RT', 'QT'])
    nev = ctx.choice([ctx.i(8, 40), ctx.i(8, 20), ctx.i(3, 8)])
    kind = ctx.choice(['regular', 'random', 'patchy', 'int'])
    if kind == 'regular':
        baz = ctx.u(0, 360) + np.arange(nev) * 360 / nev
    elif kind == 'random':
        baz = ctx.rng.uniform(0, 360, nev)
    elif kind == 'int':
        baz = ctx.rng.integers(0, 360, nev).astype(float)
    else:
        baz = ctx.u(0, 360) + ctx.rng.uniform(0, 120, nev)
    baz = baz % 360
    n = ctx.i(2, 50)
    azim = ctx.choice([0, 0, ctx.u(-180, 360), 90])
    scalars = (3, .3)
    kw = {}
    if azim or ctx.p(.2):
        kw['azim'] = azim
        ctx.ev('azim')
    if len(comps) == 2:
        ctx.ev('two-components')
        if ctx.p(.4):
            scalars = kw['scalars'] = ctx.choice([(1, 1), (1., 2.),
                                                  (ctx.u(.5, 5),
                                                   ctx.u(.1, 3))])
            ctx.ev('scalars')
    else:
        ctx.ev('one-component')
    jac = design(baz, azim, comps, scalars)
    m = jac.shape[1]
    coef = ctx.rng.normal(size=(m, n))
    coef[[ctx.i(0, m - 1) for _ in range(ctx.i(0, 3))]] = 0
    noise = ctx.choice([0, 0, .1])
    d = jac.dot(coef) + noise * ctx.rng.normal(size=(len(jac), n))
    data = {comps[0]: d[:nev]}
    if len(comps) == 2:
        data[comps[1]] = d[nev:]
    extra = ctx.choice(['', '', 'L', 'Z'])
    off, sr = ctx.u(0, 5), ctx.choice([1., 5., 10.])
    st = build(ctx, comps, baz, data, extra, n, off, sr)
    ctx.desc = {'comps': comps, 'baz': list(baz), 'kw': kw, 'n': n,
                'extra': extra}
    ctx.sig(comps, nev // 5, sorted(kw), kind, extra)
    before = gen.snap(st)
    hd = run(st, comps, kw)
    ctx.ok('unmodified', gen.snap(st) == before)
    ctx.same('number', len(hd), m)
    rank = np.linalg.matrix_rank(jac)
    sv = np.linalg.svd(jac, compute_uv=False)
    cond = sv[0] / sv[-1] if rank == m else np.inf
    scale = np.abs(d).max()
    res = {}
    for j, tr in enumerate(hd):
        h = tr.stats
        ctx.same('labels', (h.channel, h.term, h.location, h.type), (
            str(j % 5), TERMS[j % 5], 'mod' if j < 5 else 'unmod',
            'harmonic'))
        ctx.same('labels', h.get('components'), comps)
        ctx.close('onset', h.onset - h.starttime, off, atol=2e-6)
        ctx.same('onset', (len(tr), h.sampling_rate), (n, sr))
        for k in ('event_time', 'back_azimuth', 'event_id', 'slowness',
                  'inclination', 'event_latitude', 'event_longitude',
                  'event_depth', 'event_magnitude'):
            ctx.ok('no-event', k not in h, k)
        ctx.same('class', type(tr).__name__, 'RFTrace')
        ctx.ok('real', np.isrealobj(tr.data))
        ctx.ok('own-data', not any(np.shares_memory(tr.data, t.data)
                                   for t in st))
        res[j] = tr.data
    x = np.array([res[j] for j in range(m)])
    # least squares: residual is orthogonal to all terms
    g = jac.T.dot(jac.dot(x) - d)
    tol = 1e-8 * scale * len(jac) * max(1, np.abs(jac).max()) ** 2
    if cond < 1e6 or rank < m:
        ctx.close('normal-equations', g, np.zeros_like(g), atol=tol)
    if nev < 4:
        ctx.ev('few')
    if cond < 1e4:
        want = coef if not noise else np.linalg.solve(
            jac.T.dot(jac), jac.T.dot(d))
        ctx.close('recovered', x, want, atol=1e-8 * scale * cond ** 2,
                  msg=comps)
    elif rank < m:
        ctx.ev('rank-deficient')
        r = jac.dot(x)
        ctx.close('prediction', r, jac.dot(np.linalg.pinv(jac).dot(d)),
                  atol=1e-6 * scale)
    # methods agree
    if cond < 1e4 or rank < m:
        hd2 = run(st, comps, dict(kw, method='freq'))
        ctx.same('methods', len(hd2), m)
        for a, b in zip(hd, hd2):
            ctx.close('methods', b.data, a.data, atol=1e-7 * scale * min(
                cond, 1e4))
            ctx.same('methods', (a.id, a.stats.term, len(a)),
                     (b.id, b.stats.term, len(b)))
    # order
    st2 = st.__class__([st[i] for i in ctx.rng.permutation(len(st))])
    hd2 = run(st2, comps, kw)
    for a, b in zip(hd, hd2):
        ctx.close('order', b.data, a.data, atol=1e-8 * scale * min(
            cond, 1e6))
        ctx.same('order', a.stats.term, b.stats.term)
    # function and default arguments
    if comps == 'R':
        from rf.harmonics import harmonics
        hd2 = harmonics(st, **kw)
        for a, b in zip(hd, hd2):
            ctx.close('function', b.data, a.data, atol=1e-9 * scale)


@case('linear', 20, 2000)
def case_linear(ctx):
    """decomposition is linear and shift of azim rotates the terms"""
    baz = np.sort(ctx.rng.uniform(0, 360, ctx.i(12, 30)))
    n = ctx.i(5, 20)
    d = ctx.rng.normal(size=(len(baz), n))
    st = build(ctx, 'R', baz, {'R': d})
    az = ctx.u(0, 360)
    ctx.desc = {'baz': list(baz), 'az': az}
    a = [tr.data for tr in run(st, 'R', {})]
    b = [tr.data for tr in run(st, 'R', {'azim': az})]
    r = np.radians(az)
    tol = 1e-6
    ctx.close('azim', b[0], a[0], atol=tol)
    ctx.close('azim', b[1], np.cos(r) * a[1] + np.sin(r) * a[2], atol=tol)
    ctx.close('azim', b[2], -np.sin(r) * a[1] + np.cos(r) * a[2], atol=tol)
    ctx.close('azim', b[3], np.cos(2 * r) * a[3] + np.sin(2 * r) * a[4],
              atol=tol)
    ctx.close('azim', b[4], -np.sin(2 * r) * a[3] + np.cos(2 * r) * a[4],
              atol=tol)
    st2 = st.copy()
    f = ctx.u(-5, 5)
    for tr in st2:
        tr.data = f * tr.data
    for x, tr in zip(a, run(st2, 'R', {})):
        ctx.close('linear', tr.data, f * x, atol=tol)


@case('errors', 40, 2000)
def case_errors(ctx):
    nev, n = ctx.i(8, 15), 10
    baz = ctx.rng.uniform(0, 360, nev)
    have = ctx.choice(['RT', 'QT', 'R', 'Q', 'T'])
    data = {c: ctx.rng.normal(size=(nev, n)) for c in have}
    st = build(ctx, have, baz, data)
    bad = ctx.choice(['L', 'Z', 'TR', 'TQ', 'LT', 'RQ', 'RTZ', 'RR', 'r'])
    ctx.desc = {'have': have, 'bad': bad}
    before = gen.snap(st)
    ctx.raises('unsupported', run, st, bad, {})
    good = {'RT': ['R', 'T', 'RT'], 'QT': ['Q', 'T', 'QT']}.get(have, [have])
    for comps in ('R', 'Q', 'T', 'RT', 'QT'):
        if comps not in good:
            ctx.raises('missing', run, st, comps, {},
                       _msg='%s in %s' % (comps, have))
    ctx.raises('method', run, st, good[-1], {'method': ctx.choice(
        ['frequency', 'TIME', ''])})
    ctx.ok('unmodified', gen.snap(st) == before)
    if len(have) == 2:
        # components available for different events
        etimes = sorted(tr.stats.event_time for tr in st
                        if tr.stats.channel[-1] == 'T')
        k = [int(x) for x in ctx.rng.permutation(nev)[:2]]
        keep = [tr for tr in st if not any(
            tr.stats.event_time == etimes[k[i]] and
            tr.stats.channel[-1] == have[i] for i in range(2))]
        if ctx.p(.3):
            keep = [tr for tr in st if not (
                tr.stats.event_time == etimes[k[0]] and
                tr.stats.channel[-1] == have[0])]
        ctx.raises('unpaired', run, st.__class__(keep), have, {})
