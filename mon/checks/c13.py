"""
C13: result of an event does not depend on other events or absolute time
"""
import numpy as np

from mon import gen
from mon.core import case

PROP = 'C13'
SCALE = 3
TECHNIQUE = 'metamorphic runtime monitor: each event alone against the event in a shuffled stream with others, and against the event shifted in time'
NOTE = 'held on sampled streams, orders, operations and time shifts'
RULE = ('streams of 1-3 stations and 2-5 events (onsets from 0.1 s to days '
        'apart, same onset at different stations) in random order')
ASSUMPTIONS = ['different events of a station have different onsets']
REQUIRED = {'data': 600, 'order': 100, 'isolated': 200, 'shift-data': 150,
            'shift-time': 150, 'close-onsets': 30, 'same-onset': 30, 'rf': 29,
            'moveout': 20, 'ppoints': 8}


def key(tr):
    return (tr.id, tr.stats.tag)


def workload(ctx, rot):
    from rf import RFStream
    method = ctx.choice('PS')
    sr = ctx.choice([4., 5., 10.])
    comps = {'ZNE->LQT': 'ZNE', 'NE->RT': 'ZNE', None: ctx.choice(
        ['LQT', 'ZRT', 'LQ', 'ZR'])}[rot]
    ids = [gen.seed_id(ctx)[:3] + (gen.band_code(ctx),)]
    if ctx.p(.6):
        ids.append((ids[0][0], ids[0][1][:4] + 'X', ids[0][2], ids[0][3]))
    if ctx.p(.4):
        ids.append(ids[0][:3] + ('HX',))
    st = gen.data_stream(ctx, ctx.i(2, 4), comps, method, sr=sr,
                         npts=int(ctx.u(62, 75) * sr), onset=27.3, ids=ids,
                         order='')
    base = st[0].stats.onset
    times = {}
    mode = ctx.choice(['far', 'close', 'same'])
    for tr in st:
        k = (tr.id[:-1], tr.stats.event_time.ns)
        j = times.setdefault(k, len(times))
        tr.stats.tag = j
        shift = 0
        if mode == 'close':  # nearly the same onset
            shift = base + 0.137 * j - tr.stats.onset
            ctx.ev('close-onsets')
        elif mode == 'same':  # same onset at different stations
            n = sum(kk[0] == k[0] for kk in list(times)[:j])
            shift = base + 1000. * n - tr.stats.onset
            ctx.ev('same-onset')
        if shift:
            for h in ('starttime', 'onset', 'event_time'):
                tr.stats[h] = tr.stats[h] + shift
    order = [int(i) for i in ctx.rng.permutation(len(st))]
    return RFStream([st[i] for i in order]), method, sr


def operation(ctx, method, sr):
    op = ctx.choice(['rf', 'rf', 'moveout', 'ppoints', 'rf+moveout'])
    rot = ctx.choice(['ZNE->LQT', 'NE->RT', None])
    kw = {'rotate': rot}
    dec = kw['deconvolve'] = ctx.choice([
        'time', 'waterlevel', 'iterative', 'multitaper', None])
    if dec == 'time':
        kw['solve_toeplitz'] = 'scipy'
    if dec == 'iterative':
        kw['itmax'] = ctx.i(2, 20)
    if dec == 'multitaper':
        kw['winsrc'] = (-10, 15, 3)
    if ctx.p(.3):
        kw['filter'] = {'type': 'bandpass', 'freqmin': .1, 'freqmax': 1.}
    if ctx.p(.3) and dec != 'multitaper':
        kw['trim'] = (-20, 30)
    mkw = {}
    if ctx.p(.5):
        mkw['ref'] = ctx.u(5, 8) if method == 'P' else ctx.u(9, 13)
    if ctx.p(.5):
        mkw['phase'] = ctx.choice({'P': ['Ps', 'Ppps', 'Ppss'],
                                   'S': ['Sp', 'Sspp', 'Sssp']}[method])
    depth = ctx.u(5, 150)

    def apply(st):
        st = st.copy()
        if 'rf' in op:
            st.rf(method=method, **kw)
        if 'moveout' in op:
            st.moveout(**mkw)
        pp = None
        if op == 'ppoints':
            pp = st.ppoints(depth)
        return st, pp
    return op, apply, rot, {'op': op, 'kw': kw, 'mkw': mkw, 'depth': depth}


def compare(ctx, clause, a, b, shift=0):
    if not ctx.same(clause, len(a), len(b)):
        return
    ctx.close(clause, a.data, b.data, rtol=1e-8, atol=1e-13)
    ex = ('processing', 'starttime', 'endtime', 'onset', 'event_time')
    ha, hb = gen.header_of(a, ex), gen.header_of(b, ex)
    ctx.same(clause, sorted(ha), sorted(hb))
    for h in ha:
        if isinstance(ha[h], float) and h in hb:
            ctx.close(clause, ha[h], hb[h], rtol=1e-9, msg=h)
        else:
            ctx.same(clause, gen.snap(ha[h]), gen.snap(hb.get(h)), h)
    for h in ('starttime', 'endtime', 'onset', 'event_time'):
        ctx.ok('shift-time' if shift else 'time',
               abs(a.stats[h] - b.stats[h] - shift) < 3e-6,
               lambda: '%s %s %s' % (h, a.stats[h], b.stats[h]))


@case('isolation', 110, 5000, 5)
def case_isolation(ctx):
    from rf import RFStream
    method = None
    # operation depends on method, draw method in workload first
    rot = ctx.choice(['ZNE->LQT', 'NE->RT', None])
    st, method, sr = workload(ctx, rot)
    op, apply, _, desc = operation(ctx, method, sr)
    desc['kw']['rotate'] = rot
    ctx.desc = dict(desc, method=method, sr=sr, n=len(st),
                    h=float(st[0].data[0]))
    ctx.sig(op, method, rot, desc['kw']['deconvolve'], len(st))
    for o in op.split('+'):
        ctx.ev(o)
    full, pp = apply(st)
    ctx.same('number', len(full), len(st))
    tags = sorted({(tr.id[:-1], tr.stats.tag) for tr in st})
    # position of the group stays, components are only renamed
    ctx.same('order', [(tr.id[:-1], tr.stats.tag) for tr in full],
             [(tr.id[:-1], tr.stats.tag) for tr in st])
    for t in tags:
        one = RFStream([tr for tr in st if (tr.id[:-1], tr.stats.tag) == t])
        if ctx.p(.5):
            one = RFStream([one[int(i)] for i in
                            ctx.rng.permutation(len(one))])
        idx = [i for i, tr in enumerate(full)
               if (tr.id[:-1], tr.stats.tag) == t]
        alone, pp1 = apply(one)
        want = {tr.id: (tr, j) for j, tr in enumerate(alone)}
        ctx.same('ids', sorted(full[i].id for i in idx), sorted(want))
        ctx.ok('isolated', True)
        for i in idx:
            tr, j = want[full[i].id]
            compare(ctx, 'data', full[i], tr)
            if pp is not None:
                ctx.close('pp', pp[i], pp1[j], atol=1e-9)


@case('timeshift', 80, 4000, 5)
def case_timeshift(ctx):
    rot = ctx.choice(['ZNE->LQT', 'NE->RT', None])
    st, method, sr = workload(ctx, rot)
    op, apply, _, desc = operation(ctx, method, sr)
    desc['kw']['rotate'] = rot
    shift = ctx.choice([ctx.i(-10**9, 10**8), ctx.i(-100, 100),
                        86400 * ctx.i(1, 3000)])
    ctx.desc = dict(desc, method=method, sr=sr, n=len(st), shift=shift,
                    h=float(st[0].data[0]))
    ctx.sig(op, method, rot, desc['kw']['deconvolve'])
    a, _ = apply(st)
    st2 = st.copy()
    for tr in st2:
        for h in ('starttime', 'onset', 'event_time'):
            tr.stats[h] = tr.stats[h] + shift
    b, _ = apply(st2)
    ctx.same('number', len(a), len(b))
    # groups may be processed in another order, but traces stay in place
    for x, y in zip(b, a):
        ctx.same('order', key(x), key(y))
        compare(ctx, 'shift-data', x, y, shift or 0)
