"""
C20: profile counts each receiver function once, in the box of its piercing
point
"""
import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen
from mon.checks.c19 import contains, geo, profile as random_profile, tolerance
from mon.core import case

PROP = 'C20'
SCALE = 2
TECHNIQUE = 'runtime monitor of profile, conservation and exactly-once oracle on piercing points with known position along and across the profile'
NOTE = 'held on sampled profiles and sets of piercing points'
RULE = ('random boxes and 1-20 receiver functions of 1-3 components with '
        'piercing points inside and outside of the boxes, as stream, list, '
        'generator or progress bar')
ASSUMPTIONS = ['piercing points nearer to the edges of the boxes than the '
               'sagitta of the polygon sides are not used',
               'traces of one box have the same length']
REQUIRED = {'boxes': 60, 'mean': 100, 'num': 100, 'conservation': 60,
            'box-headers': 100, 'metadata': 100, 'unmodified': 60,
            'order': 60, 'sorted': 60, 'form:generator': 8, 'form:list': 8,
            'form:tqdm': 8, 'crs': 8, 'outside': 60, 'stacked': 40,
            'date-line': 10, 'dtypes': 20,
            'lengths': 8}


class Bar(object):

    """minimal progress bar like tqdm"""

    def __init__(self, iterable):
        self.iterable = iterable
        self.n = 0

    def __iter__(self):
        for x in self.iterable:
            self.n += 1
            yield x


def rftrace(ctx, comp, n, sr, off, pp, meta, j):
    from rf.rfstream import RFTrace
    t0 = UTC(10**9) + 3600 * j + ctx.u(0, 100)
    tr = RFTrace(data=ctx.rng.normal(size=n) * 10. ** ctx.i(-1, 1), header={
        'network': 'X', 'station': 'S%d' % ctx.i(0, 3),
        'channel': ctx.choice(['BH', 'HH', 'L']) + comp,
        'sampling_rate': sr, 'starttime': t0 - off})
    tr.stats.update(meta)
    tr.stats.update({'onset': t0, 'pp_latitude': pp[0], 'pp_longitude': pp[1],
                     'pp_depth': 50., 'type': 'rf', 'back_azimuth':
                     ctx.u(0, 360), 'event_time': t0 - 400, 'tag': j})
    return tr


def call(ctx, st, boxes, form, kw):
    from rf import rfstream
    from rf.profile import profile
    if form == 'method':
        return st.profile(boxes, **kw)
    if form == 'function':
        return profile(st, boxes, **kw)
    ctx.ev('form:' + form)
    if form == 'generator':
        return profile((tr for tr in st), boxes, **kw)
    if form == 'list':
        return profile(list(st), boxes, **kw)
    bar = Bar(st)
    ret = profile(bar, boxes, **kw)
    ctx.same('bar', bar.n, len(st))
    return ret


@case('profile', 150, 8000, 4)
def case_profile(ctx):
    from rf import RFStream, get_profile_boxes
    for _ in range(50):
        lat, lon, az, bins, kw, width = random_profile(ctx, 6)
        ta, tc = tolerance(ctx, lat, lon, az, bins, width)
        ta, tc = 2 * ta, 2 * tc
        if min(np.diff(bins)) > 3 * ta and width / 2 > 3 * tc:
            break
    else:
        return ctx.trivial()
    boxes = get_profile_boxes((lat, lon), az, bins, **kw)
    n, sr, off = ctx.i(1, 40), ctx.choice([1., 5., 10., 3., 7., 30., 1 / 3., 12.5]), ctx.u(-5, 20)
    meta = {'slowness': 6.4, 'phase': 'P', 'moveout': 'Ps'}
    if ctx.p(.2):
        meta.pop('moveout')
    if ctx.p(.1):
        meta['slowness'] = 0.
    if ctx.p(.2):
        meta['phase'] = 'S'
    comps = ctx.choice(['Q', 'LQT', 'RTZ', 'QT', 'Z12', 'Qq'])
    traces, truth = [], []
    nout = 0
    for j in range(ctx.i(1, 14)):
        inside = ctx.p(.75)
        k = ctx.i(0, len(boxes) - 1)
        s = ctx.u(bins[k] + ta, bins[k + 1] - ta)
        d = ctx.choice([ctx.u(-1, 1), ctx.u(-.1, .1), 0.]) * (width / 2 - tc)
        if not inside:
            k = None
            if ctx.p(.5):
                d = ctx.choice([-1, 1]) * (width / 2 + tc + ctx.u(0, 500))
            else:
                s = ctx.choice([bins[0] - ta - ctx.u(0, 200),
                                bins[-1] + ta + ctx.u(0, 200)])
        pp = geo(lat, lon, az, s, d)
        for c in comps:
            if len(comps) > 1 and ctx.p(.1):
                continue
            nout += k is None
            traces.append(rftrace(ctx, c, n, sr, off, pp, meta, j))
            truth.append((k, c, s, d))
    perm = [int(x) for x in ctx.rng.permutation(len(traces))]
    traces, truth = [traces[i] for i in perm], [truth[i] for i in perm]
    if ctx.p(.3):  # data types of several sources
        ctx.ev('dtypes')
        for tr in traces:
            dt = ctx.choice([float, np.float32, np.int32, np.int64])
            if dt in (np.int32, np.int64):
                tr.data = tr.data * 50
            tr.data = tr.data.astype(dt)
    st = RFStream(traces)
    ctx.desc = {'latlon': (lat, lon), 'az': az, 'bins': list(bins), 'kw': kw,
                'truth': truth}
    groups = {}
    for tr, (k, c, _, _) in zip(st, truth):
        if k is not None:
            groups.setdefault((c, k), []).append(tr.data.copy())
    if nout:
        ctx.ev('outside', nout)
    pkw = {}
    if ctx.p(.3):
        import cartopy.crs as ccrs
        mid = geo(lat, lon, az, (bins[0] + bins[-1]) / 2, 0)
        pkw['crs'] = ctx.choice([
            ccrs.AzimuthalEquidistant(mid[1], mid[0]),
            ccrs.LambertAzimuthalEqualArea(mid[1], mid[0])])
        ctx.ev('crs')
    form = ctx.choice(['method', 'function', 'generator', 'list', 'tqdm'])
    ctx.sig(form, len(boxes), comps, len(st) // 4, bool(pkw))
    before = gen.snap([st, boxes])
    prof = call(ctx, st, boxes, form, pkw)
    ctx.ok('unmodified', gen.snap([st, boxes]) == before)
    ctx.same('class', type(prof).__name__, 'RFStream')
    if not groups:
        ctx.ev('empty-profile')
    index = {b['pos']: k for k, b in enumerate(boxes)}
    got = [(tr.stats.channel[-1], index.get(tr.stats.box_pos))
           for tr in prof]
    ctx.same('boxes', sorted(got, key=str), sorted(groups, key=str))
    ctx.same('sorted', got, sorted(groups))
    ctx.same('conservation', sum(tr.stats.num for tr in prof),
             len(st) - nout)
    for key, tr in zip(got, prof):
        g = groups.get(key)
        if g is None:
            continue
        b = boxes[key[1]]
        ctx.same('num', tr.stats.num, len(g))
        if len(g) > 1:
            ctx.ev('stacked')
        ctx.close('mean', tr.data, np.sum([
            x.astype(float) for x in g], axis=0) / len(g), rtol=1e-10 if not any(
                x.dtype == np.float32 for x in g) else 1e-5,
                  msg='box %s' % (key,))
        h = tr.stats
        ctx.close('box-headers', [h.box_pos, h.box_length, h.box_latitude,
                                  h.box_longitude, h.profile_latitude,
                                  h.profile_longitude, h.profile_azimuth,
                                  h.profile_length],
                  [b['pos'], b['length'], b['latlon'][0], b['latlon'][1],
                   lat, lon, az, bins[-1] - bins[0]], atol=1e-9)
        for m in ('slowness', 'phase', 'moveout'):
            ctx.same('metadata', h.get(m), meta.get(m), m)
        ctx.close('metadata', h.onset - h.starttime, off, atol=2e-6)
        ctx.close('metadata', h.sampling_rate, sr, rtol=1e-9)
        ctx.same('metadata', h.get('type'), 'profile')
        ctx.ok('own-data', not any(np.shares_memory(tr.data, t.data)
                                   for t in st))
    # order of traces
    st2 = RFStream([st[i] for i in ctx.rng.permutation(len(st))])
    prof2 = st2.profile(boxes, **pkw)
    ctx.same('order', len(prof2), len(prof))
    for a, b in zip(prof, prof2):
        ctx.same('order', (a.stats.channel, a.stats.box_pos, a.stats.num),
                 (b.stats.channel, b.stats.box_pos, b.stats.num))
        ctx.close('order', a.data, b.data, rtol=1e-9 if not any(
            x.data.dtype == np.float32 for x in st) else 1e-5)


@case('lengths', 12, 300, 2)
def case_lengths(ctx):
    """traces of different length cannot be stacked in one box"""
    from rf import RFStream, get_profile_boxes
    boxes = get_profile_boxes((10, 20), 90, [0, 50, 100], 200)
    n, sr = ctx.i(20, 40), ctx.choice([1., 10.])
    traces, lens = [], {}
    for j in range(ctx.i(2, 6)):
        k = ctx.i(0, 1)
        c = ctx.choice('QT')
        m = n + ctx.choice([0, 0, 0, 1, -1, ctx.i(1, 9), 1 - n])
        pp = geo(10, 20, 90, 25 + 50 * k, ctx.u(-50, 50))
        traces.append(rftrace(ctx, c, m, sr, 5., pp, {'slowness': 6.4}, j))
        lens.setdefault((c, k), set()).add(m)
    differ = any(len(v) > 1 for v in lens.values())
    ctx.desc = {'lengths': {str(k): sorted(v) for k, v in lens.items()}}
    ctx.sig(differ, len(traces))
    st = RFStream(traces)
    before = gen.snap(st)
    try:
        prof = st.profile(boxes)
    except ValueError:
        ctx.ok('lengths', differ, 'exception for stackable traces')
    else:
        ctx.ok('lengths', not differ, 'traces of different length stacked')
        if not differ:
            ctx.same('lengths', sorted(len(tr) for tr in prof),
                     sorted(m for v in lens.values() for m in v))
    ctx.same('unmodified', gen.snap(st), before)


@case('metadata', 20, 1000, 2)
def case_metadata(ctx):
    """headers of profile traces are those of a contributing trace"""
    from rf import RFStream, get_profile_boxes
    boxes = get_profile_boxes((10, 20), 90, [0, 50, 100], 200)
    traces, offs = [], []
    for j in range(ctx.i(1, 6)):
        k = ctx.i(0, 1)
        off = ctx.choice([5., 10., 2.5])
        meta = {'slowness': ctx.u(5, 8), 'phase': ctx.choice(['P', 'PP']),
                'moveout': ctx.choice(['Ps', 'Ppps'])}
        if ctx.p(.2):
            meta.pop(ctx.choice(sorted(meta)))
        pp = geo(10, 20, 90, 25 + 50 * k, ctx.u(-50, 50))
        traces.append(rftrace(ctx, 'Q', 20, 2., off, pp, meta, j))
        offs.append((k, off, meta))
    if ctx.p(.3):
        for tr in traces:
            tr.stats.pop('onset')
    ctx.desc = {'offs': offs}
    prof = RFStream(traces).profile(boxes)
    for tr in prof:
        k = int(tr.stats.box_pos > 50)
        g = [(t, m) for t, (kk, o, m) in zip(traces, offs) if kk == k]
        for m in ('slowness', 'phase', 'moveout'):
            ctx.ok('metadata', tr.stats.get(m) in [x[1].get(m) for x in g],
                   lambda: '%s %s' % (m, tr.stats.get(m)))
        if 'onset' in traces[0].stats:
            ctx.ok('metadata', any(abs(
                tr.stats.onset - tr.stats.starttime -
                (t.stats.onset - t.stats.starttime)) < 1e-5 for t, _ in g))
        else:
            ctx.ok('metadata', 'onset' not in tr.stats)


@case('real-ppoints', 10, 300, 1)
def case_real(ctx):
    """piercing points calculated by ppoints, membership by own geodesics"""
    from shapely.geometry import Point
    from rf import get_profile_boxes
    st = gen.data_stream(ctx, nev=ctx.i(2, 6), comps='ZNE', npts=30, sr=1.,
                         signal=False, station=(ctx.u(-40, 40),
                                                ctx.u(-170, 170), 0.))
    st.ppoints(ctx.u(20, 100))
    lat0, lon0 = st[0].stats.station_latitude, st[0].stats.station_longitude
    boxes = get_profile_boxes((lat0, lon0), ctx.u(0, 360),
                              np.linspace(-60, 60, 7), width=80)
    ctx.desc = {'latlon': (lat0, lon0), 'n': len(st)}
    want = {}
    for tr in list(st):
        pp = (tr.stats.pp_latitude, tr.stats.pp_longitude)
        pt = Point(*pp[::-1])
        if any(b['poly'].exterior.distance(pt) < 0.01 for b in boxes):
            st.remove(tr)
            continue
        for b in boxes:
            if contains(b['poly'], pp):
                key = (tr.stats.channel[-1], b['pos'])
                want.setdefault(key, []).append(tr.data)
    prof = st.profile(boxes)
    ctx.same('boxes', [(tr.stats.channel[-1], tr.stats.box_pos)
                       for tr in prof], sorted(want))
    for tr in prof:
        g = want.get((tr.stats.channel[-1], tr.stats.box_pos))
        if g:
            ctx.same('num', tr.stats.num, len(g))
            ctx.close('mean', tr.data, np.mean(g, axis=0), rtol=1e-10)
