import numpy as np
from obspy import Stream, Trace, UTCDateTime as UTC

from mon import gen
from mon.core import case
from rf import RFStream
from rf.rfstream import RFTrace

PROP = 'C05'
SCALE = 7
TECHNIQUE = 'differential monitor: each call replayed with absolute times on plain ObsPy traces plus an own sample-index model'
NOTE = 'held on sampled windows and headers'
RULE = ('random streams (sub-sample onsets, different lengths and sampling '
        'rates) and windows given as UTC, seconds relative to header or UTC, '
        'None; inside, partially and fully outside; non-trivial if remaining '
        'samples were compared; distinct by hash of windows and times')
ASSUMPTIONS = ['trim and slice of ObsPy define the selection for absolute '
               'times']
REQUIRED = {'trim2': 200, 'slice2': 150, 'dropped': 40, 'empty-window': 20,
            'samples': 300, 'rel:onset': 50, 'rel:UTC': 30}


def make(ctx):
    traces = []
    base = gen.utc(ctx, 10**8, 1.6 * 10**9)
    for k in range(ctx.i(1, 4)):
        sr = float(ctx.choice([1, 2, 4, 5, 10, 20, 100]))
        n = ctx.i(2, 120)
        start = base + round(ctx.u(-5, 5), 6)
        tr = RFTrace(data=1. + np.arange(n) + 1000 * k, header={
            'network': 'N', 'station': gen.station_code(ctx),
            'channel': gen.band_code(ctx) + ctx.choice('ZNELQT'), 'starttime': start,
            'sampling_rate': sr})
        st = tr.stats
        st.tag = k
        st.onset = start + round(ctx.u(-0.2, 1.2) * n / sr, 6)
        if ctx.p(.3):  # exactly on a sample
            st.onset = start + ctx.i(0, n - 1) / sr
        st.event_time = start - 100
        st.slowness = ctx.u(4, 8)
        st.back_azimuth = ctx.u(0, 360)
        if ctx.p(.3):
            st.processing = ['x']
        traces.append(tr)
    return RFStream(traces), base


def window(ctx, stream, base):
    """(t1, t2, reftime) and function giving absolute times per trace"""
    kind = ctx.choice(['onset', 'onset', 'starttime', 'endtime', 'UTC',
                       'UTC-abs', 'event_time', 'mixed'])
    dur = max(len(tr) * tr.stats.delta for tr in stream)
    a, b = sorted([round(ctx.u(-1.2, 1.2) * dur, 4),
                   round(ctx.u(-1.2, 1.2) * dur, 4)])
    off = 100 if kind == 'event_time' else 0
    a, b = a + off, b + off
    if ctx.p(.15):
        a = None
    if ctx.p(.15):
        b = None
    if ctx.p(.3):
        a = a if a is None else float(round(a))
        b = b if b is None else int(round(b))
    if ctx.p(.2):  # numpy types
        a = a if a is None else np.float64(a)
        b = b if b is None else (np.int64(b) if isinstance(b, int) else
                                 np.float32(b))
        if isinstance(b, np.float32):  # value which is really passed
            ctx.ev('float32')
    if a is not None and b is not None and a > b:
        a, b = b, a
    if kind in ('onset', 'starttime', 'endtime', 'event_time'):
        return a, b, kind, lambda tr, x: (None if x is None else
                                          tr.stats[kind] + x), kind
    if kind == 'UTC':
        t = base + round(ctx.u(-3, 3), 3)
        return a, b, t, lambda tr, x: None if x is None else t + x, kind
    # absolute times, reftime is not used (given or not)
    a2 = None if a is None else base + a
    b2 = None if b is None else base + b
    if kind == 'mixed':
        a2 = a
        return a2, b2, 'onset', lambda tr, x: (
            x if x is None or isinstance(x, UTC) else tr.stats.onset + x
        ), kind
    return a2, b2, ctx.choice([None, 'onset']), lambda tr, x: x, kind


def options(ctx):
    kw = {}
    if ctx.p(.3):
        kw['nearest_sample'] = ctx.choice([True, False])
    return kw


def compare(ctx, clause, got, want, msg):
    if not ctx.same(clause + '-number', [tr.stats.tag for tr in got],
                    [tr.stats.tag for tr in want], msg):
        return
    for g, w in zip(got, want):
        ctx.ev(clause)
        ctx.ok('class', type(g) is RFTrace)
        ctx.close('samples', g.data, w.data, msg=msg)
        ctx.same('starttime', g.stats.starttime, w.stats.starttime, msg)
        ctx.same('sampling-rate', g.stats.sampling_rate,
                 w.stats.sampling_rate, msg)
        ctx.same('npts', g.stats.npts, w.stats.npts, msg)
        hg, hw = gen.header_of(g), gen.header_of(w)
        ctx.ok('headers', gen.snap(hg) == gen.snap(hw), lambda: (
            '%s %s != %s' % (msg, hg, hw)))


def model_indices(tr, t1, t2):
    """own model for pad=False and nearest_sample=True"""
    n, dt = tr.stats.npts, tr.stats.delta
    s = tr.stats.starttime
    i1, i2 = 0, n - 1
    if t1 is not None:
        x = (t1 - s) / dt
        i1 = max(0, int(np.floor(x + 0.5)))
        if abs(x + .5 - round(x + .5)) < 1e-4:
            return None  # half way between samples
    if t2 is not None:
        x = (t2 - s) / dt
        i2 = min(n - 1, int(np.floor(x + 0.5)))
        if abs(x + .5 - round(x + .5)) < 1e-4:
            return None
    return i1, i2  # narrow or outside windows are left to ObsPy


def setup(ctx):
    stream, base = make(ctx)
    a, b, reftime, absolute, kind = window(ctx, stream, base)
    ctx.desc = {'a': str(a), 'b': str(b), 'ref': str(reftime),
                'starts': [str(tr.stats.starttime) for tr in stream],
                'n': [len(tr) for tr in stream]}
    ctx.sig(kind, a is None, b is None, len(stream))
    ctx.ev('rel:' + kind)
    return stream, a, b, reftime, absolute


def lacking(ctx, stream, a, b, reftime, f):
    """a trace without the header with the reference time"""
    if not isinstance(reftime, str) or reftime in ('starttime', 'endtime') \
            or not ctx.p(.15):
        return False
    if all(x is None or isinstance(x, UTC) for x in (a, b)):
        return False
    del ctx.choice(stream.traces).stats[reftime]
    ctx.ev('lacking')
    ctx.raises('no-reference-time', f, a, b, reftime)
    return True


@case('trim2', 220, 9000)
def trim2(ctx):
    stream, a, b, reftime, absolute = setup(ctx)
    if lacking(ctx, stream, a, b, reftime, stream.trim2):
        return
    kw = options(ctx)
    if ctx.p(.3):
        kw['pad'] = True
        kw['fill_value'] = ctx.choice([0., 7., -1.])
    orig = stream.copy()
    objs = {tr.stats.tag: tr for tr in stream}
    want = []
    for tr in orig:
        w = Trace(tr.data.copy(), header=tr.stats.copy())
        t1, t2 = absolute(tr, a), absolute(tr, b)
        if t1 is not None and t2 is not None and t1 > t2:
            ctx.raises('reversed-window', stream.trim2, a, b, reftime)
            return
        w.trim(t1, t2, **kw)
        if w.stats.npts:
            want.append(w)
        else:
            ctx.ev('dropped')
    args = {'starttime': a, 'endtime': b, 'reftime': reftime}
    if ctx.p(.5):
        ret = stream.trim2(a, b, reftime, **kw)
    else:
        args = {k: v for k, v in args.items() if v is not None}
        args.update(kw)
        ret = stream.trim2(**args)
    msg = 'trim2(%s, %s, %s, %s)' % (a, b, reftime, kw)
    if not want:
        ctx.ev('empty-window')
    ctx.ok('in-place', ret is stream and all(
        objs[tr.stats.tag] is tr for tr in ret), msg)
    compare(ctx, 'trim2', stream, want, msg)
    if not kw:
        for tr in orig:
            ij = model_indices(tr, absolute(tr, a), absolute(tr, b))
            if ij is None or ij[1] <= ij[0]:
                continue
            w = tr.data[ij[0]:max(ij[0], ij[1] + 1)]
            g = [x for x in stream if x.stats.tag == tr.stats.tag]
            ctx.close('index-model', g[0].data if g else [], w, msg=msg)


@case('slice2', 180, 7000)
def slice2(ctx):
    stream, a, b, reftime, absolute = setup(ctx)
    if lacking(ctx, stream, a, b, reftime, stream.slice2):
        return
    kw = options(ctx)
    keep = ctx.p(.3)
    before = gen.snap(stream)
    want = []
    for tr in stream:
        w = Trace(tr.data.copy(), header=tr.stats.copy())
        t1, t2 = absolute(tr, a), absolute(tr, b)
        if t1 is not None and t2 is not None and t1 > t2:
            ctx.raises('reversed-window', stream.slice2, a, b, reftime)
            return
        w = w.slice(t1, t2, **kw)
        if w.stats.npts or keep:
            want.append(w)
        else:
            ctx.ev('dropped')
    if not want:
        ctx.ev('empty-window')
    args = {'reftime': reftime}
    if keep:
        args['keep_empty_traces'] = True
    args.update(kw)
    got = stream.slice2(a, b, **args)
    msg = 'slice2(%s, %s, %s)' % (a, b, args)
    ctx.ok('unchanged', gen.snap(stream) == before, msg)
    ctx.ok('new-stream', type(got) is RFStream and got is not stream, msg)
    compare(ctx, 'slice2', got, want, msg)
    # headers of the slice are independent of the original
    for tr in got:
        tr.stats.slowness = -99.
        tr.stats.station = 'ZZZ'
    ctx.ok('unchanged', gen.snap(stream) == before, msg)
