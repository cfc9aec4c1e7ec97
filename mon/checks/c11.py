"""
C11: deconvolve selects source, responses, window and normalisation
"""
import numpy as np
from obspy import Trace

from mon import gen
from mon.core import case

PROP = 'C11'
SCALE = 5
TECHNIQUE = 'recording custom deconvolution functions observe responses, prepared source and shift; built-in methods are judged against the array functions fed by an own source preparation'
NOTE = 'held on sampled component sets, windows, tapers, orders and onset positions'
RULE = ('streams with random component sets and orders, all methods, windows '
        'inside and beyond the data, all source/response selections and '
        'invalid numbers of components')
ASSUMPTIONS = ['windows are not within 5 % of a tie between two samples',
               'cosine taper of ObsPy defines the taper']
REQUIRED = {'source': 80, 'responses': 150, 'tshift': 80, 'builtin': 170,
            'invalid': 60, 'source-kept': 40, 'headers': 211,
            'func-result': 100, 'padded': 12, 'normalize-source': 60,
            'normalize-first': 5}


def nearest(x):
    """nearest integer, None if close to a tie"""
    k = int(np.floor(x + .5))
    return k if abs(abs(x - k) - .5) > .05 else None


def workload(ctx, comps=None, npts=None):
    comps = comps or ctx.choice(['LQT', 'LQ', 'ZRT', 'ZR', 'QL', 'RTZ',
                                 'L', 'TZ'])
    comps = ''.join(comps[j] for j in ctx.rng.permutation(len(comps)))
    sr = ctx.choice([2., 4., 5., 10.])
    n = npts or ctx.i(int(70 * sr), int(100 * sr))
    while True:
        onset = ctx.u(15, 40)
        if ctx.p(.3):
            onset = round(onset * sr) / sr
        if nearest(onset * sr) is not None:
            break
    st = gen.data_stream(ctx, 1, comps, ctx.choice('PS'), sr=sr, npts=n,
                         onset=onset, order='')
    return st, comps, sr, n, nearest(onset * sr)


def window(ctx, sr, wide=True, zero=False):
    while True:
        a = -ctx.u(3, 20) if not ctx.p(.3) else -float(ctx.i(1, 20))
        if zero and ctx.p(.15):  # starts at the onset
            a = ctx.choice([0, 0., 1.])
        b = ctx.u(15, 40) if not (wide and ctx.p(.2)) else ctx.u(60, 90)
        if ctx.p(.3):
            b = float(int(b))
        if nearest(a * sr) is not None and nearest(b * sr) is not None:
            return (a, b, ctx.choice([0, 2, 5, ctx.u(0, 5)]))


def prepared(ctx, tr, k, sr, win):
    """own source preparation"""
    i0, i1 = k + nearest(win[0] * sr), k + nearest(win[1] * sr)
    out = np.zeros(i1 - i0 + 1)
    lo, hi = max(i0, 0), min(i1 + 1, len(tr))
    out[lo - i0:hi - i0] = tr.data[lo:hi]
    if i0 < 0 or i1 >= len(tr):
        ctx.ev('padded')
    t = Trace(data=out, header={'sampling_rate': sr})
    t.taper(max_percentage=None, max_length=win[2])
    return t.data


def defaults(method, kind, k, n, sr):
    on, end = k / sr, (n - 1 - k) / sr
    if method in ('time', 'multitaper', 'func'):
        return (-10, 30, 5)
    if method == 'iterative':
        return (-on, end, 0)
    return (-on if kind == 'P' else -10, end, 5)


def selection(ctx, comps):
    src = ctx.choice([c for c in comps if c in 'LZQR'])
    sc = {'L': 'LZ', 'Z': 'LZ', 'Q': 'QR', 'R': 'QR'}[src]
    if ctx.p(.3):
        sc = src
    rc = None
    if ctx.p(.6):
        rc = ''.join(c for c in comps if ctx.p(.6)) or ctx.choice(comps)
        if ctx.p(.3):
            rc = rc[::-1] + 'X'
        if ctx.p(.3):
            rc = list(rc)
    return src, sc, rc


def check_headers(ctx, st, heads, k, extra=()):
    for tr, h in zip(st, heads):
        got = gen.header_of(tr, exclude=('processing', 'onset', 'endtime') +
                            tuple(extra))
        want = {x: y for x, y in h.items() if x not in ('onset', 'endtime')}
        ctx.same('headers', gen.snap(got), gen.snap(want))
        want = tr.stats.starttime + k / tr.stats.sampling_rate
        ctx.ok('onset', abs(tr.stats.onset - want) < 2e-6)


@case('func', 160, 12000)
def case_func(ctx):
    from rf import RFStream
    from rf.rfstream import RFTrace
    st, comps, sr, n, k = workload(ctx)
    src, sc, rc = selection(ctx, comps)
    kw = {}
    if sc != 'LZ' or ctx.p(.5):
        kw['source_components'] = sc
    if rc is not None:
        kw['response_components'] = rc
    win = 'P'
    if ctx.p(.8):
        win = kw['winsrc'] = ctx.choice(['P', 'S'] + 2 * [
            window(ctx, sr, zero=True)])
    if win in ('P', 'S'):
        win = (-10, 30, 5)
    norm = ctx.choice(['default', 'default', None, 1])
    if norm != 'default':
        kw['normalize'] = norm
    if ctx.p(.5):
        kw['myoption'] = ctx.choice([3, 'x', [1, 2]])
    ctx.desc = {'comps': comps, 'sr': sr, 'n': n, 'k': k, 'kw': kw,
                'h': float(st[0].data[0])}
    ctx.sig(comps, src, sc, rc, sr, str(norm), win == (-10, 30, 5))
    seen = []
    mode = ctx.choice(['same', 'new', 'fewer'])

    def func(rsp, s, tshift=10, **more):
        seen.append((rsp, s, tshift, more, gen.snap(rsp), gen.snap(s)))
        if mode == 'same':
            for tr in rsp:
                tr.data = 2 * tr.data
            return rsp
        if mode == 'fewer':
            return rsp[:1]
        return RFStream([RFTrace(data=np.arange(5.), header={
            'channel': tr.stats.channel}) for tr in rsp])
    old = {tr.stats.channel[-1]: tr for tr in st}
    data = {c: tr.data.copy() for c, tr in old.items()}
    heads = {c: gen.header_of(tr) for c, tr in old.items()}
    snaps = {c: gen.snap(tr.data) for c, tr in old.items()}
    used = [c for c in comps if rc is None or c in rc]
    ret = st.deconvolve('func', func=func, **kw)
    ctx.same('in-place', ret is st, True)
    ctx.same('func-called', len(seen), 1)
    rsp, s, tshift, more, rsnap, ssnap = seen[0]
    ctx.same('responses', [tr.stats.channel[-1] for tr in rsp][:len(used)],
             used[:len(rsp)])
    ctx.ok('responses', isinstance(rsp, RFStream))
    ctx.same('responses', tuple(t[2] for t in rsnap[2]),
             tuple(snaps[c] for c in used))
    want = prepared(ctx, Trace(data=data[src]), k, sr, win)
    ctx.close('source', s.data, want, atol=1e-12)
    ctx.same('source-id', s.id, old[src].id)
    ctx.close('source-start', s.stats.starttime - heads[src]['starttime'],
              (k + nearest(win[0] * sr)) / sr, atol=3e-6)
    ctx.close('tshift', tshift, -win[0], atol=1e-5)
    opts = {'myoption': kw['myoption']} if 'myoption' in kw else {}
    if norm != 'default':
        opts['normalize'] = norm
    elif src in used:
        opts['normalize'] = used.index(src)
        ctx.ev('normalize-source')
    ctx.same('options', more, opts)
    if mode == 'same':
        ctx.same('func-result', [tr.stats.channel[-1] for tr in st], used)
        for tr, c in zip(st, used):
            ctx.ok('func-result', np.array_equal(tr.data, 2 * data[c]))
        check_headers(ctx, st, [heads[c] for c in used], k)
    elif mode == 'fewer':
        ctx.same('func-result', [tr.stats.channel[-1] for tr in st],
                 used[:1])
    else:
        ctx.same('func-result', [tr.stats.channel[-1] for tr in st], used)
        for tr in st:
            ctx.ok('func-result', np.array_equal(tr.data, np.arange(5.)))
    if src not in used:
        ctx.same('source-kept', gen.snap(old[src].data), snaps[src])
        got = gen.header_of(old[src], ('onset', 'processing'))
        heads[src].pop('onset')
        ctx.same('source-kept', gen.snap(got), gen.snap(heads[src]))


@case('builtin', 200, 8000)
def case_builtin(ctx):
    from rf.deconvolve import (deconv_time, deconv_waterlevel,
                               deconv_iterative, deconv_multitaper)
    method = ctx.choice(['time', 'waterlevel', 'waterlevel', 'iterative',
                         'iterative', 'multitaper'])
    st, comps, sr, n, k = workload(ctx)
    src, sc, rc = selection(ctx, comps)
    kw = {'source_components': sc}
    if rc is not None:
        kw['response_components'] = rc
    kind = 'P'
    win = None
    r = ctx.u(0, 1)
    if r < .4:
        kind = kw['winsrc'] = ctx.choice('PS')
    elif r < .8:
        win = kw['winsrc'] = window(ctx, sr, method != 'multitaper')
    if win is None:
        win = defaults(method, kind, k, n, sr)
    if method == 'multitaper' and (k / sr < 22 or win[1] - win[0] > 55):
        ctx.trivial()
        return
    more = {}
    norm = ctx.choice(['default', 'default', None, 0])
    if norm != 'default':
        more['normalize'] = norm
    if method != 'time' and ctx.p(.4):
        more['gauss'] = ctx.u(.3, 1.5)
    if method == 'time':
        more['solve_toeplitz'] = 'scipy'
        if ctx.p(.4):
            more['spiking'] = ctx.u(.5, 5)
    if method == 'iterative':
        more['itmax'] = ctx.i(3, 30)
        if ctx.p(.3):
            more['mute_shift'] = True
    ctx.desc = {'method': method, 'comps': comps, 'sr': sr, 'n': n, 'k': k,
                'kw': kw, 'more': more, 'h': float(st[0].data[0])}
    ctx.sig(method, comps, src, rc, sr, str(norm), 'winsrc' in kw)
    used = [c for c in comps if rc is None or c in rc]
    old = {tr.stats.channel[-1]: tr for tr in st}
    data = {c: tr.data.copy() for c, tr in old.items()}
    heads = {c: gen.header_of(tr) for c, tr in old.items()}
    s = prepared(ctx, Trace(data=data[src]), k, sr, win)
    rsp = [data[c].copy() for c in used]
    opts = dict(more)
    if norm == 'default':
        if src in used:
            opts['normalize'] = used.index(src)
            ctx.ev('normalize-source')
        else:
            opts['normalize'] = 0
            ctx.ev('normalize-first')
    nit = None
    if method == 'time':
        shift = int(round(-win[0] * sr - len(s) // 2))
        want = deconv_time(rsp, s, shift, **opts)
    elif method == 'waterlevel':
        want = deconv_waterlevel(rsp, s, sr, tshift=-win[0], **opts)
    elif method == 'iterative':
        want, nit, _ = deconv_iterative(rsp, s, sr, tshift=-win[0], **opts)
    else:
        nse = [data[c][:k - int(round(5 * sr)) + 1] for c in used]
        want = deconv_multitaper(rsp, s, nse, sr, win[0], **opts)
    name = method if method != 'waterlevel' else ctx.choice(
        ['waterlevel', 'freq'])
    ret = st.deconvolve(name, **kw, **more)
    ctx.same('in-place', ret is st, True)
    ctx.same('responses', [tr.stats.channel[-1] for tr in st], used)
    for tr, w in zip(st, want):
        ctx.close('builtin', tr.data, np.real(w), rtol=1e-7,
                  msg=method)
        ctx.ok('real', np.isrealobj(tr.data))
    if nit is not None:
        ctx.same('iterations', [tr.stats.iterations for tr in st],
                 list(nit))
    check_headers(ctx, st, [heads[c] for c in used], k, ('iterations',))
    if src not in used:
        ctx.ok('source-kept', np.array_equal(old[src].data, data[src]))
        got = gen.header_of(old[src], ('onset', 'processing'))
        heads[src].pop('onset')
        ctx.same('source-kept', gen.snap(got), gen.snap(heads[src]))


@case('invalid', 60, 3000)
def case_invalid(ctx):
    method = ctx.choice(['time', 'waterlevel', 'iterative', 'func'])
    bad = ctx.choice(['no-source', 'two-sources', 'no-response',
                      'four-responses', 'method', 'method2'])
    kw = {}
    if bad == 'no-source':
        st = workload(ctx, ctx.choice(['QT', 'RT', 'T']), 100)[0]
    elif bad == 'two-sources':
        st = workload(ctx, ctx.choice(['LZT', 'LZQT']), 100)[0]
    elif bad == 'no-response':
        st = workload(ctx, 'LQT', 100)[0]
        kw['response_components'] = ctx.choice(['X', 'RN', ''])
    elif bad == 'four-responses':
        st = workload(ctx, ctx.choice(['LQTR', 'LQTRX', 'ZQTR']), 100)[0]
    else:
        st = workload(ctx, 'LQT', 100)[0]
        method = 'unknown' if bad == 'method' else 'freqx'
    ctx.desc = {'bad': bad, 'method': method, 'kw': kw,
                'comps': [tr.id for tr in st]}
    ctx.sig(bad, method)
    before = gen.snap([tr.data for tr in st])
    called = []
    try:
        st.deconvolve(method, func=lambda *a, **k: called.append(a) or a[0],
                      **kw)
    except Exception as ex:
        ok = (isinstance(ex, ValueError) or method.endswith('own') or
              method == 'freqx')
        ctx.ok('invalid', ok, lambda: '%s %r' % (bad, ex))
    else:
        ctx.ok('invalid', False, 'no exception for %s' % bad)
    ctx.ok('invalid', not called)
    ctx.same('invalid-unchanged', gen.snap([tr.data for tr in st]), before)
