"""
C15: moveout correction maps every conversion depth to its reference delay
"""
import os

import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen, ref
from mon.core import case

PROP = 'C15'
SCALE = 5
TECHNIQUE = 'runtime monitor on synthetic receiver functions: position of conversions of known depth before and after moveout is judged with an independent layered model'
NOTE = 'held on sampled phases, slownesses, models, depths, onset positions and sampling rates'
RULE = ('streams of 1-6 traces with own slowness, sampling rate and onset and '
        'pulses at delay times of random depths; iasp91 and random models')
ASSUMPTIONS = ['delay times increase monotonously with depth in magnitude',
               'delay times later than the deepest conversion are not judged']
REQUIRED = {'delay': 213, 'direct-wave': 196, 'other-side': 272, 'range': 272,
            'headers': 272, 'identity': 60, 'onset-outside': 15,
            'S-multiple': 40, 'model-file': 60, 'turned': 10, 'history': 60, 'twice': 120,
            'default-phase': 11, 'constant': 30, 'cut': 10}

PH = {'P': ['Ps', 'Ps', 'Ppps', 'Ppss', 'Psss', 'Pppp'],
      'S': ['Sp', 'Sp', 'Ssps', 'Sspp', 'Sssp', 'Spss']}


def random_model(ctx, fname):
    """write model file, return reference model"""
    nl = ctx.i(5, 12)
    z = np.r_[0, np.cumsum([ctx.u(2, 60) for _ in range(nl)])]
    z = np.round(z * (ctx.u(300, 700) / z[-1]), 2)
    vp = np.round(np.linspace(5.5, 9, nl + 1) + ctx.rng.uniform(
        -.3, .3, nl + 1), 3)
    vs = np.round(vp / ctx.u(1.65, 1.85), 3)
    n = [0] + [ctx.i(0, 8) for _ in range(nl)]
    cols = ctx.choice([3, 4])
    with open(fname, 'w') as f:
        f.write('#model\n')
        for row in zip(z, vp, vs, n):
            f.write(' '.join(str(x) for x in row[:cols]) + '\n')
    return ref.Layered(z, vp, vs, n if cols == 4 else None)


def model(ctx):
    if ctx.p(.5):
        return {}, ref.iasp91()
    fname = os.path.join(ctx.tmpdir(), 'model.dat')
    lay = random_model(ctx, fname)
    ctx.ev('model-file')
    return {'model': fname}, lay


CODE = ['BHQ', 'HHL', 'LHQ']


def trace(sr, n, onset, slow, phase, data, j=0):
    from rf.rfstream import RFTrace
    t0 = UTC(2012, 1, 1) + 1000 * j
    tr = RFTrace(data=data, header={
        'network': 'X', 'station': 'S', 'channel': CODE[j % 3],
        'sampling_rate': sr, 'starttime': t0 - onset})
    tr.stats.update({'onset': t0, 'slowness': slow, 'phase': phase,
                     'tag': j, 'type': 'rf'})
    return tr


def slowness(ctx, m, s_ref=False):
    if m == 'P':
        return ctx.choice([ctx.u(4.2, 8.9), 6.4, ctx.i(5, 8)])
    if s_ref:
        return ctx.choice([ctx.u(9, 12.5), 6.4, ctx.u(6, 9), ctx.i(6, 12)])
    return ctx.u(9, 12.7)


def usable(lay, phase, p, pref):
    """depth down to which delays for both slownesses are monotone"""
    a, b = lay.delays(p, phase), lay.delays(pref, phase)
    ok = np.isfinite(a) & np.isfinite(b)
    k = len(ok) if ok.all() else int(np.argmin(ok))
    da, db = np.diff(a[:k]), np.diff(b[:k])
    h = lay.h[:k - 1]
    s = np.sign(np.sum(da))
    bad = ((da * s <= 0) | (db * s <= 0)) & (h > 0)
    if bad.any():
        k = int(np.argmax(bad)) + 1
    return k


def stretch(lay, phase, p, pref, d):
    """maximum stretching of the time axis around depth d"""
    z = lay.top[(lay.top > d - 30) & (lay.top < d + 30)]
    z = np.unique(np.r_[max(0, d - 10), d, d + 10, z])
    a, b = lay.delay(p, phase, z), lay.delay(pref, phase, z)
    with np.errstate(all='ignore'):
        r = np.abs(np.diff(b) / np.diff(a))
    r = r[np.isfinite(r)]
    return max(1., r.max()) if len(r) else 1.


@case('delays', 160, 10000, 5)
def case_delays(ctx):
    from rf import RFStream
    m = ctx.choice('PPS')
    phase = ctx.choice(PH[m])
    if ctx.p(.2):
        phase = ctx.choice([phase.upper(), phase.lower(), phase.swapcase()])
    mkw, lay = model(ctx)
    kw = dict(mkw)
    pref = 6.4
    if ctx.p(.6):
        pref = kw['ref'] = slowness(ctx, m, True)
    if phase in ('Ps', 'Sp') and ctx.p(.5):
        ctx.ev('default-phase')
    else:
        kw['phase'] = phase
    traces, truth = [], []
    for j in range(ctx.i(1, 6)):
        sr = ctx.choice([4., 5., 10., 20., 1.])
        p = slowness(ctx, m)
        if ctx.p(.15):
            p = pref
        k = usable(lay, phase, p, pref)
        d0 = d1 = 0
        if k > 4:
            top = lay.top[:k - 3]
            depths = [ctx.u(top[0], top[-1]) for _ in range(2)]
            if ctx.p(.4):
                depths[0] = ctx.choice(list(top))
        else:
            depths = []
        if len(lay.top) > k:
            ctx.ev('turned')
        before, after = ctx.u(30, 70), ctx.u(60, 120)
        if m == 'S' and len(phase) > 2:
            before, after = after, before
            ctx.ev('S-multiple')
        onset = before if ctx.p(.5) else round(before * sr) / sr
        n = int((before + after) * sr)
        t = np.arange(n) / sr - onset
        width = max(.4, 2.5 / sr)
        data = np.zeros(n)
        sgn = -1 if m == 'S' else 1
        peaks = []
        for d in depths:
            d0 = sgn * lay.delay(p, phase, d)
            d1 = sgn * lay.delay(pref, phase, d)
            if all(t[0] + 8 * width < x < t[-1] - 8 * width
                   for x in (d0, d1)):
                peaks.append((d, d0, d1, ctx.choice([-1, 1]) * ctx.u(.5, 1),
                              .55 + .55 * stretch(lay, phase, p, pref, d)))
        if len(peaks) == 2 and min(abs(peaks[0][i] - peaks[1][i])
                                   for i in (1, 2)) < 10 * width:
            peaks = peaks[:1]
        if any(min(abs(x[1]), abs(x[2])) < 6 * width for x in peaks):
            peaks = []
        for d, d0, d1, a, tol in peaks:
            data += a * np.exp(-.5 * ((t - d0) / width) ** 2)
        dirac = ctx.p(.5) or not peaks
        if dirac:
            data += np.exp(-.5 * (t / width) ** 2)
        noise = np.zeros(n)
        other = (t < -1 / sr - 1e-9) if not (m == 'S' and len(phase) > 2) \
            else (t > 1e-9)
        noisy = other & (np.abs(t) > 5 * width)
        noise[noisy] = .1 * ctx.rng.normal(size=noisy.sum())
        tr = trace(sr, n, onset, p, m, data + noise, j)
        traces.append(tr)
        truth.append((sr, n, onset, p, peaks, width, other, t, dirac))
    st = RFStream(traces)
    old = st.copy()
    ctx.desc = {'phase': phase, 'kw': {k: v for k, v in kw.items()
                                       if k != 'model'}, 'm': m,
                'truth': [x[:5] for x in truth]}
    ctx.sig(phase, 'ref' in kw, 'model' in kw, len(st))
    if set(kw) <= {'phase', 'ref'} and 'phase' in kw and ctx.p(.4):
        # via the model class
        from rf.simple_model import load_model
        ctx.ev('model-class')
        ret = load_model().moveout(st, **kw)
        ctx.same('in-place', ret is st, True)
        for tr in st:
            tr.stats.update({'moveout': phase, 'slowness_before_moveout':
                             tr.stats.slowness, 'slowness': pref})
    else:
        ret = st.moveout(**kw)
    ctx.same('in-place', ret is st, True)
    ctx.same('number', len(st), len(old))
    for tr, o, (sr, n, onset, p, peaks, width, other, t, dirac) in zip(
            st, old, truth):
        ctx.same('length', len(tr), n)
        x, y = o.data, tr.data
        ctx.ok('finite', np.all(np.isfinite(y)))
        lo, hi = min(x.min(), 0), max(x.max(), 0)
        ctx.ok('range', y.min() >= lo - 1e-9 and y.max() <= hi + 1e-9)
        ctx.ok('other-side', np.array_equal(x[other], y[other]),
               lambda: '%s changed at %s' % (phase, t[other][
                   x[other] != y[other]][:5]))
        if dirac:
            near = np.abs(t) < 3 * width
            j = np.argmax(np.where(near, y, -9))
            ctx.ok('direct-wave', abs(t[j]) * sr <= 1.001,
                   lambda: '%s at %s s' % (phase, t[j]))
        for d, d0, d1, a, tol in peaks:
            near = np.abs(t - d1) < max(4 * width, 4 / sr)
            z = np.where(near, y * np.sign(a), -9)
            j = int(np.argmax(z))
            ctx.ok('delay', abs(t[j] - d1) * sr <= tol and z[j] >
                   .4 * abs(a), lambda: (
                       '%s depth %.1f p=%s ref=%s sr=%s: %.3f -> %.3f, '
                       'expected %.3f amp %.3f of %.3f' % (
                           phase, d, p, pref, sr, d0, t[j], d1, y[j], a)))
        if p == pref:
            tmax = np.abs(lay.delays(p, phase)[:max(1, len(lay.top) - 4)])
            tmax = np.nanmax(tmax) - 2
            part = np.abs(t) < tmax
            ctx.close('identity', y[part], x[part], atol=1e-9)
        want = gen.header_of(o)
        want.update({'moveout': phase if 'phase' in kw else
                     {'P': 'Ps', 'S': 'Sp'}[m],
                     'slowness_before_moveout': p, 'slowness': pref})
        got = gen.header_of(tr)
        ctx.same('headers', gen.snap(got), gen.snap(want))
    # same correction independent of other traces
    j = ctx.i(0, len(old) - 1)
    one = RFStream([old[j].copy()]).moveout(**kw)
    ctx.close('independent', one[0].data, st[j].data, atol=1e-12)


@case('history', 60, 4000, 5)
def case_history(ctx):
    """changing reference slowness, phase and model in one process"""
    from rf import RFStream
    m = ctx.choice('PS')
    models = [model(ctx), model(ctx)]
    p = slowness(ctx, m)
    sr, width = 10., .5
    ctx.desc = {'m': m, 'p': p, 'h': models[0][1].zall[3]}
    for _ in range(ctx.i(3, 6)):
        phase = ctx.choice(PH[m])
        mkw, lay = ctx.choice(models)
        pref = slowness(ctx, m, True)
        # reference slowness close to the last one
        near = pref + ctx.choice([-1, 1]) * ctx.u(.005, .04)
        k = usable(lay, phase, near, pref)
        tmax = np.abs(lay.delays(near, phase)[:max(1, k - 4)])[-1] - 2
        tn = np.abs(np.arange(2000) / sr - 100) < tmax
        noise = ctx.rng.normal(size=2000)
        st = RFStream([trace(sr, 2000, 100., near, m, noise)])
        for x in (pref, near):
            one = st.copy().moveout(phase=phase, ref=x, **mkw)[0]
        ctx.close('identity', one.data[tn], noise[tn], atol=1e-9,
                  msg='%s after %s' % (near, pref))
        k = usable(lay, phase, p, pref)
        if k < 5:
            continue
        d = ctx.u(lay.top[0], lay.top[k - 4])
        sgn = -1 if m == 'S' else 1
        d0, d1 = (sgn * lay.delay(x, phase, d) for x in (p, pref))
        t = np.arange(2000) / sr - 100
        if not (3 < abs(d0) < 95 and 3 < abs(d1) < 95):
            continue
        data = np.exp(-.5 * ((t - d0) / width) ** 2)
        st = RFStream([trace(sr, 2000, 100., p, m, data)])
        st.moveout(phase=phase, ref=pref, **mkw)
        j = int(np.argmax(st[0].data))
        tol = .55 + .55 * stretch(lay, phase, p, pref, d)
        ctx.ok('history', abs(t[j] - d1) * sr <= tol, lambda: (
            '%s ref %s depth %s: %.2f expected %.2f' % (
                phase, pref, d, t[j], d1)))
        h = st[0].stats
        ctx.same('twice', [h.slowness_before_moveout, h.slowness, h.moveout],
                 [p, pref, phase])
        # correction of a corrected stream
        p3 = slowness(ctx, m, True)
        if usable(lay, phase, pref, p3) < k:
            continue
        st.moveout(phase=phase, ref=p3, **mkw)
        ctx.same('twice', [h.slowness_before_moveout, h.slowness, h.moveout],
                 [pref, p3, phase])
        d2 = sgn * lay.delay(p3, phase, d)
        if not 3 < abs(d2) < 95:
            continue
        tol = .6 + (.55 + tol) * stretch(lay, phase, pref, p3, d)
        j = int(np.argmax(st[0].data))
        ctx.ok('twice', abs(t[j] - d2) * sr <= tol, lambda: (
            '%s ref %s then %s depth %s: %.2f expected %.2f' % (
                phase, pref, p3, d, t[j], d2)))


@case('constant', 60, 4000, 5)
def case_constant(ctx):
    """constant data keep their value and end at the time of the last sample"""
    from rf import RFStream
    m = ctx.choice('PS')
    phase = ctx.choice(PH[m])
    mkw, lay = model(ctx)
    p, pref = slowness(ctx, m), slowness(ctx, m, True)
    k = usable(lay, phase, p, pref)
    if k < 8:
        return ctx.trivial()
    sgn = -1 if m == 'S' else 1
    a, b = (sgn * lay.delays(x, phase)[:k - 4] for x in (p, pref))
    side = 1 if a[-1] > 0 else -1
    a, b = np.abs(a), np.abs(b)
    sr = ctx.choice([4., 5., 10.])
    length = min(ctx.u(.3, .9) * a[-1], ctx.u(60, 150))
    if length < 10:
        return ctx.trivial()
    before, after = (ctx.u(5, 30), length)[::side]
    n = int((before + after) * sr)
    onset = before if ctx.p(.5) else round(before * sr) / sr
    t = (np.arange(n) / sr - onset) * side
    val = ctx.choice([-1, 1]) * ctx.u(1, 2)
    ctx.desc = {'phase': phase, 'p': p, 'ref': pref, 'sr': sr,
                'onset': onset, 'n': n, 'model': 'model' in mkw}
    ctx.sig(phase, 'model' in mkw, a[-1] > b[-1])
    st = RFStream([trace(sr, n, onset, p, m, np.full(n, val))])
    st.moveout(phase=phase, ref=pref, **mkw)
    y = st[0].data
    end = np.interp(t.max(), a, b)
    y1, y2 = y[t < end - 1.5 / sr], y[t > end + 1.5 / sr]
    ctx.close('constant', y1, np.full(len(y1), val), rtol=1e-9)
    ctx.close('end', y2, np.zeros(len(y2)), atol=0)
    if (t > end + 1.5 / sr).any():
        ctx.ev('cut')


@case('errors', 30, 1000)
def case_errors(ctx):
    from rf import RFStream
    kind = ctx.choice(['before', 'after', 'odd-phase'])
    on = {'before': -ctx.u(.5, 50), 'after': ctx.u(50.1, 90),
          'odd-phase': 20.}[kind]
    tr = trace(10., 501, on, 6.5, 'P', np.ones(501))
    kw = {'phase': ctx.choice(['P', 'Pps', 'S'])} if kind == 'odd-phase' \
        else {}
    ctx.desc = {'kind': kind, 'on': on, 'kw': kw}
    st = RFStream([tr])
    try:
        st.moveout(**kw)
    except ValueError:
        ctx.ok('onset-outside', True)
    else:
        ctx.ok('onset-outside', False, kind)
    # onset at first or last sample is valid
    for on in (0., 49.95):
        tr = trace(10., 501, on, 6.5, 'P', np.ones(501))
        RFStream([tr]).moveout()
        ctx.ok('onset-edge', True)
