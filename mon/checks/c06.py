"""
C06: deconvolution recovers delay, polarity and amplitude of conversions
"""
import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen
from mon.core import case, cases_of  # noqa

PROP = 'C06'
SCALE = 3
TECHNIQUE = 'Runtime monitor on synthetic streams of known spike trains: online oracle on lag, sign and amplitude of the peaks of each method'
NOTE = 'Streams with known delays, random wavelets, windows, sampling rates and onset positions; each method is judged against the ground truth of the synthetic stream'
RULE = ('streams are built from a random wavelet and known delayed copies '
        '(+-delays, 1-3 copies, both signs); monitored are axis, peak '
        'position, amplitude, linear superposition and scale invariance of '
        'the result for each method')
ASSUMPTIONS = [
    'random wavelets have energy in the pass band of the Gauss filter',
    'multitaper is an estimator: one sample and 40 % tolerance, copies '
    'inside of the part of the trace covered by its windows',
    'toeplitz package is not installed: scipy solver is used']
REQUIRED = {'peak-lag': 337, 'peak-amplitude': 337, 'source-peak': 150,
            'scale-invariance': 60, 'superposition': 100, 'method:time': 30,
            'method:waterlevel': 40, 'method:iterative': 40,
            'method:multitaper': 40, 'negative-delay': 60,
            'onset-between-samples': 60}


def build(ctx, method, nspikes, comps, src, sep):
    """returns function creating the stream and ground truth"""
    from rf import RFStream
    from rf.rfstream import RFTrace
    sr = ctx.choice([2., 4., 5., 8., 10., 20., 12.5, 15., 6., 7.])
    n = ctx.i(int(85 * sr), int(140 * sr))
    on = ctx.u(28, 36)
    if ctx.p(.3):
        on = round(on * sr) / sr
    else:
        ctx.ev('onset-between-samples')
    k = int(round(on * sr))
    if abs(on * sr - k) > 0.45:  # keep away from ties
        on = (k + 0.4 * np.sign(on * sr - k)) / sr
    m = int(ctx.u(2.5, 5) * sr)
    wav = gen.wavelet(ctx.rng, m, sr, fmax=min(1.2, 0.35 * sr))
    t0 = UTC(2010, 1, 1) + ctx.u(0, 1e8)
    w = np.zeros(n)
    w[k:k + m] = wav
    truth = {}
    data = {src: w}
    for c in comps:
        if c == src:
            continue
        spikes = []
        while len(spikes) < nspikes:
            d = ctx.i(int(1 * sr), int(25 * sr))
            if ctx.p(.4) and not (method == 'multitaper'):
                d = -ctx.i(int(1 * sr), int(16 * sr))
            elif method == 'multitaper' and ctx.p(.4):
                d = -ctx.i(int(1 * sr), int(10 * sr))
            if all(abs(d - d2) > sep * m for d2, _ in spikes):
                spikes.append((d, ctx.choice([-1, 1]) * ctx.u(.2, .9)))
        x = np.zeros(n)
        for d, a in spikes:
            x[k + d:k + d + m] += a * wav
            if d < 0:
                ctx.ev('negative-delay')
        truth[c] = sorted(spikes, key=lambda s: -abs(s[1]))
        data[c] = x
    start = t0 - on
    noise = {c: 1e-3 * ctx.rng.normal(size=n) for c in comps}

    code = gen.band_code(ctx)

    def make(scale=1.):
        st = RFStream()
        for c in comps:
            d = data[c].copy()
            if method == 'multitaper':
                d += noise[c]
            tr = RFTrace(data=d * scale, header={
                'network': 'XX', 'station': 'ABC', 'location': '',
                'channel': code + c, 'sampling_rate': sr,
                'starttime': start})
            tr.stats.onset = t0
            st.append(tr)
        return st

    def make_noise(scale=1.):
        st = make(scale)
        for tr in st:
            c = tr.stats.channel[-1]
            tr.data = scale * noise[c]
        return st.trim2(None, ctx_noise, 'onset')
    ctx_noise = ctx.u(-8, 5)
    neg = any(d < 0 for s in truth.values() for d, _ in s)
    return make, truth, sr, n, k, m, start, (make_noise, neg)


def shifted(x, d):
    out = np.zeros_like(x)
    if d >= 0:
        out[d:] = x[:len(x) - d]
    else:
        out[:d] = x[-d:]
    return out


def run(ctx, method, api='deconvolve'):
    src, comps, srccomps = ctx.choice([
        ('L', 'LQT', 'LZ'), ('Z', 'ZRT', 'LZ'), ('L', 'LQ', 'LZ'),
        ('Q', 'QLT', 'QR'), ('R', 'RZ', 'QR'), ('L', 'LQT', 'L')])
    comps = ''.join(ctx.choice(list(comps)) for _ in range(0)) + comps
    comps = [comps[j] for j in ctx.rng.permutation(len(comps))]
    nspikes = ctx.choice([1, 1, 2, 3])
    single = nspikes == 1
    make, truth, sr, n, k, m, start, (make_noise, neg) = build(
        ctx, method, nspikes, comps, src, sep=1.1)
    kw = {}
    pw = 'P' if src in 'LZ' else 'S'
    kw['winsrc'] = pw
    if method != 'iterative' and ctx.p(.5):
        b = ctx.u(7, 30) if method != 'multitaper' else ctx.u(20, 30)
        kw['winsrc'] = (-ctx.u(6, 15) if method != 'multitaper'
                        else -ctx.u(8, 15), b,
                        ctx.choice([0, 1, 2]))
    if method == 'time':
        kw['solve_toeplitz'] = 'scipy'
        if ctx.p(.3):
            kw['spiking'] = ctx.choice([0.5, 2., 10.])
    if method in ('waterlevel', 'iterative') and ctx.p(.3):
        kw['gauss'] = ctx.choice([0.4, 0.8, 1.])
    if method == 'waterlevel' and ctx.p(.3):
        kw['waterlevel'] = ctx.choice([0.01, 0.1])
    name = method
    if method == 'waterlevel' and ctx.p(.4):
        name = 'freq'
    ctx.desc = {'method': name, 'sr': sr, 'n': n, 'onset': k,
                'truth': truth, 'kw': kw, 'comps': ''.join(comps)}
    # conversions before the onset are part of the default noise window
    givenoise = method == 'multitaper' and (neg or ctx.p(.3))

    def more(scale=1.):
        if givenoise:
            ctx.ev('noise-given')
            return dict(kw, noise=make_noise(scale))
        return kw
    st = make()
    ret = st.deconvolve(name, source_components=srccomps, **more())
    ctx.ev('method:' + method)
    ctx.sig(method, ''.join(comps), kw['winsrc'] == pw, nspikes, sr)
    ctx.same('in-place', ret is st, True)
    ctx.same('components', ''.join(tr.stats.channel[-1] for tr in st),
             ''.join(comps))
    res = {}
    for tr in st:
        ctx.same('time-axis', (len(tr), tr.stats.sampling_rate), (n, sr))
        ctx.ok('start-time', abs(tr.stats.starttime - start) < 1e-5)
        ctx.close('onset', tr.stats.onset - tr.stats.starttime, k / sr,
                  atol=2e-6)
        ctx.ok('finite-real', np.isrealobj(tr.data) and
               np.all(np.isfinite(tr.data)))
        res[tr.stats.channel[-1]] = tr.data
    tol = 1 if method == 'multitaper' else 0
    s = res[src]
    ctx.ok('source-peak', abs(int(np.argmax(np.abs(s))) - k) <= tol,
           lambda: 'peak at %d, onset at %d' % (np.argmax(np.abs(s)), k))
    ctx.close('source-amplitude', s.max(), 1., atol=1e-3)
    atol = {'time': 2e-3, 'waterlevel': 5e-3, 'iterative': 5e-3,
            'multitaper': 0.4}[method]
    for c in truth:
        x = res[c]
        d, a = truth[c][0]
        if single:
            j = int(np.argmax(np.abs(x)))
            ctx.ok('peak-lag', abs(j - k - d) <= tol, lambda: (
                '%s %s: peak at delay %d samples, expected %d' % (
                    method, c, j - k, d)))
            ctx.close('peak-amplitude', x[j] / a, 1., atol=atol,
                      msg='%s %s' % (method, c))
        else:
            for d, a in truth[c]:
                if method == 'multitaper':
                    w = int(0.5 * sr)
                    seg = x[max(0, k + d - w):k + d + w + 1]
                    v = seg[np.argmax(np.sign(a) * seg)]
                    ctx.ok('peak-polarity', v * a > 0)
                else:
                    want = sum(a2 * s[k + d - d2] for d2, a2 in truth[c]
                               if 0 <= k + d - d2 < n)
                    ctx.close('peak-amplitude', x[k + d], want,
                              atol=0.02 if method != 'iterative' else 0.1,
                              msg='%s %s d=%d' % (method, c, d))
                    ctx.ok('peak-lag', True)
        if method in ('time', 'waterlevel'):
            lo, hi = int(3 * sr), n - int(3 * sr)
            want = sum(a * shifted(s, d) for d, a in truth[c])
            if method == 'time':
                # samples which are not shifted in from outside
                lo = max([lo] + [lo + d for d, _ in truth[c]])
                hi = min([hi] + [hi + d for d, _ in truth[c]])
            ctx.close('superposition', x[lo:hi], want[lo:hi],
                      atol=0.02 * nspikes if method == 'time' else 0.05)
    if ctx.p(.4):
        f = 10 ** ctx.u(-6, 6)
        st2 = make(f)
        st2.deconvolve(name, source_components=srccomps, **more(f))
        for tr in st2:
            ctx.close('scale-invariance', tr.data,
                      res[tr.stats.channel[-1]], atol=1e-6 if
                      method != 'iterative' else 1e-4)


@case('time', 60, 3000, 4)
def case_time(ctx):
    run(ctx, 'time')


@case('waterlevel', 80, 8000, 5)
def case_waterlevel(ctx):
    run(ctx, 'waterlevel')


@case('iterative', 80, 8000, 5)
def case_iterative(ctx):
    run(ctx, 'iterative')


@case('multitaper', 80, 8000, 5)
def case_multitaper(ctx):
    run(ctx, 'multitaper')
