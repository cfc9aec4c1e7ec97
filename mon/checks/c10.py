"""
C10: deconv_multitaper follows the published noise-damped estimator
"""
import numpy as np

from mon import gen, ref
from mon.core import case

PROP = 'C10'
TECHNIQUE = 'differential runtime monitor against an independent estimator (SciPy Slepian tapers), plus metamorphic monitors on noise level and noise assignment'
NOTE = 'held on sampled lengths, sampling rates, taper parameters and noise'
RULE = ('random source, response and noise arrays with all combinations of '
        'T, olap, tband, K, gauss, tshift, normalize; streams with own and '
        'with default noise windows')
ASSUMPTIONS = ['window positions and scale factors (window counts) as in the '
               'reference implementation mtdecon.f used by the package',
               'source shorter than the response by at least one window']
REQUIRED = {'estimator': 132, 'noise-monotone': 87, 'own-noise': 60,
            'default-noise': 40, 'given-noise': 40, 'noise-kept': 40,
            'normalized': 25, 'inputs-kept': 60,
            'short-noise': 20}


def tapers(n, tband, K):
    from scipy.signal.windows import dpss
    return dpss(n, tband, K, return_ratios=True)


def linear_detrended(x):
    x = np.asarray(x, float)
    x = x - x.mean()
    t = np.arange(len(x)) - (len(x) - 1) / 2
    if len(x) > 1:
        x = x - t * np.dot(t, x) / np.dot(t, t)
    return x - x.mean()


def windowed(x, n, tap, starts, skip_last):
    """sum of the spectra of all windows of x (padded to n samples)"""
    m = tap.shape[1]
    x = np.pad(x, (0, n - len(x)))
    out = []
    for w in tap:
        env = np.zeros(n)
        for a in starts:
            if skip_last and a + m >= n:
                continue
            env[a:a + m] += w
        out.append(np.fft.fft(env * x))
    return np.array(out)


def reference(rsp, src, nse, sr, tshift, gauss, K, tband, T, olap):
    n = len(rsp[0])
    m = int(round(T * sr))
    tap, lam = tapers(m, tband, K)
    over = 1 / (1 - olap)

    def starts(num):
        return [int(j * m / over) for j in range(num)]
    nsrc = int(over * len(src) / m)
    S = windowed(linear_detrended(src), n, tap, starts(nsrc), False)
    S *= len(src) / (nsrc * n)
    filt = ref.gauss(n, 1 / sr, gauss)
    out, spec = [], []
    for r, e in zip(rsp, nse):
        nn = int(over * len(e) / m)
        N = windowed(linear_detrended(e), n, tap, starts(nn), True)
        N *= len(src) / (nn * n)
        s0 = np.sum(np.abs(N) ** 2 / lam[:, None], axis=0)
        nd = int(over * n / m) - 1
        D = windowed(linear_detrended(r), n, tap, starts(nd), True) / nd
        H = np.sum(S.conj() * D, axis=0) / (np.sum(np.abs(S) ** 2, axis=0) +
                                            s0)
        H = H * filt
        spec.append(H)
        out.append(np.fft.ifft(H * ref.dft_delay(n, 1 / sr, -tshift)).real)
    return out, spec


def workload(ctx):
    sr = ctx.choice([2., 4., 5., 10., 20., 12.5])
    n = ctx.i(int(50 * sr), int(90 * sr))
    T = ctx.choice([10., 10., 5., 8., 12., 7.7, 9.2, 6.9])
    if sr < 4:
        T = max(T, 8.)
    kw = dict(T=T)
    ns = ctx.i(int(1.5 * T * sr), n - int(T * sr) - 1)
    nn = ctx.i(int(1.5 * T * sr), n)
    if ctx.p(.5):
        kw['olap'] = ctx.choice([0.5, 0.75, 0.8])
    if ctx.p(.5):
        kw['K'], kw['tband'] = ctx.choice([(2, 2.5), (3, 4), (3, 3),
                                           (2, 4),
                                           (4, 4), (5, 4)])
    if ctx.p(.5):
        kw['gauss'] = ctx.choice([None, 1., ctx.u(.2, 3)])
    norm = ctx.choice(['default', None, None, 2])
    nrsp = 3 if norm == 2 else ctx.i(1, 3)
    src = np.zeros(ns)
    k0 = ctx.i(0, ns // 2)
    m = min(ctx.i(int(3 * sr), int(8 * sr)), ns - k0)
    src[k0:k0 + m] = gen.wavelet(ctx.rng, m, sr)
    src += 1e-3 * ctx.rng.normal(size=ns)
    rsp = []
    for _ in range(nrsp):
        x = ctx.u(1e-3, .3) * ctx.rng.normal(size=n) + ctx.u(-1, 1)
        for _ in range(ctx.i(1, 4)):
            a = ctx.i(0, n - m)
            x[a:a + m] += ctx.u(-1, 1) * src[k0:k0 + m]
        rsp.append(x)
    nse = [10 ** ctx.u(-4, 0) * ctx.rng.normal(size=nn) + ctx.u(-1, 1)
           for _ in rsp]
    if ctx.p(.3):  # noise of different length
        for j in range(1, len(nse)):
            nse[j] = nse[j][:ctx.i(int(1.5 * T * sr), nn)]
        ctx.ev('noise-length')
    elif ctx.p(.3):  # noise shorter than a window
        for j in range(len(nse)):
            nse[j] = nse[j][:int(np.ceil(ctx.u(.52, 1) * T * sr)) + 1]
        kw.setdefault('olap', .75)
        ctx.ev('short-noise')
    tshift = ctx.choice([-10., -k0 / sr, -ctx.i(0, n // 3) / sr, 0.])
    return sr, n, kw, norm, src, rsp, nse, tshift


@case('formula', 120, 6000)
def case_formula(ctx):
    from rf.deconvolve import deconv_multitaper
    sr, n, kw, norm, src, rsp, nse, tshift = workload(ctx)
    if norm != 'default':
        kw['normalize'] = norm
    ctx.desc = {'sr': sr, 'n': n, 'ns': len(src), 'nn': len(nse[0]),
                'kw': kw, 'tshift': tshift, 'nrsp': len(rsp),
                'h': float(rsp[0][0])}
    ctx.sig(sr, kw.get('T'), kw.get('olap'), kw.get('K'), str(norm),
            len(rsp), kw.get('gauss', 0) is None)
    before = gen.snap([src, rsp, nse])
    got = deconv_multitaper(rsp, src, nse, sr, tshift, **kw)
    ctx.same('inputs-kept', gen.snap([src, rsp, nse]), before)
    par = dict(gauss=0.5, K=3, tband=4, T=10, olap=.75)
    par.update({k: v for k, v in kw.items() if k != 'normalize'})
    want, spec = reference(rsp, src, nse, sr, tshift, **par)
    if norm is not None:
        j = 0 if norm == 'default' else norm
        top = np.max(np.abs(want[j]))
        want = [w / top for w in want]
        ctx.close('normalized', np.max(np.abs(got[j])), 1, atol=1e-9)
    ctx.same('number', len(got), len(rsp))
    for g, w in zip(got, want):
        ctx.close('estimator', g, w, rtol=1e-5)


@case('noise', 80, 4000)
def case_noise(ctx):
    """noise damps, and only the component it belongs to"""
    from rf.deconvolve import deconv_multitaper
    sr, n, kw, norm, src, rsp, nse, tshift = workload(ctx)
    tshift = -round(-tshift * sr) / sr
    kw['normalize'] = None
    ctx.desc = {'sr': sr, 'n': n, 'kw': kw, 'nrsp': len(rsp),
                'h': float(rsp[0][0])}
    a = deconv_multitaper(rsp, src, nse, sr, tshift, **kw)
    f = 1 + 10 ** ctx.u(-1, 2)
    b = deconv_multitaper(rsp, src, [f * x for x in nse], sr, tshift, **kw)
    for x, y in zip(a, b):
        X, Y = np.abs(np.fft.fft(x)), np.abs(np.fft.fft(y))
        ctx.ok('noise-monotone', np.all(Y <= X * (1 + 1e-9) +
                                        1e-12 * X.max()))
        ctx.ok('noise-effect', np.sum(Y ** 2) < np.sum(X ** 2))
    j = ctx.i(0, len(rsp) - 1)
    nse2 = [f * x if i == j else x for i, x in enumerate(nse)]
    c = deconv_multitaper(rsp, src, nse2, sr, tshift, **kw)
    for i in range(len(rsp)):
        ctx.close('own-noise', c[i], b[i] if i == j else a[i], rtol=1e-9)
    # superposition of responses with the same noise
    x, y = ctx.u(-2, 2), ctx.u(-2, 2)
    d = deconv_multitaper([rsp[0], rsp[-1], x * rsp[0] + y * rsp[-1]], src,
                          [nse[0]] * 3, sr, tshift, **kw)
    ctx.close('linear', d[2], x * d[0] + y * d[1], rtol=1e-7,
              atol=1e-7 * np.max(np.abs(d)))


@case('stream', 80, 2500)
def case_stream(ctx):
    """noise selection of deconvolve"""
    sr = ctx.choice([4., 5., 10.])
    onset = ctx.u(25, 40)
    comps = ctx.choice(['LQT', 'TQL', 'ZRT', 'LQ'])
    st = gen.data_stream(ctx, 1, comps, 'P', sr=sr, npts=ctx.i(
        int(85 * sr), int(110 * sr)), onset=onset, order='')
    kw = {}
    if ctx.p(.5):
        kw['gauss'] = ctx.u(.3, 2)
    rspc = None
    if ctx.p(.4):
        rspc = kw['response_components'] = ctx.choice([
            comps, comps[:2], comps[1:], comps[-1]])
    ctx.desc = {'sr': sr, 'onset': onset, 'comps': comps, 'kw': kw,
                'h': float(st[0].data[0])}
    one = st.copy()
    one.deconvolve('multitaper', **kw)
    # pre-event noise, until 5 s before the onset
    noise = st.copy()
    for tr in noise:
        t = tr.stats.onset - 5
        k = round((tr.stats.onset - tr.stats.starttime) * sr)
        tr.stats.onset = tr.stats.starttime + k / sr
        t = tr.stats.onset - 5
        tr.trim(endtime=t)
    two = st.copy()
    before = gen.snap(noise)
    two.deconvolve('multitaper', noise=noise, **kw)
    ctx.same('noise-kept', gen.snap(noise), before)
    for a, b in zip(one, two):
        ctx.same('component', a.id, b.id)
        ctx.close('default-noise', a.data, b.data, rtol=1e-9)
    # another noise stream
    noise2 = noise.copy()
    f = ctx.u(3, 100)
    for tr in noise2:
        tr.data = f * tr.data
    before = gen.snap(noise2)
    three = st.copy()
    three.deconvolve('multitaper', noise=noise2, normalize=None, **kw)
    ctx.same('noise-kept', gen.snap(noise2), before)
    used = [tr for tr in st if rspc is None or tr.stats.channel[-1] in rspc]
    src = [tr for tr in st if tr.stats.channel[-1] in 'LZ'][0].copy()
    k = int(round((src.stats.onset - src.stats.starttime) * sr))
    # default source window (-10, 30) s with 5 s taper
    a, b = k - int(round(10 * sr)), k + int(round(30 * sr))
    s = src.copy()
    t0 = s.stats.starttime
    s.trim(t0 + a / sr, t0 + b / sr, pad=True, fill_value=0.)
    s.taper(max_percentage=None, max_length=5)
    want, _ = reference(
        [tr.data for tr in used], s.data,
        [tr.data for tr in noise2 if rspc is None or
         tr.stats.channel[-1] in rspc], sr, -10, kw.get('gauss', .5), 3, 4,
        10, .75)
    ctx.same('number', len(three), len(used))
    for tr, w in zip(three, want):
        ctx.close('given-noise', tr.data, w, rtol=1e-5)
