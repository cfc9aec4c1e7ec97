"""
C09: deconv_iterative is a greedy, monotone and bounded spike fit
"""
import numpy as np

from mon import gen, ref
from mon.core import case

PROP = 'C09'
SCALE = 8
TECHNIQUE = 'step-wise trace monitor: every added spike (obtained from runs with increasing itmax) is judged against an independent greedy step'
NOTE = 'held on sampled responses, sources, filters, shifts and stopping rules'
RULE = ('random spike trains plus noise; runs with itmax=1,2,... expose each '
        'step; complete runs are compared with an independent greedy '
        'reference with linear (4 times padded) correlations')
ASSUMPTIONS = ['no ties between correlation maxima (random data)',
               'source not longer than response']
REQUIRED = {'monotone': 113, 'reference-rf': 60, 'reference-misfit': 60,
            'spike-count': 60, 'step': 169, 'itmax': 30, 'minderr': 60,
            'muted': 15, 'independent': 60, 'length': 113,
            'zero-response': 10}


class Greedy(object):

    """independent greedy spike fit on a long time axis"""

    def __init__(self, rsp, src, sr, tshift, gauss, mute, pad=4):
        self.n, self.sr, self.dt = len(rsp), sr, 1 / sr
        self.nf = pad * len(rsp)
        self.g = ref.gauss(self.nf, self.dt, gauss)
        self.r = np.fft.ifft(np.fft.fft(rsp, self.nf) * self.g).real
        self.S = np.fft.fft(src, self.nf) * self.g
        self.s = np.fft.ifft(self.S).real
        self.power = np.sum(self.s ** 2)
        self.rem = self.r.copy()
        self.spikes = np.zeros(self.nf)
        first = 0 if mute else -int(tshift * sr)
        self.lags = np.arange(first, self.n)
        self.misfit = [1.]
        self.tshift = tshift
        self.gap = []
        self.path = []

    def correlation(self):
        c = np.fft.ifft(np.fft.fft(self.rem) * self.S.conj()).real
        return c[self.lags] / self.power  # least squares amplitude

    def step(self):
        c = self.correlation()
        k = int(np.argmax(np.abs(c)))
        o = np.abs(c).copy()
        top = o[k]
        o[k] = 0
        self.gap.append((top - o.max()) / top if top > 0 else 1)
        self.spikes[self.lags[k]] += c[k]
        self.path.append(int(self.lags[k]))
        self.rem = self.rem - c[k] * np.roll(self.s, self.lags[k])
        self.misfit.append(np.sum(self.rem ** 2) / np.sum(self.r ** 2))
        return self.lags[k], c[k]

    def rf(self):
        """Gauss filtered spike train in 1/s, zero delay at tshift"""
        X = np.fft.fft(self.spikes) * self.g * ref.dft_delay(
            self.nf, self.dt, self.tshift)
        return np.fft.ifft(X).real[:self.n] / self.dt

    def run(self, itmax, minderr):
        while len(self.misfit) - 1 < itmax:
            self.step()
            if 100 * abs(self.misfit[-2] - self.misfit[-1]) <= minderr:
                break
        return self


def workload(ctx, nmax=250):
    sr = ctx.choice([2., 4., 5., 10., 20.])
    n = ctx.i(60, nmax)
    m = ctx.i(15, min(50, n))
    tshift = ctx.i(0, n // 3) / sr
    if ctx.p(.2):
        tshift += ctx.u(.2, .8) / sr
    src = np.zeros(n if ctx.p(.7) else ctx.i(m, n))
    k0 = min(int(tshift * sr), len(src) - m)
    src[k0:k0 + m] = gen.wavelet(ctx.rng, m, sr)
    rsps = []
    for _ in range(ctx.i(1, 3)):
        x = ctx.u(0.01, .3) * ctx.rng.normal(size=n) * np.std(src)
        for _ in range(ctx.i(1, 5)):
            lag = ctx.i(-k0, n - k0 - m)
            x[k0 + lag:k0 + lag + m] += ctx.u(-1, 1) * src[k0:k0 + m]
        rsps.append(x)
    return sr, n, tshift, src, rsps


def call(ctx, rsp, src, sr, **kw):
    from rf.deconvolve import deconv_iterative
    before = gen.snap([rsp, src])
    ret = deconv_iterative(rsp, src, sr, **kw)
    ctx.same('inputs-kept', gen.snap([rsp, src]), before)
    return ret


@case('reference', 120, 8000)
def case_reference(ctx):
    sr, n, tshift, src, rsps = workload(ctx)
    kw = {'tshift': tshift}
    gauss, itmax, minderr, mute = 0.5, 400, 0.001, False
    kw['gauss'] = gauss = ctx.choice([0.5, ctx.u(.3, 2), 1.])
    if gauss > sr / 10 and ctx.p(.8):
        kw['gauss'] = gauss = ctx.u(.05, .1) * sr
    if ctx.p(.4):
        itmax = kw['itmax'] = ctx.choice([1, 2, ctx.i(3, 30)])
    if ctx.p(.6):
        minderr = kw['minderr'] = ctx.choice([1., .1, .01, 5., 10 ** ctx.u(
            -3, 1)])
    if ctx.p(.3):
        mute = kw['mute_shift'] = True
        ctx.ev('muted')
    norm = ctx.choice([None, None, 'default', ctx.i(0, len(rsps) - 1)])
    if norm != 'default':
        kw['normalize'] = norm
    single = len(rsps) == 1 and ctx.p(.5)
    ctx.desc = {'sr': sr, 'n': n, 'ns': len(src), 'kw': kw,
                'nrsp': len(rsps), 'single': single, 'h': float(rsps[0][0])}
    ctx.sig(sr, len(rsps), single, mute, str(norm), 'itmax' in kw,
            len(src) == n, int(np.log10(minderr)))
    form = ctx.choice([list, tuple])
    rf, nit, rms = call(ctx, rsps[0] if single else form(rsps), src, sr, **kw)
    if single:
        rf, nit, rms = [rf], [nit], [rms]
    ctx.same('number', (len(rf), len(nit), len(rms)), (len(rsps),) * 3)
    refs = [Greedy(r, src, sr, tshift, gauss, mute).run(itmax, minderr)
            for r in rsps]
    want = [g.rf() for g in refs]
    if norm is not None:
        j = 0 if norm == 'default' else norm
        top = np.max(np.abs(want[j]))
        want = [w / top for w in want]
        ctx.close('normalized', np.max(np.abs(rf[j])), 1, atol=1e-9)
    for c, g in enumerate(refs):
        k = nit[c]
        ctx.same('length', len(rf[c]), n)
        ctx.ok('bounded', 1 <= k <= itmax)
        m = np.asarray(rms[c])[:k]
        ctx.ok('monotone', np.all(np.diff(np.r_[1, m]) <= 1e-12), lambda: m)
        ctx.ok('unused-zero', not np.any(np.asarray(rms[c])[k:]))
        imp = -100 * np.diff(np.r_[1, m])
        ctx.ok('minderr', np.all(imp[:-1] > minderr * (1 - 1e-6)),
               lambda: imp)
        if k < itmax:
            ctx.ok('minderr', imp[-1] <= minderr * (1 + 1e-6) + 1e-11)
        else:
            ctx.ev('itmax')
        # steps for which the padding (wrap around) or rounding matters are
        # not judged
        h = Greedy(rsps[c], src, sr, tshift, gauss, mute, 2).run(
            itmax, minderr)
        e1 = np.abs(np.array(g.misfit) - h.misfit) if (
            g.path == h.path) else None
        if (e1 is None or min(g.gap) < 1e-6 + 10 * e1.max() or np.max(e1) >
                1e-6 * min(-np.diff(g.misfit)) or
                min(np.abs(np.abs(100 * np.diff(g.misfit)) / minderr - 1)) <
                1e-6):
            ctx.ev('tie')
            continue
        scale = 1 if norm is None else top
        e2 = 100 * np.max(np.abs(g.rf() - h.rf())) / scale
        if not ctx.same('spike-count', k, len(g.misfit) - 1):
            continue
        ctx.close('reference-misfit', m, g.misfit[1:], rtol=1e-6,
                  atol=100 * e1.max())
        ctx.close('reference-rf', rf[c], want[c], rtol=1e-6,
                  atol=e2 + 1e-9 * np.max(np.abs(g.rf())) / scale)


@case('steps', 60, 4000)
def case_steps(ctx):
    """each spike is the best one given the previous spikes"""
    sr, n, tshift, src, rsps = workload(ctx, 120)
    tshift = int(tshift * sr) / sr
    mute = ctx.p(.3)
    # Gauss filter without effect: spikes are directly visible
    kw = dict(tshift=tshift, gauss=1e4 * sr, normalize=None, minderr=1e-9,
              mute_shift=mute)
    r = rsps[0]
    k0 = int(round(tshift * sr))
    ctx.desc = {'sr': sr, 'n': n, 'kw': kw, 'h': float(r[0])}
    last = np.zeros(n)
    pad = np.zeros(3 * n)
    pad[n:2 * n] = r
    power, src = np.sum(src ** 2), np.asarray(src)
    for k in range(1, ctx.i(2, 6)):
        rf, nit, rms = call(ctx, [r], src, sr, itmax=k, **kw)
        spikes = rf[0] / sr
        new = spikes - last
        rem = pad.copy()
        for j in np.flatnonzero(np.abs(last) > 1e-9):
            a = n + j - k0
            rem[a:a + len(src)] -= last[j] * src
        lags = np.arange(0 if mute else -k0, n)
        c = np.array([np.dot(rem[n + lag:n + lag + len(src)][:len(src)],
                             src[:len(rem) - n - lag]) for lag in lags])
        c = c / power
        best = int(np.argmax(np.abs(c)))
        top2 = np.sort(np.abs(c))[-2:]
        if top2[1] - top2[0] < 1e-6 * top2[1]:
            ctx.ev('tie')
            break
        if lags[best] + k0 >= n:
            ctx.ev('spike-after-output')
            break
        pos = int(np.argmax(np.abs(new)))
        ctx.same('step', pos - k0, int(lags[best]), 'spike %d' % k)
        ctx.close('step', new[pos], c[best], rtol=1e-6)
        new[pos] = 0
        ctx.ok('one-spike', np.max(np.abs(new)) < 1e-8)
        rem[n + lags[best]:n + lags[best] + len(src)] -= c[best] * src
        ctx.close('misfit-of-rf', rms[0][k - 1],
                  np.sum(rem ** 2) / np.sum(r ** 2), rtol=1e-6)
        last = spikes


@case('independent', 60, 3000)
def case_independent(ctx):
    sr, n, tshift, src, rsps = workload(ctx)
    while len(rsps) < 3:
        rsps.append(np.roll(rsps[0], ctx.i(5, 20)) * ctx.u(-1, 1) +
                    0.01 * ctx.rng.normal(size=n))
    kw = dict(tshift=tshift, normalize=None, itmax=ctx.i(3, 60),
              minderr=10 ** ctx.u(-3, 0))
    zero = ctx.p(.4)
    if zero:
        rsps[ctx.i(1, 2)] = np.zeros(n)
    if ctx.p(.4):  # responses of different lengths
        ctx.ev('lengths')
        for c in range(3):
            m = ctx.choice([0, 1, ctx.i(2, n)])
            rsps[c] = np.r_[rsps[c], np.std(rsps[c]) * ctx.rng.normal(size=m)]
    ctx.desc = {'sr': sr, 'n': n, 'kw': kw, 'zero': zero,
                'h': float(rsps[0][0])}
    order = [int(i) for i in ctx.rng.permutation(3)]
    rf, nit, rms = call(ctx, rsps, src, sr, **kw)
    rf2, nit2, _ = call(ctx, [rsps[i] for i in order], src, sr, **kw)
    for c in range(3):
        one, nit1, _ = call(ctx, rsps[c], src, sr, **kw)
        if not np.any(rsps[c]):
            ctx.ok('zero-response', not np.any(rf[c]))
            continue
        ctx.same('length', len(rf[c]), len(rsps[c]))
        ctx.close('independent', rf[c], one, rtol=1e-9)
        ctx.close('independent', rf2[order.index(c)], one, rtol=1e-9)
        ctx.same('independent', (nit[c], nit2[order.index(c)]), (nit1, nit1))
        # same spikes for a scaled response
        f = 2. ** ctx.i(-20, 20)
        scaled, nits, _ = call(ctx, f * rsps[c], src, sr, **kw)
        ctx.same('scaled', nits, nit1)
        ctx.close('scaled', scaled, f * one, rtol=1e-9)
