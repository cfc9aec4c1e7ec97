"""
C08: deconv_waterlevel follows the documented spectral division
"""
import numpy as np

from mon import gen, ref
from mon.core import case

PROP = 'C08'
SCALE = 8
TECHNIQUE = 'differential runtime monitor against an independent spectral division'
NOTE = 'held on sampled lengths, sampling rates, filters, shifts and normalisations'
RULE = ('random source/response arrays, all combinations of length, nfft, '
        'gauss, waterlevel, tshift, normalize, list/tuple/single and '
        'return_info')
ASSUMPTIONS = ['normalisation refers to the (signed) maximum of the result']
REQUIRED = {'result': 400, 'normalized': 99, 'src-normalized': 40,
            'single-array': 47, 'info': 80, 'length': 300, 'gauss-none': 40,
            'zero-delay': 60, 'waterlevel-monotone': 40,
            'no-waterlevel': 20}


def reference(r, s, nfft, sr, water, g, tshift):
    R, S = np.fft.fft(r, nfft), np.fft.fft(s, nfft)
    p = S.real ** 2 + S.imag ** 2
    d = np.where(p < water * p.max(), water * p.max(), p)
    filt = ref.gauss(nfft, 1 / sr, g) * ref.dft_delay(nfft, 1 / sr, tshift)
    x = np.fft.ifft(R * S.conj() / d * filt)
    return x.real, d, np.max(np.abs(x.imag))


@case('formula', 500, 50000)
def case_formula(ctx):
    from scipy.fftpack import next_fast_len
    from rf.deconvolve import deconv_waterlevel
    nr = ctx.i(16, 300)
    ns = ctx.i(8, nr) if ctx.p(.7) else ctx.i(8, 300)
    nrsp = ctx.i(1, 3)
    sr = ctx.choice([1., 2., 5., 10., 20., 33.3])
    dtype = ctx.choice(['f8', 'f8', 'f8', 'i4', 'f4'])
    rsps = [(100 * ctx.rng.normal(size=nr)).astype(dtype)
            for _ in range(nrsp)]
    src = (100 * ctx.rng.normal(size=ns) *
           np.exp(-np.linspace(0, 5, ns))).astype(dtype)
    kw = {}
    water, g, tshift = 0.05, 0.5, 10.
    if ctx.p(.6):
        water = kw['waterlevel'] = ctx.choice([10 ** ctx.u(-4, 0), 0.05, 1.,
                                               0 if ctx.p(.5) else .05])
        if water == 0:  # source without spectral holes
            src[0] = np.sum(np.abs(src[1:])) * .6 + 1
            ctx.ev('no-waterlevel')
    if ctx.p(.6):
        g = kw['gauss'] = ctx.choice([None, ctx.u(.1, 5), 2.])
    if g is None:
        ctx.ev('gauss-none')
    if ctx.p(.7):
        tshift = kw['tshift'] = ctx.choice([0., ctx.u(0, nr / sr),
                                            ctx.i(0, nr) / sr,
                                            -ctx.i(0, 9) / sr])
    num = nr
    if ctx.p(.4):
        num = kw['length'] = ctx.i(5, 400)
    nfft = next_fast_len(num)
    if ctx.p(.4):
        nfft = kw['nfft'] = ctx.choice([next_fast_len(2 * num), num,
                                        num + ctx.i(0, 99)])
    form = ctx.choice(['list', 'list', 'tuple', 'single'])
    n2 = 1 if form == 'single' else nrsp
    norm = ctx.choice(['default', None, None, 'src', ctx.i(0, n2 - 1)])
    if norm != 'default':
        kw['normalize'] = norm
    info = ctx.p(.25)
    if info:
        kw['return_info'] = True
    inp = {'list': list(rsps), 'tuple': tuple(rsps), 'single': rsps[0]}[form]
    ctx.desc = {'nr': nr, 'ns': ns, 'sr': sr, 'kw': kw, 'form': form,
                'dtype': dtype, 'h': float(rsps[0][0])}
    ctx.sig(form, str(norm), g is None, info, 'length' in kw, 'nfft' in kw,
            dtype)
    before = gen.snap([src] + rsps)
    ret = deconv_waterlevel(inp, src, sr, **kw)
    ctx.same('inputs-kept', gen.snap([src] + rsps), before)
    d8 = [r.astype(float) for r in rsps[:n2]]
    want = [reference(r, src.astype(float), nfft, sr, water, g, tshift)
            for r in d8]
    d = want[0][1]
    # a shift by a fraction of a sample leaves an imaginary part at Nyquist
    im = max(w[2] for w in want)
    scale = max(np.max(np.abs(w[0])) for w in want)
    want = [w[0][:num] for w in want]
    wsrc, _, imsrc = reference(src.astype(float), src.astype(float), nfft, sr,
                               water, g, tshift)
    srcscale = np.max(np.abs(wsrc))
    wsrc = wsrc[:num]
    im = max(im, imsrc)
    inf = None
    if info:
        ret, inf = ret
    elif form == 'single':
        ctx.same('single-array', np.shape(ret), (min(num, nfft),))
        ret = [ret]
    if info and np.ndim(ret[0]) == 0:
        ret = [ret]
    ctx.same('number', len(ret), n2)
    rtol = 1e-6 if dtype != 'f4' else 2e-3
    if norm == 'src':
        top = wsrc.max()
        scale = max(scale, srcscale)
    elif norm is None:
        top = 1.
    else:
        top = want[0 if norm == 'default' else norm].max()
    if norm is not None and top < max(1e-2 * scale, 50 * im):
        ctx.trivial()
        return
    for got, w in zip(ret, want):
        ctx.same('length', len(got), len(w))
        ctx.close('result', np.real(got), w / top, rtol=rtol,
                  atol=rtol * scale / top + 4 * (im / top) ** 2 * max(1, scale / top))
    if norm == 'src':
        ctx.ok('src-normalized', True)
    elif norm is not None:
        ctx.close('normalized',
                  np.max(np.real(ret[0 if norm == 'default' else norm])), 1,
                  atol=1e-6)
    if inf is not None and wsrc.max() > max(50 * imsrc, .01 * srcscale):
        ctx.close('info', np.real(inf['rf_src']), wsrc / wsrc.max(),
                  rtol=rtol, atol=4 * (im / wsrc.max()) ** 2)
        ctx.close('info', inf['spec_src_water'], d, rtol=rtol)
        ctx.close('info', inf['freq'], np.fft.fftfreq(nfft, 1 / sr),
                  rtol=1e-9)
        ctx.same('info', (inf['N'], inf['nfft']), (num, nfft))
        ctx.close('info', np.abs(inf['gauss']), ref.gauss(nfft, 1 / sr, g),
                  rtol=1e-9)


@case('delay', 80, 8000)
def case_delay(ctx):
    """physical meaning of parameters: tshift and waterlevel"""
    from rf.deconvolve import deconv_waterlevel
    sr = ctx.choice([5., 10., 20.])
    n = ctx.i(300, 600)
    m = ctx.i(20, 60)
    src = np.zeros(n)
    k = ctx.i(0, 80)
    src[k:k + m] = gen.wavelet(ctx.rng, m, sr)
    lag = ctx.i(0, 100)
    amp = ctx.choice([-1, 1]) * ctx.u(.2, 2)
    rsp = np.zeros(n)
    rsp[lag:] = amp * src[:n - lag]
    t = ctx.i(0, 150)
    ctx.desc = {'sr': sr, 'n': n, 'k': k, 'lag': lag, 't': t, 'amp': amp}
    nfft = 2 * n
    a, b = deconv_waterlevel([src, rsp], src, sr, tshift=t / sr, nfft=nfft)
    a, b = np.real(a), np.real(b)
    ctx.same('zero-delay', int(np.argmax(a)), t)
    ctx.close('zero-delay', a.max(), 1, atol=1e-9)
    ctx.close('delayed', b[t + lag], amp, rtol=1e-6)
    w1, w2 = sorted([10 ** ctx.u(-3, 0), 10 ** ctx.u(-3, 0)])
    one = deconv_waterlevel(rsp, src, sr, tshift=0, waterlevel=w1,
                            normalize=None, nfft=n)
    two = deconv_waterlevel(rsp, src, sr, tshift=0, waterlevel=w2,
                            normalize=None, nfft=n)
    one, two = np.abs(np.fft.fft(np.real(one))), np.abs(np.fft.fft(
        np.real(two)))
    ctx.ok('waterlevel-monotone', np.all(two <= one * (1 + 1e-6) +
                                         1e-9 * one.max()))
