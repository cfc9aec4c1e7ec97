"""
C07: deconv_time is the documented damped least squares solution
"""
import sys
import types

import numpy as np

from mon import gen
from mon.core import case

PROP = 'C07'
SCALE = 8
TECHNIQUE = 'differential runtime monitor against dense linear algebra, plus recording of the systems handed to custom Toeplitz solvers'
NOTE = 'held on sampled lengths, shifts, damping factors, response containers and solvers'
RULE = ('random source/response arrays of all length combinations, shifts of '
        'both signs, spiking 1e-3..10, list/tuple/single array, solvers '
        'scipy, fallback, fake toeplitz package, custom function')
ASSUMPTIONS = ['signals are aligned around their middle; for a half sample '
               'the offset is rounded away from zero']
REQUIRED = {'solution': 300, 'linear': 40, 'normalized': 94,
            'solver-system': 60, 'single-array': 40, 'src-longer': 20,
            'length-given': 72, 'inputs-kept': 200}


def lags(nr, ns, num, shift):
    """lag of the source for each sample of the result"""
    # distance between middle of response and middle of result, see docstring
    dif = nr + 2 * abs(shift) - ns + 1 - num
    pad = (dif + 1) // 2 if dif > 0 else -((-dif + 1) // 2)
    first = pad - (2 * shift if shift > 0 else 0)
    return first + np.arange(num)


def xcorr(r, s, lag):
    r, s = np.asarray(r, float), np.asarray(s, float)
    full = np.correlate(r, s, 'full')  # lag -(ns-1) .. nr-1
    j = lag + len(s) - 1
    out = np.zeros(len(lag))
    good = (j >= 0) & (j < len(full))
    out[good] = full[j[good]]
    return out


def acorr(s, num):
    s = np.asarray(s, float)
    full = np.correlate(s, s, 'full')[len(s) - 1:]
    out = np.zeros(num)
    out[:min(num, len(full))] = full[:num]
    return out


def matrix(src, num, spiking):
    a = acorr(src, num)
    a = a / a[0]
    i = np.arange(num)
    return a[np.abs(i[:, None] - i[None, :])] + spiking * np.eye(num)


def signal(ctx, n):
    kind = ctx.choice(['noise', 'smooth', 'wavelet', 'int', 'f4'])
    x = ctx.rng.normal(size=n)
    if kind == 'smooth':
        x = np.convolve(x, np.hanning(7), 'same')[:n]
    elif kind == 'wavelet':
        x = x * np.exp(-np.linspace(0, 4, n))
    elif kind == 'int':
        x = np.round(100 * x).astype(int)
        x[0] = 7
    elif kind == 'f4':
        x = x.astype('float32')
    return x


def fake_toeplitz(log):
    """Stand-in for the optional toeplitz package with its documented API"""
    mod = types.ModuleType('toeplitz')

    def sto_sl(a, b, job=0):
        a, b = np.asarray(a, float), np.asarray(b, float)
        m = len(b)
        assert a.shape == (2 * m - 1,)
        row, col = a[:m], np.hstack((a[:1], a[m:]))
        i, j = np.arange(m)[:, None], np.arange(m)[None, :]
        mat = np.where(j >= i, row[np.abs(j - i)], col[np.abs(j - i)])
        if job:
            mat = mat.T
        log.append('sto_sl')
        return np.linalg.solve(mat, b)
    mod.sto_sl = sto_sl
    return mod


@case('formula', 400, 40000)
def case_formula(ctx):
    from rf.deconvolve import deconv_time
    nr = ctx.i(4, 130)
    ns = ctx.i(2, 130) if ctx.p(.5) else ctx.i(2, nr)
    if ns > nr:
        ctx.ev('src-longer')
    nrsp = ctx.i(1, 3)
    shift = ctx.choice([0, ctx.i(-60, 60), ctx.i(-5, 5), ctx.i(-nr, nr)])
    spiking = ctx.choice([1., 1., 10 ** ctx.u(-2, 1), ctx.u(.5, 5)])
    src = signal(ctx, ns)
    rsps = [signal(ctx, nr) for _ in range(nrsp)]
    kw = {}
    num = nr
    if ctx.p(.4):
        num = kw['length'] = ctx.i(2, 180)
        ctx.ev('length-given')
    if spiking != 1 or ctx.p(.5):
        kw['spiking'] = spiking
    form = ctx.choice(['list', 'list', 'tuple', 'single'])
    norm = ctx.choice([None, None, 'default', ctx.i(0, nrsp - 1)])
    if form == 'single' and norm != 'default':
        norm = ctx.choice([None, 0])
    if norm != 'default':
        kw['normalize'] = norm
    log = []

    def custom(a, b):
        a, b = np.array(a), np.array(b)
        log.append((a, b))
        return np.linalg.solve(a[np.abs(np.arange(len(a))[:, None] -
                                        np.arange(len(a))[None, :])], b)
    solver = ctx.choice(['scipy', 'fallback', 'toeplitz', 'custom', 'custom'])
    sys.modules.pop('toeplitz', None)
    if solver == 'scipy':
        kw['solve_toeplitz'] = 'scipy'
    elif solver == 'custom':
        kw['solve_toeplitz'] = custom
    elif solver == 'toeplitz':
        sys.modules['toeplitz'] = fake_toeplitz(log)
        if ctx.p(.5):
            kw['solve_toeplitz'] = 'toeplitz'
    inp = {'list': list(rsps), 'tuple': tuple(rsps), 'single': rsps[0]}[form]
    used = rsps if form != 'single' else rsps[:1]
    ctx.desc = {'nr': nr, 'ns': ns, 'num': num, 'shift': shift,
                'spiking': spiking, 'form': form, 'norm': norm,
                'solver': solver, 'h': [float(src[0]), float(rsps[0][0])]}
    ctx.sig(form, solver, norm is None, nr > ns, (nr - ns) % 2,
            np.sign(shift), 'length' in kw)
    before = gen.snap([src] + rsps)
    try:
        ret = deconv_time(inp, src, shift, **kw)
    finally:
        sys.modules.pop('toeplitz', None)
    ctx.same('inputs-kept', gen.snap([src] + rsps), before)
    if form == 'single':
        ctx.same('single-array', np.shape(ret), (num,))
        ret = [ret]
    else:
        ctx.same('number', len(ret), len(used))
    lag = lags(nr, ns, num, shift)
    mat = matrix(src, num, spiking)
    want = [np.linalg.solve(mat, xcorr(r, src, lag)) for r in used]
    f4 = src.dtype == np.float32 or any(r.dtype == np.float32 for r in rsps)
    rtol = 1e-8 if not f4 else 1e-3
    if norm is not None:
        j = 0 if norm == 'default' else norm
        top = np.max(np.abs(want[j]))
        if top < 1e-6 * np.max(np.abs(src)) ** 2:
            # result consists of numerical noise only
            ctx.ev('no-overlap')
            return
        ctx.close('normalized', np.max(np.abs(ret[j])), 1, atol=1e-9)
        want = [w / top for w in want]
    for g, w in zip(ret, want):
        ctx.close('solution', g, w, rtol=rtol,
                  atol=1e-9 * np.max(np.abs(want)))
    if solver == 'custom':
        ctx.same('solver-calls', len(log), len(used))
        for (a, b), r in zip(log, used):
            ctx.close('solver-system', a, mat[0], rtol=rtol)
            ctx.close('solver-system', b, xcorr(r, src, lag), rtol=rtol,
                      atol=1e-9 * np.max(np.abs(r)) * np.max(np.abs(src)))
    elif solver == 'toeplitz':
        ctx.same('solver-calls', len(log), len(used))


@case('linear', 80, 8000)
def case_linear(ctx):
    """superposition and comparison of solvers for larger systems"""
    from rf.deconvolve import deconv_time
    nr, ns = ctx.i(100, 600), ctx.i(20, 400)
    shift = ctx.i(-200, 200)
    src = np.convolve(ctx.rng.normal(size=ns), np.hanning(9), 'same')
    a, b = ctx.rng.normal(size=(2, nr))
    x, y = ctx.u(-3, 3), ctx.u(-3, 3)
    kw = dict(spiking=ctx.choice([0.1, 1., 5.]), normalize=None)
    ctx.desc = {'nr': nr, 'ns': ns, 'shift': shift, 'kw': kw, 'x': x}
    A, B, C = deconv_time([a, b, x * a + y * b], src, shift,
                          solve_toeplitz='scipy', **kw)
    ctx.close('linear', C, x * A + y * B, rtol=1e-8,
              atol=1e-8 * np.max(np.abs(C)))
    # shifting the response by m samples equals shift parameter changed by m
    m = ctx.i(1, 30)
    D = deconv_time(np.hstack((np.zeros(m), a, np.zeros(m))), src, shift,
                    length=nr, solve_toeplitz='scipy', **kw)
    if lags(nr, ns, nr, shift)[0] == lags(nr + 2 * m, ns, nr, shift)[0] - m:
        ctx.close('centered', D, A, rtol=1e-8)
    E = deconv_time(np.hstack((np.zeros(2 * m), a)), src, shift - m,
                    length=nr, solve_toeplitz='scipy', **kw)
    lag = lags(nr, ns, nr, shift)
    lag2 = lags(nr + 2 * m, ns, nr, shift - m) - 2 * m
    if lag[0] == lag2[0]:
        ctx.close('shift', E, A, rtol=1e-8)
    # damping reduces the energy
    F = deconv_time(a, src, shift, spiking=kw['spiking'] * 3,
                    normalize=None, solve_toeplitz='scipy')
    ctx.ok('damping', np.sum(F ** 2) <= np.sum(A ** 2) * (1 + 1e-9))
