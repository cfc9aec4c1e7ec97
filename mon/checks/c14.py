"""
C14: wave field separation puts converted energy on Q/R, documented polarity
"""
import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen
from mon.core import case

PROP = 'C14'
SCALE = 6
TECHNIQUE = 'runtime monitor on synthetic plane wave fields with known P, SV and SH motion; oracle is the known motion per component'
NOTE = 'held on sampled back azimuths, incidence angles, delays, amplitudes and methods'
RULE = ('P (or S) wave from random back azimuth and incidence, converted '
        'SV (or P) and SH arrivals with known amplitude, all trace orders')
ASSUMPTIONS = ['sign of T and of Sp on L is not documented and not judged']
REQUIRED = {'LQT-L': 80, 'LQT-Q': 80, 'LQT-T': 80, 'RT-R': 60, 'RT-T': 60,
            'Q-positive': 41, 'R-positive': 41, 'Sp-time': 40, 'rf-Q': 60,
            'leak': 100}


def place(n, k, wav, amp):
    out = np.zeros(n)
    out[k:k + len(wav)] = amp * wav
    return out


def make(ctx, sr, n, k, P, SV, SH, inc, baz, phase):
    """
    Traces for motion P along the ray (up and away from event), SV
    perpendicular to it in the vertical plane (horizontal part away from the
    event), SH horizontal
    """
    from rf import RFStream
    from rf.rfstream import RFTrace
    i, b = np.radians(inc), np.radians(baz)
    away = P * np.sin(i) + SV * np.cos(i)
    up = P * np.cos(i) - SV * np.sin(i)
    # azimuth of "away" is baz + 180
    north = -np.cos(b) * away + np.sin(b) * SH
    east = -np.sin(b) * away - np.cos(b) * SH
    t0 = UTC(2011, 3, 4) + ctx.u(0, 1e7)
    code = gen.band_code(ctx)
    st = RFStream()
    comps = [('Z', up), ('N', north), ('E', east)]
    for j in ctx.rng.permutation(3):
        c, d = comps[j]
        tr = RFTrace(data=d.copy(), header={
            'network': 'XX', 'station': 'STA', 'channel': code + c,
            'sampling_rate': sr, 'starttime': t0 - k / sr})
        tr.stats.update({'onset': t0, 'back_azimuth': baz,
                         'inclination': inc, 'phase': phase,
                         'slowness': 6.4, 'event_time': t0 - 500})
        st.append(tr)
    return st


def comp(st, c):
    return [tr for tr in st if tr.stats.channel[-1] == c][0].data


def setup(ctx):
    sr = ctx.choice([5., 10., 20.])
    n = int(ctx.u(80, 100) * sr)
    k = int(ctx.u(28, 35) * sr)
    m = int(ctx.u(2.5, 4) * sr)
    wav = gen.wavelet(ctx.rng, m, sr, fmax=1.2)
    baz = ctx.choice([ctx.u(0, 360), 90. * ctx.i(0, 4), ctx.u(0, 360)])
    return sr, n, k, m, wav, baz


@case('P', 120, 6000, 6)
def case_p(ctx):
    sr, n, k, m, wav, baz = setup(ctx)
    inc = ctx.u(2, 50)
    d = int(ctx.u(4.2, 20) * sr)
    a = ctx.u(.05, .5)  # positive velocity contrast: away from event
    if ctx.p(.3):
        a = -a
    h = ctx.u(-.4, .4)
    d2 = int(ctx.u(4.2, 20) * sr)
    P = place(n, k, wav, 1.)
    SV = place(n, k + d, wav, a)
    SH = place(n, k + d2, wav, h)
    ctx.desc = {'inc': inc, 'baz': baz, 'd': d, 'd2': d2, 'a': a, 'h': h,
                'sr': sr, 'n': n, 'k': k}
    ctx.sig(int(baz // 30), int(inc // 10), a > 0, sr)
    st0 = make(ctx, sr, n, k, P, SV, SH, inc, baz, 'P')
    tol = 1e-9
    st = st0.copy().rf(rotate='ZNE->LQT', deconvolve=None)
    ctx.same('components', sorted(tr.stats.channel[-1] for tr in st),
             list('LQT'))
    ctx.close('LQT-L', comp(st, 'L'), P, atol=tol)
    ctx.close('LQT-Q', comp(st, 'Q'), SV, atol=tol)
    ctx.close('LQT-T', np.abs(comp(st, 'T')), np.abs(SH), atol=tol)
    st = st0.copy().rf(rotate='NE->RT', deconvolve=None)
    i = np.radians(inc)
    ctx.same('components', sorted(tr.stats.channel[-1] for tr in st),
             list('RTZ'))
    ctx.close('RT-R', comp(st, 'R'), P * np.sin(i) + SV * np.cos(i),
              atol=tol)
    ctx.close('RT-T', np.abs(comp(st, 'T')), np.abs(SH), atol=tol)
    ctx.close('RT-Z', comp(st, 'Z'), P * np.cos(i) - SV * np.sin(i),
              atol=tol)
    # complete receiver functions
    dec = ctx.choice(['time', 'waterlevel', 'iterative'])
    kw = {'solve_toeplitz': 'scipy'} if dec == 'time' else {}
    # only SV, such that a later arrival does not overlap
    st = make(ctx, sr, n, k, P, SV, 0 * SH, inc, baz, 'P')
    st2 = st.copy()
    st.rf(deconvolve=dec, **kw)
    q = comp(st, 'Q')
    j = int(np.argmax(np.abs(q)))
    ctx.same('rf-Q', j - k, d)
    ctx.close('rf-Q', q[j] / a, 1, atol=.01)
    if a > 0:
        ctx.ok('Q-positive', q[j] > 0)
    ctx.ok('leak', np.max(np.abs(comp(st, 'T'))) < 1e-6)
    L = comp(st, 'L')
    w = int(.5 * sr)
    # no conversion on L (except for side lobes of the direct wave)
    L0 = make(ctx, sr, n, k, P, 0 * SV, 0 * SH, inc, baz, 'P')
    L0.rf(deconvolve=dec, **kw)
    ctx.close('leak', L[k + d - w:k + d + w],
              comp(L0, 'L')[k + d - w:k + d + w], atol=1e-6)
    # radial: conversion positive after removal of the direct wave
    st2.rf(rotate='NE->RT', deconvolve=dec, **kw)
    r, z = comp(st2, 'R'), comp(st2, 'Z')
    r = r - np.tan(i) * z
    j = int(np.argmax(np.abs(r)))
    ctx.ok('R-time', abs(j - k - d) <= 1, lambda: '%d %d' % (j - k, d))
    if a > 0:
        ctx.ok('R-positive', r[j] > 0)
    ctx.ok('leak', np.max(np.abs(comp(st2, 'T'))) < 1e-6)


@case('S', 80, 4000, 6)
def case_s(ctx):
    sr, n, k, m, wav, baz = setup(ctx)
    inc = ctx.u(5, 45)
    d = int(ctx.u(4.2, 20) * sr)
    a = ctx.choice([-1, 1]) * ctx.u(.05, .5)
    # S wave on SV, converted P wave arrives before
    SV = place(n, k, wav, 1.)
    P = place(n, k - d, wav, a)
    h = ctx.u(-.4, .4)
    SH = place(n, k, wav, h)
    dec = ctx.choice(['time', 'waterlevel', 'iterative'])
    kw = {'solve_toeplitz': 'scipy'} if dec == 'time' else {}
    if ctx.p(.5):
        kw['winsrc'] = (-4, 15, 2) if dec != 'iterative' else 'S'
    ctx.desc = {'inc': inc, 'baz': baz, 'd': d, 'a': a, 'dec': dec,
                'sr': sr, 'n': n, 'k': k, 'kw': kw}
    ctx.sig(int(baz // 30), int(inc // 10), a > 0, dec, sr)
    st0 = make(ctx, sr, n, k, P, SV, SH, inc, baz, 'S')
    st = st0.copy().rf(deconvolve=None)
    ctx.close('LQT-L', comp(st, 'L'), P[::-1], atol=1e-9)
    ctx.close('LQT-Q', comp(st, 'Q'), SV[::-1], atol=1e-9)
    ctx.close('LQT-T', np.abs(comp(st, 'T')), np.abs(SH[::-1]), atol=1e-9)
    st = st0.copy().rf(deconvolve=dec, **kw)
    for tr in st:
        o = (tr.stats.onset - tr.stats.starttime) * sr
        ctx.close('mirrored-onset', o, n - 1 - k, atol=1e-3)
    o = n - 1 - k
    L, Q, T = comp(st, 'L'), comp(st, 'Q'), comp(st, 'T')
    j = int(np.argmax(np.abs(L)))
    ctx.same('Sp-time', j - o, d)
    ctx.close('Sp-amplitude', abs(L[j]), abs(a), atol=.01 * abs(a))
    ctx.same('Q-source', int(np.argmax(Q)), o)
    ctx.close('Q-source', Q[o], 1, atol=1e-3)
    ctx.close('T-amplitude', abs(T[o]), abs(h), atol=.01)
