"""
C17: piercing points lie on the ray at the right distance, azimuth and depth
"""
import numpy as np
from obspy import UTCDateTime as UTC

from mon import gen, ref
from mon.checks.c15 import random_model
from mon.core import case

PROP = 'C17'
SCALE = 8
TECHNIQUE = 'runtime monitor of piercing points, oracle is an independent layered ray model and the WGS84 geodesic'
NOTE = ('held on sampled stations, rays, depths and models, apart from the '
        'known finding that the velocities of the next deeper layer are used')
RULE = ('random stations (poles, date line included), back azimuths, '
        'slownesses, depths, phases with multiples and models')
ASSUMPTIONS = ['layers have the velocity of their upper support point']
REQUIRED = {'position': 341, 'headers': 341, 'returned': 127,
            'default-phase': 26, 'distance': 253, 'even-phase': 40,
            'too-deep': 40, 'model-file': 40, 'edge-station': 60, 'turned': 2,
            'stats-dict': 50,
            'more-headers': 60}
KEY = 'layer-shift'
WHAT = 'piercing point calculated with velocities of the next deeper layer'


def judge_distance(ctx, lay, p, phase, depth, got, clause='distance'):
    """distance of model or (known finding) of model shifted by one layer"""
    want = lay.distance(p, phase, depth)
    alt = lay.distance(p, phase, depth, shift=1)
    ctx.clauses[clause] += 1

    def eq(a, b):
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
        return abs(a - b) <= 1e-6 + 1e-8 * abs(b)
    if eq(got, want):
        return want
    if eq(got, alt):
        ctx.known_finding(KEY, '%s, e.g. depth %.1f km, p=%.2f s/deg, phase '
                          '%s: distance %.3f km, expected %.3f km' % (
                              WHAT, depth, p, phase, got, want))
        return alt
    ctx.fail(clause, 'phase %s depth %s p=%s: %s km expected %s km' % (
        phase, depth, p, got, want))
    return want


def a_model(ctx):
    import os
    if ctx.p(.6):
        return {}, ref.iasp91()
    fname = os.path.join(ctx.tmpdir(), 'model.dat')
    lay = random_model(ctx, fname)
    ctx.ev('model-file')
    return {'model': fname}, lay


def random_phase(ctx):
    return ctx.choice(['S', 'S', 'P', 'P', 'PPS', 'PSS', 'SSS', 'PPP', 's',
                       'p', 'Pps', 'PPSSS'])


def random_depth(ctx, lay):
    top = lay.top
    deepest = min(900, .98 * top[-1])
    d = ctx.choice([
        ctx.u(0, 100), ctx.u(0, deepest), 0., 50, 410.,
        float(ctx.choice(list(top[top < deepest])))])
    return d if d < deepest else deepest


def station(ctx):
    kind = ctx.choice(['any', 'any', 'pole', 'date-line', 'exact', 'equator'])
    if kind in ('pole', 'date-line', 'exact'):
        ctx.ev('edge-station')
    lat, lon = {'any': (ctx.u(-85, 85), ctx.u(-180, 180)),
                'pole': (ctx.choice([-1, 1]) * ctx.u(89, 90),
                         ctx.u(-180, 180)),
                'date-line': (ctx.u(-70, 70),
                              ctx.choice([-1, 1]) * ctx.u(179.7, 180)),
                'exact': (ctx.choice([-90., 90., 0.]),
                          ctx.choice([180., 0., -180.])),
                'equator': (0., ctx.u(-180, 180))}[kind]
    return lat, lon


def stale(ctx, p):
    """other entries of the header which do not describe the ray"""
    if ctx.p(.6):
        return {}
    ctx.ev('more-headers')
    return {k: v for k, v in (
        ('slowness_before_moveout', p + 1.5), ('azimuth', ctx.u(0, 360)),
        ('inclination', 20.), ('event_depth', 100.),
        ('station_elevation', 3000.)) if ctx.p(.6)}


def position(ctx, lay, p, phase, depth, lat, lon, baz, got):
    """judge position of piercing point"""
    want = lay.distance(p, phase, depth)
    alt = lay.distance(p, phase, depth, shift=1)
    ctx.clauses['position'] += 1
    got = (float(got[0]), float(got[1]))
    err = None
    for n, d in enumerate((want, alt)):
        if np.isnan(d):
            good = bool(np.isnan(got[0]) and np.isnan(got[1]))
            err = err or 'expected NaN'
        else:
            pos = ref.direct(lat, lon, baz, d)
            if np.any(np.isnan(got)):
                good = False
                err = err or 'expected %s' % (pos,)
            else:
                km = ref.km_between(got, pos)
                good = km < 1e-5
                err = err or 'distance to expected %.4f km' % km
        if good and n:
            ctx.known_finding(KEY, '%s, e.g. depth %.1f km, p=%.2f s/deg, '
                              'phase %s: point at %.3f km, expected %.3f km'
                              % (WHAT, depth, p, phase, alt, want))
        if good:
            return
    ctx.fail('position', '%s depth %s p=%s station (%s, %s) baz %s: got %s, '
             '%s' % (phase, depth, p, lat, lon, baz, got, err))


@case('distance', 150, 20000)
def case_distance(ctx):
    from rf.simple_model import load_model
    kw, lay = a_model(ctx)
    m = load_model(**({'fname': kw['model']} if kw else {}))
    for _ in range(3):
        phase, depth = random_phase(ctx), random_depth(ctx, lay)
        p = ctx.choice([ctx.u(3, 9), ctx.u(8, 13), 6.4])
        ctx.desc = {'phase': phase, 'depth': depth, 'p': p}
        ctx.sig(phase.upper(), int(depth) // 50)
        if ctx.p(.2) and phase.upper() == 'S':
            got = m.ppoint_distance(depth, p)
        else:
            got = m.ppoint_distance(depth, p, phase)
        if np.isnan(lay.distance(p, phase, depth)):
            ctx.ev('turned')
        judge_distance(ctx, lay, p, phase, depth, float(got))
        lat, lon = station(ctx)
        baz = ctx.u(0, 360)
        stats = {'slowness': p, 'back_azimuth': baz, 'other': 7,
                 'station_latitude': lat, 'station_longitude': lon}
        stats.update(stale(ctx, p))
        old = dict(stats)
        ret = m.ppoint(stats, depth, phase=phase)
        ctx.ev('stats-dict')
        position(ctx, lay, p, phase, depth, lat, lon, baz, ret)
        new = {k: stats.pop(k, None)
               for k in ('pp_latitude', 'pp_longitude', 'pp_depth')}
        ctx.same('headers', gen.snap([new['pp_latitude'],
                                      new['pp_longitude'], new['pp_depth']]),
                 gen.snap(list(ret) + [depth]))
        ctx.same('other-headers', stats, old)
    ctx.raises('even-phase', m.ppoint_distance, 50, 6.4,
               ctx.choice(['PS', 'Ps', 'PPSS', 'ss']))
    ctx.raises('too-deep', m.ppoint_distance, float(
        lay.zall[-1] + ctx.choice([.1, 1, 100])), 1e-4, 'P')


@case('stream', 120, 20000)
def case_stream(ctx):
    from rf import RFStream
    from rf.rfstream import RFTrace
    method = ctx.choice('PS')
    kw, lay = a_model(ctx)
    depth, phase = random_depth(ctx, lay), random_phase(ctx)
    traces, truth = [], []
    ph = ctx.choice(['', '', method]) + method
    for j in range(ctx.i(1, 8) if ctx.p(.97) else ctx.i(30, 80)):
        lat, lon = station(ctx)
        baz = ctx.choice([ctx.u(0, 360), 0., 90., 180., 270., 360.])
        p = ctx.u(4, 9) if method == 'P' else ctx.u(8, 13)
        tr = RFTrace(data=np.arange(5.) + j, header={
            'network': 'X', 'station': 'S%d' % (j // 2), 'channel':
            gen.band_code(ctx) + ctx.choice('LQT'), 'sampling_rate': 2.,
            'starttime': UTC(1000 * ctx.i(0, 9))})
        tr.stats.update({'onset': tr.stats.starttime + 10, 'phase': ph, 'slowness': p, 'back_azimuth': baz, 'station_latitude': lat,
            'station_longitude': lon, 'event_latitude': 1.,
            'distance': ctx.u(30, 90)})
        tr.stats.update(stale(ctx, p))
        if ctx.p(.3):  # calculated before with other parameters
            tr.stats.update({'pp_latitude': 1., 'pp_longitude': 2.,
                             'pp_depth': 3.})
        traces.append(tr)
        truth.append((p, lat, lon, baz))
    st = RFStream(traces)
    old = st.copy()
    if ctx.p(.5):
        phase = {'P': 'S', 'S': 'P'}[method]
        ctx.ev('default-phase')
        if ctx.p(.5):
            ret = st.ppoints(depth, **kw)
        else:
            ret = st.ppoints(depth, pp_phase=None, **kw)
    elif ctx.p(.5):
        ret = st.ppoints(depth, pp_phase=phase, **kw)
    else:
        ret = st.ppoints(depth, phase, *kw.values())
    ctx.desc = {'phase': phase, 'depth': depth, 'truth': truth}
    ctx.sig('stream', phase, len(st))
    ctx.same('shape', np.shape(ret), (len(st), 2))
    for tr, o, r, (p, lat, lon, baz) in zip(st, old, ret, truth):
        got = (tr.stats.pp_latitude, tr.stats.pp_longitude)
        position(ctx, lay, p, phase, depth, lat, lon, baz, got)
        ctx.ok('returned', np.array_equal(got, r, equal_nan=True),
               lambda: '%s %s' % (got, r))
        h, ho = gen.header_of(tr), gen.header_of(o)
        ctx.same('headers', h.pop('pp_depth'), depth)
        for k in ('pp_latitude', 'pp_longitude', 'pp_depth'):
            h.pop(k, None)
            ho.pop(k, None)
        ctx.same('other-headers', gen.snap(h), gen.snap(ho))
        ctx.ok('data', np.array_equal(tr.data, o.data))
    ctx.raises('even-phase', st.ppoints, 50, ctx.choice(['Ps', 'SP']))
    ctx.raises('too-deep', st.ppoints, float(lay.zall[-1] + 1), 'P',
               **kw)


@case('straight', 40, 2000)
def case_straight(ctx):
    """
    in a homogeneous medium the ray is a straight line (not affected by the
    known finding for layers of equal thickness below the first depth)
    """
    from rf.simple_model import SimpleModel
    v = ctx.u(5, 8)
    k = ctx.u(1.6, 1.9)
    z = np.linspace(0, 200, ctx.i(20, 200))
    m = SimpleModel(z, v * np.ones_like(z), v / k * np.ones_like(z))
    p = ctx.u(4, 8.5)
    ctx.desc = {'v': v, 'k': k, 'n': len(z), 'p': p}
    lay = ref.Layered(z, v * np.ones_like(z), v / k * np.ones_like(z))
    for w, vel in (('P', v), ('S', v / k)):
        inc = np.arcsin(p / 111.2 * vel)
        d1, d2 = sorted([ctx.u(0, 180), ctx.u(0, 180)])
        x1, x2 = (m.ppoint_distance(d, p, w) for d in (d1, d2))
        ctx.close('slope', x2 - x1, (d2 - d1) * np.tan(inc), atol=1e-6)
        judge_distance(ctx, lay, p, w, d2, float(x2))
