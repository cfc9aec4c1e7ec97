"""
C19: profile boxes tile the profile line
"""
import numpy as np
from shapely.geometry import Point

from mon import ref
from mon.core import case

PROP = 'C19'
SCALE = 8
TECHNIQUE = 'runtime monitor of profile boxes, oracle is membership of points with known position along and across the WGS84 geodesic'
NOTE = 'held on sampled profiles with latitudes below 60 degrees and up to 800 km length'
RULE = ('random starting points (date line included), azimuths, regular, '
        'irregular and negative bins, widths between 10 and 2000 km')
ASSUMPTIONS = ['boxes which contain a pole are not judged',
               'sides of polygons are straight lines in longitude and '
               'latitude: points nearer to the sides than their sagitta are '
               'not judged']
REQUIRED = {'number': 75, 'length': 300, 'pos': 300, 'latlon': 300,
            'inside': 1000, 'outside': 1000, 'tiling': 548, 'profile': 100,
            'date-line': 20, 'default-width': 19, 'irregular': 8,
            'negative': 12, 'fine': 8, 'convergence': 5}


def geo(lat, lon, az, s, d):
    """point at s along and d (to the right) across the profile, in km"""
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(lat, lon, az, s * 1000)
    return ref.direct(g['lat2'], g['lon2'], g['azi2'] + 90, d)


def contains(poly, latlon):
    return any(poly.contains(Point(latlon[1] + k, latlon[0]))
               for k in (-360, 0, 360))


def profile(ctx, maxbins=12):
    lat = ctx.choice([ctx.u(-60, 60), 0., ctx.u(-60, 60)])
    lon = ctx.choice([ctx.u(-180, 180), ctx.u(-180, 180), 0., 180.,
                      ctx.u(178, 180), ctx.u(-180, -178)])
    az = ctx.choice([ctx.u(0, 360), ctx.u(0, 360), 0., 45., 90., 180., 270.,
                     ctx.u(-180, 0)])
    width = ctx.choice([None, None, ctx.u(10, 100), ctx.u(100, 400), 300,
                        ctx.u(400, 1500)])
    n = ctx.i(1, maxbins)
    kind = ctx.choice(['regular', 'irregular', 'negative', 'int', 'centred',
                       'fine'])
    if kind == 'fine':
        # boxes narrower than a kilometre
        ctx.ev('fine')
        width = ctx.choice([ctx.u(3, 10), 10, 20])
        bins = ctx.choice([0., ctx.u(-2, 2), -.5]) + np.r_[0, np.cumsum(
            [ctx.u(.1, .9)] * n if ctx.p(.5) else
            [ctx.u(.1, .9) for _ in range(n)])]
    elif kind == 'regular':
        bins = np.linspace(0, n * ctx.u(2, 60), n + 1)
    elif kind == 'centred':
        h = n * ctx.u(2, 30)
        bins = np.linspace(-h, h, n + 1)
    elif kind == 'int':
        step = ctx.i(2, 50)
        bins = [step * j + ctx.i(0, 0) for j in range(n + 1)]
    else:
        off = ctx.u(-400, -100) if kind == 'negative' else ctx.u(-50, 200)
        bins = off + np.r_[0, np.cumsum([ctx.u(2, 60) for _ in range(n)])]
    if kind in ('irregular', 'negative'):
        ctx.ev(kind)
    form = ctx.choice([tuple, list, np.array])
    bins = form([x if kind == 'int' else float(x) for x in bins])
    kw = {} if width is None else {'width': width}
    if abs(lon) > 177.9:
        ctx.ev('date-line')
    if width is None:
        ctx.ev('default-width')
    return lat, lon, az, bins, kw, width or 2000


def tolerance(ctx, lat, lon, az, bins, width):
    pts = [geo(lat, lon, az, s, d) for s in (bins[0], bins[-1])
           for d in (-width / 2, 0, width / 2)]
    t = np.tan(np.radians(min(80, max(abs(p[0]) for p in pts))))
    length = max(np.diff(bins))
    t = max(t, .1)
    along = 1.5 * min(55, width) ** 2 / 8 / 6371 * t + .005
    across = 1.5 * length ** 2 / 8 / 6371 * t + .005
    return along, across


@case('boxes', 150, 6000)
def case_boxes(ctx):
    from rf import get_profile_boxes
    lat, lon, az, bins, kw, width = profile(ctx)
    ctx.desc = {'latlon': (lat, lon), 'az': az, 'bins': list(bins), 'kw': kw}
    ctx.sig(type(bins).__name__, len(bins), int(width) // 200,
            int(az % 360) // 45)
    keep = np.array(bins)
    boxes = get_profile_boxes((lat, lon), az, bins, **kw)
    ctx.ok('inputs', np.array_equal(keep, bins))
    n = len(bins) - 1
    if not ctx.same('number', len(boxes), n):
        return
    prof = boxes[0]['profile']
    ctx.same('profile', tuple(prof['latlon']), (lat, lon))
    ctx.close('profile', [prof['azimuth'], prof['length'], prof['width']],
              [az, bins[-1] - bins[0], width], atol=1e-9)
    ta, tc = tolerance(ctx, lat, lon, az, bins, width)
    for j, box in enumerate(boxes):
        a, b = float(bins[j]), float(bins[j + 1])
        ctx.close('length', box['length'], b - a, atol=1e-9)
        ctx.close('pos', box['pos'], (a + b) / 2, atol=1e-9)
        mid = ref.direct(lat, lon, az, (a + b) / 2)
        off = ref.km_between(box['latlon'], mid)
        ctx.ok('latlon', off < 1e-3, lambda: 'box %d: midpoint %.4f km off'
               % (j, off))
        poly = box['poly']
        ctx.ok('valid', poly.is_valid and poly.area > 0)
        w = width / 2
        L = b - a
        if L < 4 * ta or w < 4 * tc:
            ctx.ev('narrow')
            continue
        s_in = lambda: ctx.choice([ctx.u(a + ta, b - ta), a + ta, b - ta])
        d_in = lambda: ctx.choice([ctx.u(-w + tc, w - tc), -w + tc, w - tc,
                                   0.])
        for _ in range(3):
            s, d = s_in(), d_in()
            ctx.ok('inside', contains(poly, geo(lat, lon, az, s, d)),
                   lambda: 'point at %.3f km, %.3f km across is not in box '
                   '%.3f..%.3f width %s' % (s, d, a, b, width))
            s, d = s_in(), d_in()
            if ctx.p(.6):
                s = ctx.choice([a - ta, b + ta, a - ctx.u(1, 100) - ta,
                                b + ta + ctx.u(1, 100)])
            else:
                d = ctx.choice([-1, 1]) * (w + tc + ctx.choice([
                    0, ctx.u(0, 100)]))
            ctx.ok('outside', not contains(poly, geo(lat, lon, az, s, d)),
                   lambda: 'point at %.3f km, %.3f km across is in box '
                   '%.3f..%.3f width %s' % (s, d, a, b, width))
    # tiling: also near shared edges points are in exactly one box
    if n > 1:
        k = ctx.i(1, n - 1)
        for _ in range(8):
            d = ctx.u(-.98, .98) * (width / 2 - tc)
            s = float(bins[k]) + ctx.choice([0, 1e-3, -1e-3, ta, -ta]) + \
                ctx.u(-1e-4, 1e-4)
            pt = geo(lat, lon, az, s, d)
            num = sum(contains(x['poly'], pt) for x in boxes)
            ctx.ok('tiling', num == 1, lambda: 'point at %.4f km, %.3f km '
                   'across near edge %.4f is in %d boxes' % (
                       s, d, bins[k], num))
        from geographiclib.geodesic import Geodesic
        az2 = Geodesic.WGS84.Direct(lat, lon, az, bins[-1] * 1000)['azi2']
        if abs(ref.angle_diff(az2, az)) > 1:
            ctx.ev('convergence')
    # boxes do not depend on other boxes
    k = ctx.i(0, n - 1)
    one = get_profile_boxes((lat, lon), az, [bins[k], bins[k + 1]], **kw)[0]
    ctx.close('independent', list(one['latlon']) + [one['pos']],
              list(boxes[k]['latlon']) + [boxes[k]['pos']], atol=1e-9)
    ctx.ok('independent', one['poly'].symmetric_difference(
        boxes[k]['poly']).area <= 1e-6 * one['poly'].area)
    ctx.ok('own-profile', one['profile'] is not prof)
