"""
C31: maps show stations, piercing points and profile boxes
"""
import warnings

import numpy as np

from mon import gen, ref
from mon.core import case

PROP = 'C31'
SCALE = 5
TECHNIQUE = 'runtime monitor of map artists: display positions and rendered pixels are compared with independently projected coordinates'
NOTE = 'held on sampled stations, piercing points, boxes, projections and options'
RULE = ('random inventories and streams with 1-6 stations, 1-30 piercing '
        'points and 1-5 boxes all over the world, new and given axes')
ASSUMPTIONS = ['cartopy projects single points correctly']
REQUIRED = {'stations': 30, 'labels': 15, 'unlabelled': 4, 'ppoints': 20,
            'inside': 10, 'outside': 10, 'axes': 30, 'style': 15,
            'from-stream': 8, 'from-inventory': 9, 'given-axes': 10, 'crs': 5}


def display(ax, lat, lon):
    from cartopy.crs import PlateCarree
    x, y = ax.projection.transform_point(lon, lat, PlateCarree())
    return ax.transData.transform((x, y))


def scatters(ax):
    """(display positions, collection) of all scatter plots"""
    out = []
    for c in ax.collections:
        if not hasattr(c, 'get_offsets') or not hasattr(c, 'get_sizes'):
            continue
        off = np.asarray(c.get_offsets(), dtype=float)
        if len(off):
            out.append((c.get_offset_transform().transform(off), c))
    return out


def labels(ax):
    from matplotlib.text import Annotation
    from matplotlib.transforms import Transform
    out = []
    for t in ax.texts:
        if isinstance(t, Annotation):
            tr = t.xycoords
            if not isinstance(tr, Transform):
                tr = ax.transData
            out.append((t.get_text(), tr.transform(t.xy)))
    return out


def match(ctx, clause, have, want, msg=''):
    """same points, in any order"""
    have, want = np.asarray(have), np.asarray(want)
    if not ctx.same(clause, have.shape, want.shape, msg + ' number'):
        return
    left = list(range(len(have)))
    for w in want:
        d = np.hypot(*(have[left] - w).T)
        k = int(np.argmin(d))
        if not ctx.ok(clause, d[k] < .05, lambda: '%s: no point at %s, '
                      'nearest is %.2f px away' % (msg, w, d[k])):
            return
        left.pop(k)


def stations(ctx, center):
    from rf import RFStream
    from rf.rfstream import RFTrace
    n = ctx.i(1, 6)
    sta = []
    for j in range(n):
        lat, lon = ref.direct(center[0], center[1], ctx.u(0, 360),
                              ctx.u(0, 500))
        sta.append((gen.station_code(ctx)[:4] + 'ABCDEF'[j], round(lat, 4),
                    round(lon, 4)))
    nets = [ctx.choice('XY') for _ in sta]
    if n > 1 and ctx.p(.35):  # same code in another network
        sta[1] = (sta[0][0],) + sta[1][1:]
        nets[:2] = 'XY'
        ctx.ev('same-code')
    if n > 3 and ctx.p(.3):  # two stations at the same place
        sta[3] = (sta[3][0],) + sta[2][1:]
        ctx.ev('same-place')
    if ctx.p(.6):
        ctx.ev('from-inventory')
        # level of the inventory can be station
        chans = [[] if ctx.p(.3) else [('', 'BH', 'ZNE')] for _ in sta]
        if ctx.p(.2):
            chans = [[]] * n
        ctx.ev('no-channels', sum(not c for c in chans))
        obj = gen.inventory([{
            'net': net, 'sta': s, 'locs': c,
            'lat': lat, 'lon': lon, 'elev': 0} for net, c, (
                s, lat, lon) in zip(nets, chans, sta)])
    else:
        ctx.ev('from-stream')
        obj = RFStream()
        for _ in range(ctx.i(1, 3)):
            for net, (s, lat, lon) in zip(nets, sta):
                for c in 'LQ':
                    tr = RFTrace(data=np.zeros(3), header={
                        'network': net, 'station': s, 'channel': 'BH' + c})
                    tr.stats.update({'station_latitude': lat,
                                     'station_longitude': lon})
                    obj.append(tr)
    return obj, sta


def get_axes(ctx, center):
    """keyword arguments and expected axes"""
    import cartopy.crs as ccrs
    import matplotlib.pyplot as plt
    plt.close('all')
    how = ctx.choice(['new', 'crs', 'given', 'given'])
    lon = center[1]
    proj = ctx.choice([
        ccrs.AzimuthalEquidistant(lon, center[0]), ccrs.Mollweide(lon),
        ccrs.PlateCarree(lon), ccrs.Orthographic(lon, center[0])])
    if how == 'new':
        return {}, None, None
    if how == 'crs':
        ctx.ev('crs')
        return {'crs': proj}, None, proj
    ctx.ev('given-axes')
    fig = plt.figure(figsize=(5, 4))
    ax = fig.add_subplot(projection=proj)
    if ctx.p(.5):  # given axes are not the current ones
        fig.add_subplot(222)
    return {'ax': ax}, ax, proj


def judge_axes(ctx, ax, given, proj, kw):
    import matplotlib.pyplot as plt
    from cartopy.mpl.geoaxes import GeoAxes
    if not ctx.ok('axes', isinstance(ax, GeoAxes), repr(ax)):
        return False
    if given is not None:
        ctx.ok('axes', ax is given, 'other axes returned')
        ctx.same('axes', len(plt.get_fignums()), 1)
    elif proj is not None:
        ctx.ok('axes', ax.projection == proj, 'other projection')
    return True


def judge_stations(ctx, ax, sta, label, style):
    want = [display(ax, lat, lon) for _, lat, lon in sta]
    sc = [s for s in scatters(ax) if len(s[0]) == len(sta)]
    if not ctx.ok('stations', len(sc) > 0, 'no stations'):
        return
    # stations are the ones which fit best
    best = min(sc, key=lambda s: np.abs(np.sort(s[0][:, 0]) - np.sort(
        np.array(want)[:, 0])).max())
    match(ctx, 'stations', best[0], want, 'stations')
    if style is not None:
        judge_style(ctx, best[1], style, {'s': 200, 'zorder': 3,
                                          'c': 'darkred'})
    lab = labels(ax)
    if label:
        ctx.same('labels', sorted(x for x, _ in lab),
                 sorted(s for s, _, _ in sta))
        for (s, lat, lon), w in zip(sta, want):
            p = [xy for x, xy in lab if x == s]
            ctx.ok('labels', len(p) == sum(s == x[0] for x in sta) and
                   min(np.hypot(*(xy - w)) for xy in p) < .05,
                   lambda: 'label %s at %s expected %s' % (s, p, w))
    else:
        ctx.same('unlabelled', lab, [])


def judge_style(ctx, coll, style, default):
    from matplotlib.colors import to_rgba
    exp = dict(default, **style)
    if 'color' in style or 'c' in style:
        col = style.get('color', style.get('c'))
    else:
        col = default.get('c', default.get('color'))
    ctx.close('style', coll.get_sizes(), [exp['s']], atol=1e-9)
    ctx.close('style', coll.get_zorder(), exp['zorder'])
    fc = coll.get_facecolor()
    fc = fc if len(fc) else coll.get_edgecolor()
    alpha = exp.get('alpha')
    ctx.close('style', fc[0], to_rgba(col, alpha), atol=1e-6)


@case('stations', 24, 500, 2)
def case_stations(ctx):
    import matplotlib.pyplot as plt
    from rf.imaging import plot_stations
    center = (ctx.u(-65, 65), ctx.u(-180, 180))
    obj, sta = stations(ctx, center)
    kw, given, proj = get_axes(ctx, center)
    label = ctx.p(.7)
    if not label:
        kw['label_stations'] = False
    style = {}
    if ctx.p(.5):
        style = ctx.choice([{'s': 50}, {'zorder': 9}, {'c': 'b'},
                            {'s': 33, 'c': 'C1', 'marker': 'o'}])
    ctx.desc = {'stations': sta, 'style': style, 'kw': sorted(kw)}
    ctx.sig(len(sta), label, sorted(kw), sorted(style))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ax = plot_stations(obj, **dict(kw, **style))
            if judge_axes(ctx, ax, given, proj, kw):
                judge_stations(ctx, ax, sta, label, style)
    finally:
        plt.close('all')


@case('ppoints', 24, 500, 2)
def case_ppoints(ctx):
    import matplotlib.pyplot as plt
    from rf.imaging import plot_ppoints
    center = (ctx.u(-65, 65), ctx.u(-180, 180))
    pp = [ref.direct(center[0], center[1], ctx.u(0, 360), ctx.u(0, 400))
          for _ in range(ctx.i(7, 30) if ctx.p(.8) else 1)]
    if ctx.p(.3):  # events of the same region
        pp = pp + [pp[i] for i in ctx.rng.integers(0, len(pp), ctx.i(1, 5))]
    form = ctx.choice([list, np.array, tuple])
    kw, given, proj = get_axes(ctx, center)
    sta, label = None, True
    if ctx.p(.5):
        obj, sta = stations(ctx, center)
        if len(sta) == len(pp):
            pp = pp + [center]
        kw['inventory'] = obj
        label = ctx.p(.6)
        if not label or ctx.p(.3):
            kw['label_stations'] = label
    style = {}
    if ctx.p(.5):
        style = ctx.choice([{'s': 20}, {'zorder': 7}, {'color': 'b'},
                            {'s': 33, 'color': 'C1', 'alpha': 1},
                            {'alpha': .7}])
    ctx.desc = {'pp': pp, 'style': style, 'kw': sorted(kw)}
    ctx.sig(len(pp), bool(sta), sorted(kw), sorted(style))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ax = plot_ppoints(form(pp), **dict(kw, **style))
            if not judge_axes(ctx, ax, given, proj, kw):
                return
            judge_ppoints(ctx, ax, pp, style)
            if sta:
                judge_stations(ctx, ax, sta, label, {})
            else:
                ctx.same('unlabelled', labels(ax), [])
    finally:
        plt.close('all')


def judge_ppoints(ctx, ax, pp, style):
    sc = [s for s in scatters(ax) if len(s[0]) == len(pp)]
    if ctx.same('ppoints', len(sc), 1, 'piercing points'):
        match(ctx, 'ppoints', sc[0][0], [display(ax, *p) for p in pp],
              'piercing points')
        if style is not None:
            judge_style(ctx, sc[0][1], style, {
                's': 50, 'color': 'k', 'alpha': .2, 'zorder': 2})


@case('profile-map', 16, 300, 1)
def case_map(ctx):
    """boxes are judged by the pixels of the rendered map"""
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgb
    from rf import get_profile_boxes
    from rf.imaging import plot_profile_map
    center = (ctx.u(-55, 55), ctx.choice([ctx.u(-180, 180), 179.9, -179.9,
                                          ctx.u(176, 180)]))
    n = ctx.i(1, 5)
    az, width = ctx.u(0, 360), ctx.u(100, 250)
    bins = np.r_[0, np.cumsum([ctx.u(60, 150) for _ in range(n)])] - ctx.u(
        0, 200)
    boxes = get_profile_boxes(center, az, bins, width=width)
    keep = list(range(n))
    if n > 2 and ctx.p(.3):  # boxes with a hole
        k = ctx.i(1, n - 2)
        keep.remove(k)
    kw, given, proj = get_axes(ctx, center)
    sta, pp, label = None, None, True
    if ctx.p(.5):
        kw['inventory'], sta = stations(ctx, center)
        label = ctx.p(.6)
        if not label or ctx.p(.3):
            kw['label_stations'] = label
    if ctx.p(.5):
        pp = kw['ppoints'] = [ref.direct(center[0], center[1], ctx.u(
            0, 360), ctx.u(0, 400)) for _ in range(ctx.i(7, 12))]
    style = {}
    if ctx.p(.8):
        style = {'facecolor': ctx.choice(['C1', '#00ff00', 'C0']),
                 'edgecolor': 'none'}
    ctx.desc = {'center': center, 'az': az, 'bins': list(bins),
                'width': width, 'style': style, 'kw': sorted(kw)}
    ctx.sig(n, bool(sta), bool(pp), sorted(kw), len(keep) == n)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ax = plot_profile_map([boxes[k] for k in keep],
                                  **dict(kw, **style))
            if not judge_axes(ctx, ax, given, proj, kw):
                return
            # show region around the profile only
            from cartopy.crs import PlateCarree
            pts = [ref.direct(center[0], center[1], az, s)
                   for s in (bins[0] - 300, bins[-1] + 300)]
            pts += [ref.direct(p[0], p[1], az + a, 400) for p in pts
                    for a in (90, -90)]
            xy = np.array([ax.projection.transform_point(
                lon, lat, PlateCarree()) for lat, lon in pts])
            ok = np.isfinite(xy).all() and np.ptp(xy[:, 0]) < 8e6 and \
                (np.ptp(xy[:, 0]) < 60 or np.ptp(xy[:, 0]) > 1e3)
            if not ok:
                ctx.ev('not-renderable')
                return
            ax.set_xlim(xy[:, 0].min(), xy[:, 0].max())
            ax.set_ylim(xy[:, 1].min(), xy[:, 1].max())
            if sta:
                judge_stations(ctx, ax, sta, label, {})
            if pp:
                judge_ppoints(ctx, ax, pp, {})
            # marks are hidden, boxes remain
            for c in list(ax.collections):
                if hasattr(c, 'get_sizes'):
                    c.set_visible(False)
            for t in ax.texts:
                t.set_visible(False)
            fig = ax.figure
            for a in fig.axes:
                if a is not ax:
                    a.set_visible(False)
            fig.set_dpi(80)
            fig.canvas.draw()
            img = np.asarray(fig.canvas.buffer_rgba())[:, :, :3] / 255.
            h = img.shape[0]

            def pixel(s, d):
                x, y = display(ax, *across(center, az, s, d))
                i, j = int(h - 1 - round(y)), int(round(x))
                if 2 <= i < h - 2 and 2 <= j < img.shape[1] - 2:
                    return img[i, j]
            color = to_rgb(style['facecolor']) if style else (1, 1, 1)
            for k in range(n):
                a, b = bins[k], bins[k + 1]
                for _ in range(3):
                    s = ctx.u(a + .25 * (b - a), b - .25 * (b - a))
                    d = ctx.u(-.35, .35) * width
                    px = pixel(s, d)
                    if px is None:
                        continue
                    if k in keep:
                        ctx.ok('inside', np.allclose(px, color, atol=.02),
                               lambda: 'box %d is not drawn at %.0f, %.0f km'
                               % (k, s, d))
                    elif style:
                        ctx.ok('outside', not np.allclose(
                            px, color, atol=.02), 'missing box is drawn')
            for _ in range(6):
                s, d = ctx.choice([
                    (bins[0] - ctx.u(40, 250), ctx.u(-100, 100)),
                    (bins[-1] + ctx.u(40, 250), ctx.u(-100, 100)),
                    (ctx.u(bins[0], bins[-1]), ctx.choice([-1, 1]) * (
                        width / 2 + ctx.u(40, 200)))])
                px = pixel(s, d)
                if px is not None and style:
                    ctx.ok('outside', not np.allclose(px, color, atol=.02),
                           'box is drawn at %.0f, %.0f km' % (s, d))
            if not style:
                # default style: edges are drawn
                grey = np.all(np.abs(img - .8) < .02, axis=2)
                ctx.ok('style', np.sum(grey) > 10, 'no edges')
    finally:
        plt.close('all')


def across(center, az, s, d):
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(center[0], center[1], az, s * 1000)
    return ref.direct(g['lat2'], g['lon2'], g['azi2'] + 90, d)
