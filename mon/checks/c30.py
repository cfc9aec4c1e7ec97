"""
C30: plots show the data
"""
import os
import warnings

import numpy as np
from obspy import UTCDateTime as UTC

from mon import cli, gen, ref
from mon.core import case

PROP = 'C30'
SCALE = 5
TECHNIQUE = 'runtime monitor of the matplotlib artists of the figures, oracle are positions calculated from samples, headers and an independent layered model'
NOTE = 'held on sampled streams, profiles, harmonics and plot options'
RULE = ('random streams with 1-8 traces, different amplitudes, lengths and '
        'onset positions, random plot options; files and figures')
ASSUMPTIONS = ['all traces have non-zero samples']
REQUIRED = {'wiggles': 60, 'fill': 60, 'stack': 12, 'info': 20, 'file': 8,
            'figure': 29, 'depth': 10, 'hist': 4, 'trim': 15, 'position': 30,
            'harmonics': 40, 'no-stack': 1, 'plot-command': 4,
            'profile-command': 4, 'minor': 6, 'visible': 40,
            'vlines': 40, 'size': 60}
COLORS = [('b', 'r'), ('C3', 'C0'), (None, 'r'), ('k', None), (None, None),
          ('#00ff00', '0.5')]


def lines_of(ax):
    return [np.asarray(x.get_xydata(), dtype=float) for x in ax.get_lines()]


def relative_times(tr):
    s = tr.stats
    return (s.starttime - s.onset) + np.arange(len(tr.data)) / s.sampling_rate


def rgba(c):
    from matplotlib.colors import to_rgba
    return to_rgba(c)


def fills(ctx, ax, curves, colors, swap=False):
    """
    Filled polygons contain the samples of the respective sign and do not
    extend to the other side of the base line.

    :param curves: list of (times, samples, base line)
    """
    todo = [(c, sgn) for c, sgn in zip(colors, (1, -1)) if c]
    by_color = {}
    for c in ax.collections:
        fc = c.get_facecolor()
        if not len(fc):
            continue
        v = [p.vertices for p in c.get_paths()]
        if v:
            by_color.setdefault(tuple(np.round(fc[0], 3)), []).append(
                np.concatenate(v))
    if not todo:
        ctx.ok('fill', not by_color, 'filled without colors')
        return
    for c, sgn in todo:
        have = by_color.get(tuple(np.round(rgba(c), 3)), [])
        v = np.concatenate(have) if have else np.zeros((0, 2))
        if swap:
            v = v[:, ::-1]
        # vertices are compared on a grid
        grid = {tuple(x) for x in np.round(v, 5)}
        for t, d, b in curves:
            m = sgn * d > 1e-4
            pts = np.round(np.c_[t[m], d[m] + b], 5)
            miss = [tuple(x) for x in pts if tuple(x) not in grid and
                    not np.any(np.all(np.abs(v - x) < 3e-5, axis=1))]
            ctx.ok('fill', not miss, lambda: '%d of %d samples with sign %d '
                   'are not filled with color %s' % (
                       len(miss), len(pts), sgn, c))
        # total filled area
        area = 0.
        for col in ax.collections:
            fc = col.get_facecolor()
            if len(fc) and tuple(np.round(fc[0], 3)) == tuple(
                    np.round(rgba(c), 3)):
                for p in col.get_paths():
                    x, y = p.vertices.T
                    area += abs(np.sum((x[1:] - x[:-1]) *
                                       (y[1:] + y[:-1]) / 2))
        want = sum(np.sum(np.where(
            (sgn * d[1:] >= 0) & (sgn * d[:-1] >= 0),
            sgn * (d[1:] + d[:-1]) / 2 * np.diff(t), 0)) for t, d, _ in curves)
        slack = sum(np.sum(np.abs(d[1:] - d[:-1]) * np.diff(t) * (
            d[1:] * d[:-1] < 0)) for t, d, _ in curves)
        ctx.ok('fill', want * (1 - 1e-5) - 1e-6 <= area <= (
            want + slack) * (1 + 1e-5) + 1e-6, lambda:
               'area %.5f filled with %s, expected %.5f - %.5f' % (
                   area, c, want, want + slack))


def png_size(fname):
    with open(fname, 'rb') as f:
        head = f.read(24)
    return [int.from_bytes(head[16:20], 'big'),
            int.from_bytes(head[20:24], 'big')]


def size_of(ax):
    """width and height of axes in inches"""
    w, h = ax.figure.get_size_inches()
    pos = ax.get_position()
    return pos.width * w, pos.height * h


def inside(ctx, fig):
    """all axes are inside of the figure"""
    for ax in fig.axes:
        x0, y0, x1, y1 = ax.get_position().extents
        ctx.ok('inside', min(x0, y0) > -1e-6 and max(x1, y1) < 1 + 1e-6,
               lambda: 'axes at %s' % [x0, y0, x1, y1])


def vlines(ctx, ax, shown):
    """vertical grid lines are drawn at all major ticks or not at all"""
    ax.figure.canvas.draw()
    lo, hi = sorted(ax.get_xlim())
    vis = [t.gridline.get_visible() for t in ax.xaxis.get_major_ticks()
           if lo <= t.get_loc() <= hi]
    ctx.ok('vlines', all(v == shown for v in vis) and len(vis) > 0, lambda:
           'vertical lines %s, expected %s' % (vis, shown))
    ctx.ok('vlines', not any(t.gridline.get_visible()
                             for t in ax.yaxis.get_major_ticks()),
           'horizontal grid lines')


def finish(ctx, ret, fname, before):
    """figure is returned or saved and closed"""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    if fname is None:
        ctx.ok('figure', isinstance(ret, Figure), repr(ret))
        return
    ctx.same('file', plt.get_fignums(), before, 'open figures')
    ok = os.path.exists(fname) and os.path.getsize(fname) > 50
    if ctx.ok('file', ok, 'no file ' + fname):
        with open(fname, 'rb') as f:
            head = f.read(8)
        ext = os.path.splitext(fname)[1]
        ctx.ok('file', head.startswith({
            '.png': b'\x89PNG', '.pdf': b'%PDF', '.svg': b'<?xml'}[ext]))


class Saved(object):

    """keep figure which is saved and closed for the monitor"""

    def __enter__(self):
        from matplotlib.figure import Figure
        self.figs = figs = []
        self.names = names = []
        self.old = old = Figure.savefig

        def savefig(fig, *args, **kwargs):
            figs.append(fig)
            names.append(str(args[0]))
            return old(fig, *args, **kwargs)
        Figure.savefig = savefig
        return self

    def __exit__(self, *args):
        from matplotlib.figure import Figure
        Figure.savefig = self.old


def rf_stream(ctx):
    n = ctx.choice([1] * 2 + [ctx.i(2, 8)] * 5 + [ctx.i(9, 60)])
    sr = ctx.choice([1., 2., 4.])
    npts = ctx.i(50, 90)
    onset = round(ctx.u(5, 15), 2)
    kind = ctx.choice(['same', 'same', 'npts', 'ids', 'onset'])
    ctx.ev(kind)
    from rf import RFStream
    from rf.rfstream import RFTrace
    net, sta, loc, _ = gen.seed_id(ctx)
    cha = gen.band_code(ctx) + ctx.choice('LQTRZ')
    traces = []
    for j in range(n):
        m = npts + (ctx.i(0, 9) if kind == 'npts' else 0)
        t0 = UTC(10**9) + 1e5 * j + ctx.u(0, 1e3)
        d = gen.smooth_noise(ctx.rng, m, sr, sr / 5) * 10 ** ctx.u(-2, 2)
        h = {'network': net, 'station': sta, 'location': loc, 'channel': cha,
             'sampling_rate': sr, 'starttime': t0}
        if kind == 'ids' and j % 2:
            h[ctx.choice(['station', 'channel'])] = 'XY' + 'ZQ'[j % 4 // 2]
        tr = RFTrace(data=d, header=h)
        o = onset + (round(ctx.u(-3, 3), 2) if kind == 'onset' else 0)
        tr.stats.update({'onset': t0 + o, 'back_azimuth': ctx.u(0, 360),
                         'distance': ctx.u(30, 90), 'slowness': ctx.u(4, 9),
                         'phase': 'P', 'type': 'rf', 'event_time': t0 - 9,
                         'event_depth': ctx.u(0, 700),
                         'number': ctx.i(-300, 1000)})
        traces.append(tr)
    return RFStream(traces), kind


@case('plot_rf', 36, 900, 3)
def case_rf(ctx):
    import matplotlib.pyplot as plt
    st, kind = rf_stream(ctx)
    kw = {}
    n = len(st)
    fname = None
    if ctx.p(.25):
        fname = os.path.join(ctx.tmpdir(), 'x' + ctx.choice(
            ['.png', '.png', '.pdf', '.svg']))
    if ctx.p(.4):
        kw['trim'] = ctx.choice([(-4, 12.), (ctx.u(-4, -1), ctx.u(3, 20)),
                                 [-2.3, 9.1]])
    if ctx.p(.6):
        kw['scale_factor'] = ctx.choice([2, .5, ctx.u(.2, 3)])
    if ctx.p(.4):
        kw['trace_scale'] = True
    if ctx.p(.6):
        kw['fillcolors'] = ctx.choice(COLORS)
    info = (('back_azimuth', 'baz (°)', 'C0'),
            ('distance', 'dist (°)', 'C3'))
    if ctx.p(.6):
        info = ctx.choice([None, (('slowness', 'slow', 'C1'),),
                           [('distance', 'd', 'b'), ('slowness', 's', 'r')],
                           [('event_depth', 'z', 'b')],
                           [('number', 'n', 'k'), ('event_depth', 'z', 'r')]])
        kw['info'] = info
    if ctx.p(.3):
        kw['show_vlines'] = True
    show = True
    if ctx.p(.15):
        show = kw['show_traces'] = False
    if ctx.p(.2):
        kw.update(fig_width=ctx.u(5, 9), trace_height=ctx.u(.2, 1),
                  stack_height=ctx.u(.5, 1), dpi=60)
    else:
        kw['dpi'] = ctx.choice([50, 60, 83])
    ctx.desc = {'kind': kind, 'n': n, 'kw': kw, 'file': fname and
                os.path.basename(fname)}
    ctx.sig(kind, n, sorted(kw), bool(fname))
    before = plt.get_fignums()
    with warnings.catch_warnings(record=True) as wlist, Saved() as saved:
        warnings.simplefilter('always')
        ret = st.plot_rf(*([fname] if fname else []), **kw)
        finish(ctx, ret, fname, before)
        if fname:
            ctx.same('file', len(saved.figs), 1)
            fig = saved.figs[0]
        else:
            fig = ret
    try:
        judge_rf(ctx, fig, st, kind, kw, info, show, wlist)
        if fname and fname.endswith('.png'):
            ctx.close('size', png_size(fname), np.array(
                fig.get_size_inches()) * kw['dpi'], atol=1)
            ctx.ev('png')
        ctx.close('size', fig.get_size_inches()[0], kw.get('fig_width', 7),
                  atol=1e-6)
    finally:
        plt.close('all')


def judge_rf(ctx, fig, st, kind, kw, info, show, wlist):
    shown = st
    if kw.get('trim'):
        ctx.ev('trim')
        a, b = kw['trim']
        shown = st.slice2(a, b, 'onset')
        for tr in shown:
            dt = tr.stats.delta
            t = relative_times(tr)
            ctx.ok('trim', t[0] > a - dt and t[-1] < b + dt)
    n = len(shown)
    scale = kw.get('scale_factor', 1)
    colors = kw.get('fillcolors', (None, None))
    gmax = max(np.max(np.abs(tr.data)) for tr in shown)
    curves = []
    for j, tr in enumerate(shown):
        m = np.max(np.abs(tr.data)) if kw.get('trace_scale') else gmax
        curves.append((relative_times(tr), tr.data / m * scale, j + 1.))
    inside(ctx, fig)
    axes = list(fig.axes)
    ax1 = [ax for ax in axes if ax.get_xlabel() == 'time (s)']
    if not show:
        ctx.ok('wiggles', not ax1, 'traces plotted')
    elif ctx.same('axes', len(ax1), 1):
        ax1 = ax1[0]
        have = lines_of(ax1)
        if ctx.same('number', len(have), n):
            for (t, d, b), xy in zip(curves, have):
                ctx.close('wiggles', xy[:, 0], t, atol=1e-5)
                ctx.close('wiggles', xy[:, 1], d + b, atol=1e-6)
        fills(ctx, ax1, curves, colors)
        vlines(ctx, ax1, kw.get('show_vlines', False))
        ctx.close('size', size_of(ax1)[1] / (n + 2),
                  kw.get('trace_height', .5), atol=1e-6)
        x0, x1 = sorted(ax1.get_xlim())
        y0, y1 = sorted(ax1.get_ylim())
        ctx.ok('visible', x0 <= min(t[0] for t, _, _ in curves) + 1e-6 and
               x1 >= max(t[-1] for t, _, _ in curves) - 1e-6 and
               y0 <= 0 and y1 >= n + 1, lambda: 'limits %s %s' % (
                   (x0, x1), (y0, y1)))
        ctx.ok('title', any(x.get_text().startswith('%d traces' % n)
                            for x in ax1.texts), lambda: str(
                                [x.get_text() for x in ax1.texts]))
        ids = {tr.id for tr in shown}
        if len(ids) == 1:
            ctx.ok('title', any(shown[0].id in x.get_text()
                                for x in ax1.texts))
        axes.remove(ax1)
    # header values
    if info and show:
        for key, label, color in info:
            ax = [x for x in axes if x.get_xlabel() == label]
            if not ctx.same('info', len(ax), 1, label):
                continue
            ax = ax[0]
            axes.remove(ax)
            have = lines_of(ax)
            if ctx.same('info', len(have), 1):
                ctx.close('info', have[0], np.c_[
                    [tr.stats[key] for tr in shown],
                    1. + np.arange(n)], atol=1e-9)
                x0, x1 = sorted(ax.get_xlim())
                y0, y1 = ax.get_ylim()
                v = [tr.stats[key] for tr in shown]
                ctx.ok('info', x0 <= min(v) and x1 >= max(v) and
                       y0 < 1 and y1 > n, 'values not visible')
                ctx.same('info', rgba(ax.get_lines()[0].get_color()),
                         rgba(color))
    # stack
    ids = {tr.id for tr in shown}
    npts = {len(tr) for tr in shown}
    msgs = [str(w.message) for w in wlist if w.category is UserWarning]
    if len(ids) == 1 and len(npts) == 1:
        ctx.ev('stack')
        if not ctx.same('stack', len(axes), 1, 'stack axes'):
            return
        ax = axes[0]
        have = lines_of(ax)
        mean = np.mean([tr.data for tr in shown], axis=0)
        if ctx.same('stack', len(have), 1):
            ctx.close('stack', have[0][:, 1], mean, rtol=1e-9)
            if kind != 'onset':
                ctx.close('stack', have[0][:, 0], curves[0][0], atol=1e-5)
        fills(ctx, ax, [(have[0][:, 0], mean, 0.)], colors) if np.max(
            np.abs(mean)) > .05 else None
        x0, x1 = sorted(ax.get_xlim())
        ctx.ok('visible', x0 <= curves[0][0][0] + 1e-6 or kind == 'onset')
        vlines(ctx, ax, kw.get('show_vlines', False))
        ctx.close('size', size_of(ax)[1], kw.get('stack_height', .5),
                  atol=1e-6)
    elif len(ids) > 1:
        ctx.ev('no-stack')
        ctx.ok('stack', not [ax for ax in axes if ax.get_lines()],
               'stack of different ids')
        ctx.ok('stack-warning', any('stack' in x for x in msgs), str(msgs))
    else:
        ctx.ok('stack', not [ax for ax in axes if ax.get_lines()],
               'stack of different lengths')
        ctx.ok('stack-warning', any('stack' in x for x in msgs), str(msgs))


def model_file(ctx):
    nl = ctx.i(8, 14)
    z = np.round(np.r_[0, np.cumsum([ctx.u(20, 80) for _ in range(nl)])], 1)
    vp = np.round(np.linspace(5.5, 9.5, nl + 1) + ctx.rng.uniform(
        -.2, .2, nl + 1), 2)
    vs = np.round(vp / 1.77, 2)
    fname = os.path.join(ctx.tmpdir(), 'm.dat')
    np.savetxt(fname, np.c_[z, vp, vs])
    return fname, ref.Layered(z, vp, vs)


@case('plot_profile', 24, 700, 2)
def case_profile(ctx):
    import matplotlib.pyplot as plt
    from rf import RFStream
    from rf.rfstream import RFTrace
    n = ctx.choice([ctx.i(1, 9)] * 5 + [ctx.i(10, 40)])
    sr = ctx.choice([1., 2., 4.])
    on = round(ctx.u(2, 10), 2)
    ons = [on] * n if ctx.p(.6) else [on + ctx.i(-2, 4) for _ in range(n)]
    m = ctx.choice('PPS')
    phase = ctx.choice(['Ps', 'Ps', 'Ppps', 'Ppss'] if m == 'P' else ['Sp'])
    slow = ctx.choice([6.4, ctx.u(5, 7)])
    lengths = [ctx.u(2, 30)] * n if ctx.p(.6) else [ctx.u(2, 30)
                                                    for _ in range(n)]
    pos = np.cumsum(lengths) - np.array(lengths) / 2 + ctx.u(-50, 50)
    npts = int(sr * ctx.choice([ctx.u(25, 45), ctx.u(60, 90)]))
    st = RFStream()
    for j in ctx.rng.permutation(n):
        tr = RFTrace(data=gen.smooth_noise(ctx.rng, npts, sr, sr / 5) *
                     10 ** ctx.u(-1, 1), header={
                         'channel': '??Q', 'sampling_rate': sr})
        tr.stats.update({'onset': tr.stats.starttime + ons[j],
                         'type': 'profile',
                         'box_pos': float(pos[j]), 'phase': m,
                         'box_length': lengths[j], 'num': ctx.i(1, 40),
                         'slowness': slow, 'moveout': phase})
        st.append(tr)
    kw = {}
    lay = ref.iasp91()
    if ctx.p(.4):
        kw['trim'] = ctx.choice([(-2, 22), (-ctx.u(1, 2), ctx.u(10, 24))])
        ctx.ev('trim')
    if ctx.p(.5):
        kw['scale'] = ctx.choice([2, ctx.u(.3, 4)])
    if ctx.p(.6):
        kw['fillcolors'] = ctx.choice(COLORS)
    if ctx.p(.5):
        kw['top'] = 'hist'
    if ctx.p(.4):
        kw['moveout_model'] = ctx.choice([None, 'file'])
        if kw['moveout_model']:
            kw['moveout_model'], lay = model_file(ctx)
    if ctx.p(.2):
        kw['figsize'] = (8, 6)
    kw['dpi'] = ctx.choice([50, 50, 64, 91])
    fname = os.path.join(ctx.tmpdir(), 'p' + ctx.choice(
        ['.png', '.pdf'])) if ctx.p(.25) else None
    ctx.desc = {'n': n, 'phase': phase, 'kw': kw, 'lengths': lengths}
    ctx.sig(n, phase, sorted(kw), bool(fname))
    before = plt.get_fignums()
    try:
        with warnings.catch_warnings(), Saved() as saved:
            warnings.simplefilter('ignore')
            ret = st.plot_profile(*([fname] if fname else []), **kw)
            finish(ctx, ret, fname, before)
            fig = saved.figs[0] if fname else ret
        if 'figsize' in kw:
            ctx.close('size', fig.get_size_inches(), kw['figsize'])
        if fname and fname.endswith('.png'):
            ctx.close('size', png_size(fname), np.array(
                fig.get_size_inches()) * kw['dpi'], atol=1)
            ctx.ev('png')
        shown = st.slice2(*kw['trim'], reftime='onset') if 'trim' in kw \
            else st
        judge_profile(ctx, fig, shown, kw, lay, phase, slow)
    finally:
        plt.close('all')


def judge_profile(ctx, fig, shown, kw, lay, phase, slow):
    inside(ctx, fig)
    axes = list(fig.axes)
    main = [ax for ax in axes if ax.get_xlabel() == 'distance (km)']
    if not ctx.same('axes', len(main), 1):
        return
    ax = main[0]
    have = lines_of(ax)
    gmax = max(np.max(np.abs(tr.data)) for tr in shown)
    scale = max(1, kw.get('scale', 1) * 20)
    fac = kw.get('scale', 1) / gmax * min(tr.stats.box_length for tr in shown)
    curves = [(relative_times(tr), tr.data * fac, tr.stats.box_pos)
              for tr in shown]
    if ctx.same('number', len(have), len(shown)):
        left = list(have)
        for (t, d, b) in curves:
            # in any order
            k = [k for k, xy in enumerate(left) if len(xy) == len(t)]
            if ctx.ok('position', k, 'no line'):
                k = min(k, key=lambda k: np.max(np.abs(
                    left[k] - np.c_[d + b, t])))
                xy = left.pop(k)
                ctx.close('position', xy[:, 0], d + b, atol=1e-6 * scale)
                ctx.close('wiggles', xy[:, 1], t, atol=1e-5)
    fills(ctx, ax, curves, kw.get('fillcolors', ('C3', 'C0')), swap=True)
    y = ax.get_ylim()
    ctx.ok('visible', y[0] > y[1], 'time is not downwards')
    ctx.ok('visible', any(y[0] >= t[-1] - 1e-5 and y[1] <= t[0] + 1e-5
                          for t, _, _ in curves))
    x = ax.get_xlim()
    pos = [tr.stats.box_pos for tr in shown]
    ctx.ok('visible', x[0] <= min(pos) and x[1] >= max(pos))
    ax2 = [a for a in axes if a.get_ylabel() == 'depth (km)']
    if kw.get('moveout_model', 1):
        if ctx.same('depth', len(ax2), 1):
            judge_depth(ctx, ax2[0], lay, phase, slow, y)
    else:
        ctx.ok('depth-off', not ax2)
    if kw.get('top') == 'hist':
        bars = []
        for a in axes:
            bars += [(p.get_x(), p.get_width(), p.get_height())
                     for p in a.patches if hasattr(p, 'get_height')]
        want = sorted((tr.stats.box_pos - tr.stats.box_length / 2,
                       tr.stats.box_length, tr.stats.num)
                      for tr in shown)
        ctx.close('hist', sorted(bars), want, atol=1e-6)


def judge_depth(ctx, ax, lay, phase, slow, ylim):
    ctx.close('depth', ax.get_ylim(), ylim, atol=1e-6)
    locs = list(ax.yaxis.get_majorticklocs())
    labels = ax.yaxis.get_major_formatter().format_ticks(locs)
    sgn = -1 if phase[0] == 'S' else 1
    t = sgn * lay.delays(slow, phase)
    ok = np.isfinite(t) & (np.cumsum(~np.isfinite(t)) == 0)
    zmax, tmax = lay.top[ok][-1], t[ok][-1]
    lo, hi = min(ylim), min(max(ylim), tmax)
    seen = []
    for loc, lab in zip(locs, labels):
        if lo <= loc <= hi and lab:
            d = float(lab)
            if d <= zmax:
                ctx.close('depth', loc, sgn * lay.delay(slow, phase, d),
                          atol=2e-3, msg='tick of depth %s' % lab)
                seen.append(d)
    # ticks cover the visible depths
    zvis = np.interp(hi, t[ok], lay.top[ok])
    ctx.ok('depth', 0 in seen and len(seen) >= zvis // 200 and all(
        abs(b - a - (seen[1] - seen[0])) < 1e-6
        for a, b in zip(seen[:-1], seen[1:])) and
        max(seen) > zvis - 201, lambda: 'ticks %s, visible '
        'depth %.1f' % (seen, zvis))
    # minor ticks divide the intervals into equal depths
    minor = [x for x in ax.yaxis.get_minorticklocs()
             if lo + .01 <= x <= hi - .01]
    if len(seen) > 1:
        step = (seen[1] - seen[0]) / 5
        want = [sgn * lay.delay(slow, phase, d) for d in np.arange(
            step, min(zmax, seen[-1]), step) if d % (5 * step)]
        want = [x for x in want if lo + .01 <= x <= hi - .01]
        miss = [x for x in want if not minor or
                np.min(np.abs(np.array(minor) - x)) > 4e-3]
        ctx.ok('depth', not miss, lambda: 'no minor ticks at %s' % miss)
        below = [sgn * lay.delay(slow, phase, d) for d in np.arange(
            0, min(zmax, seen[-1]) + 1e-6, step)]
        more = [x for x in minor if x < below[-1] and
                np.min(np.abs(np.array(below) - x)) > 4e-3]
        ctx.ok('depth', not more, lambda: 'minor ticks at %s' % more)
        ctx.ev('minor')


@case('plot_harmonics', 16, 500, 2)
def case_harmonics(ctx):
    import matplotlib.pyplot as plt
    from rf import RFStream
    from rf.imaging import plot_harmonics
    from rf.rfstream import RFTrace
    sr = ctx.choice([1., 2., 4.])
    npts = int(sr * ctx.u(40, 60))
    on = round(ctx.u(5, 9), 2)

    def hd(comps, unmod, sr=sr, npts=npts, on=on):
        st = RFStream()
        for loc in ['mod', 'unmod'][:1 + unmod]:
            for j in range(5):
                tr = RFTrace(data=gen.smooth_noise(
                    ctx.rng, npts, sr, sr / 5) * 10 ** ctx.u(-1, 1), header={
                    'channel': str(j), 'location': loc, 'sampling_rate': sr,
                    'station': 'ST', 'network': 'N',
                    'starttime': UTC(10**9)})
                tr.stats.update({'onset': tr.stats.starttime + on,
                                 'components': comps, 'type': 'harmonic'})
                st.append(tr)
        if ctx.p(.3):
            st.traces = [st.traces[j] for j in ctx.rng.permutation(len(st))]
        return st
    kind = ctx.choice(['one', 'two', 'hd2', 'hd2-two'])
    a = hd(ctx.choice('RQT') if kind in ('one', 'hd2') else 'QT',
           kind in ('two', 'hd2-two'))
    b = None
    if 'hd2' in kind:
        more = {}
        if ctx.p(.5):  # other time axis
            more = {'sr': ctx.choice([1., 2., 4.]), 'on': on + ctx.u(0, 3),
                    'npts': npts + ctx.i(-5, 9)}
        b = hd(ctx.choice(['R', 'QT']), ctx.p(.5), **more)
    kw = {}
    if ctx.p(.5):
        kw['fillcolors'] = ctx.choice(COLORS)
    if ctx.p(.4):
        kw['trim'] = ctx.choice([(-3, 20), (-ctx.u(1, 4), ctx.u(10, 25))])
        ctx.ev('trim')
    ctx.desc = {'kind': kind, 'kw': kw}
    ctx.sig(kind, sorted(kw))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fig = plot_harmonics(*([a, b] if b is not None else [a]), **kw)
        if 'trim' in kw:
            a = a.slice2(*kw['trim'], reftime='onset')
            b = b.slice2(*kw['trim'], reftime='onset') if b else None
        from matplotlib.figure import Figure
        ctx.ok('figure', isinstance(fig, Figure))
        inside(ctx, fig)
        panels = [ax for ax in fig.axes]
        if not ctx.same('harmonics', len(panels), 2):
            return
        panels.sort(key=lambda x: x.get_subplotspec().colspan.start)
        right = (b or a).select(location='unmod' if b is None else 'mod')
        for ax, st, whole in ((panels[0], a.select(location='mod'), a),
                              (panels[1], right, a if b is None else
                               b.select(location='mod'))):
            have = lines_of(ax)
            if not ctx.same('harmonics', len(have), len(st)):
                continue
            mx = max(np.max(np.abs(tr.data)) for tr in whole)
            curves = [(relative_times(tr), tr.data / mx,
                       4. - int(tr.stats.channel)) for tr in st]
            for (t, d, base) in curves:
                hit = any(len(xy) == len(t) and np.allclose(
                    xy, np.c_[t, d + base], rtol=0, atol=1e-5)
                    for xy in have)
                ctx.ok('harmonics', hit, lambda: 'harmonic %d is not plotted'
                       % (4 - base))
            if curves:
                fills(ctx, ax, curves, kw.get('fillcolors', ('b', 'r')))
        ticks = list(panels[0].get_yticks())
        labels = [x.get_text().replace('$', '').replace('\\theta', 'x')
                  for x in panels[0].get_yticklabels()]
        ctx.same('labels', dict(zip(ticks, labels)), {
            4: 'constant', 3: 'cos(x)', 2: 'sin(x)', 1: 'cos(2x)',
            0: 'sin(2x)'})
        ctx.ok('labels', a[0].stats.components in panels[0].get_title())
        if b is not None:
            ctx.ok('labels', b[0].stats.components in panels[1].get_title())
    finally:
        plt.close('all')


@case('commands', 6, 150, 2)
def case_commands(ctx):
    """plot and plot-profile commands plot the traces of the files"""
    import matplotlib.pyplot as plt
    from rf import RFStream
    from rf.batch import write
    from rf.rfstream import RFTrace
    st, kind = rf_stream(ctx)
    fmt = ctx.choice(['Q', 'SAC', 'H5'])
    comps = ctx.choice(['Q', 'QT', 'LQT'])
    band = st[0].stats.channel[:2]
    net, sta, loc = st[0].id.split('.')[:3]
    st = RFStream([tr for tr in st if len(tr) == len(st[0])])
    stream = RFStream()
    for tr in st:
        for c in comps:
            t2 = tr.copy()
            t2.data = t2.data * ctx.u(.3, 3)
            t2.stats.update({'channel': band + c, 'station': sta,
                             'network': net, 'location': loc})
            # not shifted by precision of the file formats
            t2.stats.starttime = UTC(int(tr.stats.starttime.timestamp))
            for k in ('onset', 'event_time'):
                t2.stats[k] = t2.stats.starttime + round(
                    tr.stats[k] - tr.stats.starttime, 1)
            stream.append(t2)
    kw, pkw = {'dpi': 50}, {'dpi': 50}
    if ctx.p(.5):
        kw['trim'] = [-4, 12]
    if ctx.p(.5):
        kw['scale_factor'] = 2
    if ctx.p(.5):
        kw['fillcolors'] = ['b', 'r']
    if ctx.p(.5):
        pkw['scale'] = 1.5
    if ctx.p(.5):
        pkw['top'] = 'hist' if fmt == 'H5' else None
    ctx.desc = {'fmt': fmt, 'comps': comps, 'kw': kw, 'profile': pkw,
                'n': len(st), 'id': stream[0].id}
    ctx.sig(fmt, comps, len(st), sorted(kw))
    ctx.ev('command:' + fmt)
    path = ctx.tmpdir()
    with cli.cwd(path), warnings.catch_warnings(record=True) as wlist:
        warnings.simplefilter('always')
        inv = gen.inventory([{'net': net, 'sta': sta, 'lat': 0, 'lon': 0,
                              'elev': 0, 'locs': [(loc, band, comps)]}])
        inv.write('inv.xml', 'STATIONXML')
        from obspy.core.event import Catalog
        Catalog([gen.event(ctx)]).write('events.xml', 'QUAKEML')
        for k in range(0, len(stream), len(comps)):
            write(RFStream(stream.traces[k:k + len(comps)]), 'd', fmt)
        cli.write_conf('conf.json', {
            'inventory': 'inv.xml', 'events': 'events.xml', 'plot': kw,
            'format': fmt, 'plot_profile': pkw})
        with Saved() as saved:
            cli.cli('plot', 'd', 'p')
        names = ['%s.%s.%s.%s.pdf' % (net, sta, loc, band + c)
                 for c in sorted(comps)]
        ctx.same('plot-files', sorted(os.listdir('p')), sorted(names))
        files = cli.read_all('.', cli.fnames('d', fmt, stream))
        if ctx.same('plot-figures', len(saved.figs), len(names)):
            for c in comps:
                want = files.select(component=c)
                order = np.argsort([tr.stats.back_azimuth for tr in want])
                want = RFStream([want[int(i)] for i in order])
                fig = [f for f, n in zip(saved.figs, saved.names)
                       if n.endswith('.%s.pdf' % (band + c))]
                if ctx.same('plot-figures', len(fig), 1, c):
                    info = (('back_azimuth', 'baz (°)', 'C0'),
                            ('distance', 'dist (°)', 'C3'))
                    judge_rf(ctx, fig[0], want, kind, kw, info, True, wlist)
                    ctx.ev('plot-command')
        # profile
        prof = RFStream()
        for j in range(ctx.i(2, 5)):
            for c in comps:
                tr = RFTrace(data=gen.smooth_noise(ctx.rng, 90, 2., .4),
                             header={'channel': '??' + c,
                                     'sampling_rate': 2.})
                tr.stats.update({
                    'onset': tr.stats.starttime + 7, 'type': 'profile',
                    'box_pos': 10.5 + 20 * j, 'phase': 'P', 'num': j + 3,
                    'box_length': 20., 'slowness': 6.4, 'moveout': 'Ps'})
                prof.append(tr)
        write(prof, 'q', fmt, type='profile')
        with Saved() as saved:
            cli.cli('plot-profile', 'q', 'pp')
        names = ['profile_%s.pdf' % c for c in comps]
        ctx.same('plot-files', sorted(os.listdir('pp')), sorted(names))
        files = cli.read_all('.', cli.fnames('q', fmt, prof, 'profile'))
        if ctx.same('plot-figures', len(saved.figs), len(names)):
            for fig, name in zip(saved.figs, saved.names):
                want = files.select(component=name[-5])
                judge_profile(ctx, fig, want, pkw, ref.iasp91(), 'Ps', 6.4)
                ctx.ev('profile-command')
    plt.close('all')


@case('empty', 2, 10, 1)
def case_empty(ctx):
    """empty streams are ignored"""
    import matplotlib.pyplot as plt
    from rf import RFStream
    ctx.same('empty', RFStream().plot_rf(), None)
    ctx.same('empty', RFStream().plot_profile(), None)
    ctx.same('empty', plt.get_fignums(), [])
    st, _ = rf_stream(ctx)
    st = st[:1].stack()
    st.type = 'profile'
    for tr in st:
        tr.stats.update({'box_pos': 1., 'box_length': 2., 'num': 1})
    try:
        st.plot_profile(top='unknown', moveout_model=None)
    except NotImplementedError:
        ctx.ev('unknown-top')
    else:
        ctx.ok('empty', False, 'unknown top parameter accepted')
    finally:
        plt.close('all')
