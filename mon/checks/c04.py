import numpy as np
from obspy import Stream
from obspy.core import Stats
from obspy.core.event import Event, Magnitude, Origin

from mon import gen, ref
from mon.core import case
from rf import RFStream, rfstats
from rf.rfstream import RFTrace, obj2stats

PROP = 'C04'
SCALE = 4
TECHNIQUE = 'online oracle on accept/reject decisions at and around interval limits, plus identity bookkeeping of traces'
NOTE = 'held on sampled distances, including values equal to and next to the limits'
RULE = ('event/station pairs at, next to and away from the limits of default '
        'and explicit distance intervals; streams mixing traces inside and '
        'outside; incomplete events; non-trivial if an accept/reject '
        'decision was judged; distinct by hash of distance, interval, phase')
ASSUMPTIONS = ['distance is the WGS84 distance divided by 111.2 km']
REQUIRED = {'decision:in': 60, 'decision:out': 60, 'limit': 60, 'stream': 12,
            'incomplete': 40, 'default-error': 6}


def pair(ctx, deg):
    slat, slon = ctx.u(-85, 85), ctx.u(-180, 180)
    elat, elon = gen.coords_at(slat, slon, ctx.u(0, 360), deg)
    ev = gen.event(ctx, lat=elat, lon=elon, depth=ctx.u(0, 600))
    station = {'latitude': slat, 'longitude': slon, 'elevation': 0.}
    km = ref.inverse(slat, slon, elat, elon)[0]
    return ev, station, km / 111.2


def decide(ctx, ev, station, want, msg, **kw):
    s = rfstats(event=ev, station=station, **kw)
    ctx.ev('decision:in' if want else 'decision:out')
    ctx.ok('decision', (s is not None) == want, lambda: (
        '%s: %s, expected %s' % (msg, 'kept' if s is not None else 'dropped',
                                 'kept' if want else 'dropped')))
    return s


@case('defaults', 80, 2500)
def defaults(ctx):
    phase = ctx.choice('PS')
    lo, hi = {'P': (30, 90), 'S': (50, 85)}[phase]
    kind = ctx.choice(['near', 'near', 'far', 'other'])
    if kind == 'near':
        deg = ctx.choice([lo, hi]) + ctx.choice([-1, 1]) * 10**ctx.u(-7, 0)
    elif kind == 'far':
        deg = ctx.u(0.1, 179)
    else:  # limits of the other phase
        deg = ctx.choice([30, 90, 50, 85]) + ctx.u(-1, 1)
    ev, station, d = pair(ctx, deg)
    ctx.desc = {'phase': phase, 'deg': deg, 'd': d}
    want = lo <= d <= hi
    if min(abs(d - lo), abs(d - hi)) < 1e-9:
        return ctx.trivial()
    ctx.ev('limit', kind == 'near')
    ctx.sig(phase, kind, want)
    kw = {} if phase == 'P' and ctx.p(.5) else {'phase': phase}
    if ctx.p(.2):
        kw['dist_range'] = 'default'
    decide(ctx, ev, station, want, '%s %.8f' % (phase, d), **kw)


@case('intervals', 60, 2000)
def intervals(ctx):
    ev, station, d = pair(ctx, ctx.u(31, 84))
    phase = ctx.choice('PS')
    if phase == 'S':
        ev, station, d = pair(ctx, ctx.u(51, 84))
    d = rfstats(event=ev, station=station, phase=phase,
                dist_range=None)['distance']
    up, down = np.nextafter(d, 999), np.nextafter(d, 0)
    w = ctx.u(0.1, 50)
    ivs = [((d, d + w), True), ((d - w, d), True), ((d, d), True),
           ((up, up + w), False), ((down - w, down), False),
           ((d + w, d + 2 * w), False), ((d - w, d + w), True),
           ([d - w, d + w], True), ((d - 2 * w, d - w), False),
           ((0, d + w), True), ((0, down), False), ((0., d / 2), False),
           ((-w, d), True), (np.array([d - w, d + w]).tolist(), True),
           (None, True)]
    ctx.desc = {'phase': phase, 'd': d, 'w': w}
    ctx.sig(phase)
    for iv, want in ivs:
        ctx.ev('limit')
        decide(ctx, ev, station, want, '%s in %s' % (d, iv), phase=phase,
               dist_range=iv)


@case('other_phases', 12, 200)
def other_phases(ctx):
    phase = ctx.choice(['PP', 'SKS', 'PcP', 'SS', 'PKiKP', 'PS', 'SP',
                        'ScS', 'pP'])
    ev, station, d = pair(ctx, ctx.u(60, 80))
    ctx.desc = {'phase': phase, 'd': d}
    ctx.sig(phase)
    ctx.raises('default-error', rfstats, event=ev, station=station,
               phase=phase, _msg=phase)
    # no arrival in given distance
    ev, station, d = pair(ctx, ctx.u(120, 170))
    ctx.raises('no-arrival', rfstats, event=ev, station=station,
               phase=ctx.choice(['P', 'S', 'PcP']), dist_range=None)


@case('incomplete', 40, 800)
def incomplete(ctx):
    ev, station, d = pair(ctx, ctx.u(60, 80))
    kind = ctx.choice(['no origin', 'no magnitude', 'no latitude',
                       'no longitude', 'no depth', 'no time'])
    if kind == 'no origin':
        ev = Event(magnitudes=ev.magnitudes)
    elif kind == 'no magnitude':
        ev = Event(origins=ev.origins)
    else:
        setattr(ev.origins[0], kind.split()[1], None)
    ctx.desc = {'kind': kind, 'd': d}
    ctx.sig(kind)
    ctx.raises('incomplete', rfstats, event=ev, station=station, _msg=kind)
    ctx.raises('incomplete', obj2stats, event=ev, _msg=kind)


@case('stream', 25, 700)
def stream(ctx):
    phase = ctx.choice('PS')
    lo, hi = {'P': (30, 90), 'S': (50, 85)}[phase]
    default = ctx.p(.6)
    if not default:
        lo = ctx.u(lo, hi - 10)
        hi = ctx.u(lo + 5, hi)
    traces, want = [], []
    for k in range(ctx.i(1, 7)):
        deg = ctx.choice([ctx.u(lo, hi), ctx.u(1, lo), ctx.u(hi, 170)])
        ev, station, d = pair(ctx, deg)
        data = ctx.rng.normal(size=10)
        tr = RFTrace(data=data, header={'channel': 'BHZ', 'tag': k})
        tr.stats.update(obj2stats(event=ev, station=station))
        traces.append(tr)
        if lo <= d <= hi:
            want.append(k)
        if ctx.p(.15):  # the same data twice
            traces.append(tr.copy())
            want += want[-1:] if lo <= d <= hi else []
            ctx.ev('twice')
    orig = list(traces)
    st = ctx.choice([RFStream, Stream])(traces)
    datas = {tr.stats.tag: tr.data.copy() for tr in traces}
    ctx.desc = {'phase': phase, 'range': (lo, hi), 'n': len(traces),
                'want': want, 'lat': traces[0].stats.event_latitude}
    ctx.sig(phase, len(want), len(traces))
    kw = {} if default else {'dist_range': (lo, hi)}
    ret = rfstats(st, phase=phase, **kw)
    ctx.ev('stream')
    ctx.ok('same-object', ret is st)
    ctx.same('kept-traces', [tr.stats.tag for tr in ret], want)
    ctx.ok('kept-objects', [id(tr) for tr in ret] == [
        id(tr) for tr in orig if tr.stats.tag in want])
    for tr in ret:
        ctx.close('waveform', tr.data, datas[tr.stats.tag])
        ctx.ok('stats-set', 'onset' in tr.stats and 'slowness' in tr.stats)
