"""
C22: iter_event_data yields every usable event-station pair once, also under
faults of the data source
"""
import warnings

import numpy as np
from obspy import Stream, Trace, UTCDateTime as UTC
from obspy.core.event import Catalog

from mon import gen, ref
from mon.core import case

PROP = 'C22'
SCALE = 2
TECHNIQUE = 'runtime monitor with fault injecting data source: exactly-once oracle over the log of requests, deliveries and progress updates'
NOTE = 'held on sampled catalogs, inventories, options and fault sequences'
RULE = ('1-5 events, 1-4 stations with several locations, bands and epochs; '
        'for each pair the data source injects one of 14 faults or returns '
        'one of 6 variants of complete data')
ASSUMPTIONS = ['each event has an origin and a magnitude']
FAULTS = ['exception', 'exception', 'ioerror', 'none', 'empty', 'two', 'four',
          'gap', 'gap', 'overlap', 'sampling-rate', 'dtype', 'outside',
          'single']
GOOD = ['exact', 'exact', 'longer', 'pieces', 'gap-in-pad', 'grid']
REQUIRED = dict({'fault:' + f: 4 for f in set(FAULTS)},
                **{'good:' + g: 10 for g in set(GOOD)})
REQUIRED.update({'request': 60, 'delivery': 60, 'headers': 200, 'data': 200,
                 'window': 200, 'progress': 40, 'no-arrival': 5,
                 'station-closed': 10, 'out-of-range': 20, 'epochs': 8,
                 'default-window': 10, 'catalog': 10,
                 'stale-headers': 6, 'warning': 50, 'silent': 50,
                 'metadata': 60})


class DataError(Exception):
    pass


def value(i, c):
    """deterministic value of sample i of component c"""
    i = np.asarray(i, dtype=np.int64)
    return ((i * 7919 + ord(c) * 104729) % 100003).astype(float) - 5e4


class Source(object):

    """data source with fault injection"""

    def __init__(self, ctx, plan, sr, pad):
        self.ctx, self.plan, self.sr, self.pad = ctx, plan, sr, pad
        self.calls = []
        self.stale = {}
        self.t0 = UTC(946684800) + ctx.u(0, .2)  # sample grid of source

    def piece(self, net, sta, loc, cha, t1, t2, sr=None, f=value):
        """samples between t1 and t2 on the grid of the source"""
        sr = sr or self.sr
        i1 = int(np.ceil((t1 - self.t0) * sr))
        i2 = int(np.floor((t2 - self.t0) * sr))
        return Trace(data=f(np.arange(i1, i2 + 1), cha[-1]), header={
            'network': net, 'station': sta, 'location': loc, 'channel': cha,
            'sampling_rate': sr, 'starttime': self.t0 + i1 / sr})

    def __call__(self, network, station, location, channel, starttime,
                 endtime):
        ctx = self.ctx
        key = (network, station, location, channel)
        self.calls.append((key, starttime, endtime))
        p = [x for x in self.plan if x['key'] == key and
             abs(x['start'] - starttime) < 1]
        if not p:
            return None
        p = p[0]
        kind = p['kind']
        comps = p['comps']
        if kind == 'exception':
            raise ctx.choice([DataError('no data'), ValueError('x'),
                              KeyError('y'), IndexError(), TypeError('t'),
                              Exception()])
        if kind == 'ioerror':
            raise ctx.choice([IOError('timeout'), ConnectionError('c'),
                              EOFError()])
        if kind == 'none':
            return None
        if kind == 'empty':
            return Stream()
        s, e = starttime, endtime
        if kind == 'longer':
            s, e = s - ctx.u(10, 500), e + ctx.u(10, 500)
        rnd = [ctx.choice(comps)]
        if kind == 'single':
            comps = comps[:1]
        elif kind == 'two':
            comps = [c for c in comps if c != rnd[0]]
        elif kind == 'four':
            comps = comps + 'XW'['X' in comps]
        win = p['window']
        mid = win[0] + ctx.u(.2, .8) * (win[1] - win[0])
        dt = 1 / self.sr
        traces = []
        for c in comps:
            a = key[:3] + (channel[:-1] + c,)
            if kind in ('gap', 'overlap', 'sampling-rate', 'dtype',
                        'outside') and c not in rnd:
                traces.append(self.piece(*a, s, e))
            elif kind == 'gap':
                traces += [self.piece(*a, s, mid),
                           self.piece(*a, mid + ctx.u(1.05, 4) * dt, e)]
            elif kind == 'overlap':
                traces += [self.piece(*a, s, mid + 4 * dt),
                           self.piece(*a, mid - 4 * dt, e, f=lambda i, c:
                                      value(i, c) + 17)]
            elif kind == 'sampling-rate':
                traces += [self.piece(*a, s, mid),
                           self.piece(*a, mid + dt, e, sr=2 * self.sr)]
            elif kind == 'dtype':
                x, y = (self.piece(*a, s, mid), self.piece(*a, mid, e))
                y.data = y.data.astype(np.int32)
                traces += [x, y]
            elif kind == 'outside':
                traces.append(self.piece(*a, win[0] - 900, win[0] - 300))
            elif kind == 'pieces':
                traces += [self.piece(*a, s, mid),
                           self.piece(*a, mid + 1e-9, e)]
                if (traces[-1].stats.starttime -
                        traces[-2].stats.endtime) > 1.5 * dt:
                    traces[-2:] = [self.piece(*a, s, e)]
            elif kind == 'gap-in-pad' and self.pad > 5:
                traces += [self.piece(*a, s, s + 1),
                           self.piece(*a, s + 1 + 2.2 * dt, e)]
            else:
                traces.append(self.piece(*a, s, e))
        if self.stale:  # headers of other calculations are replaced
            for tr in traces:
                tr.stats.update(self.stale)
        return Stream([traces[i] for i in ctx.rng.permutation(len(traces))])


class Bar(object):

    def __init__(self):
        self.total, self.n = None, 0

    def update(self, n=1):
        self.n += n


def setup(ctx):
    """inventory (description) and events"""
    stations = []
    for j in range(ctx.i(1, 3)):
        net, sta, _, _ = gen.seed_id(ctx)
        sta = sta + 'ABC'[j]
        locs = [(ctx.choice(['', '00']),
                 ctx.choice(['BH', 'LH', 'BH', 'LH', 'B', '']),
                 ctx.choice(['ZNE', 'ZNE', 'Z12', '123', 'ZRT', 'LQT', 'UVW',
                             'ABC', 'ZXY', 'zne']))]
        if ctx.p(.3):
            locs.append((ctx.choice(['10', '00']), 'HH', 'ZNE'))
        lat, lon = ctx.u(-60, 60), ctx.u(-180, 180)
        split = UTC(1.2e9) if ctx.p(.4) else None
        d = {'net': net, 'sta': sta, 'locs': locs, 'lat': lat, 'lon': lon,
             'elev': ctx.u(0, 3000), 'start': UTC(0), 'end': split}
        stations.append(d)
        if split:
            ctx.ev('epochs')
            if ctx.p(.6):
                stations.append(dict(
                    d, start=split, end=None, lat=lat + .5,
                    elev=d['elev'] + 10))
    s0 = stations[0]
    events = []
    for j in range(ctx.i(1, 4)):
        dist = ctx.choice([ctx.u(25, 95), ctx.u(50, 80), ctx.u(0, 170)])
        lat, lon = gen.coords_at(s0['lat'], s0['lon'], ctx.u(0, 360), dist)
        events.append(gen.event(
            ctx, lat=lat, lon=lon, decoys=ctx.p(.3), evid='smi:x/%d' % j,
            time=UTC(1e9) + 4e8 * j / 4 + ctx.u(0, 9e7)))
        o = events[-1].preferred_origin() or events[-1].origins[0]
        if ctx.p(.4):
            # epoch of station starts or ends near to origin time
            ot = (events[-1].preferred_origin() or events[-1].origins[0]).time
            dt = ctx.choice([-1, 1]) * ctx.choice([
                ctx.u(.5, 20), ctx.u(20, 900), ctx.u(900, 5000)])
            for s in stations:
                if s.get('near') or s['start'] == UTC(1.2e9):
                    continue
                if s['end'] is None and ctx.p(.5):
                    s['start'] = ot + dt
                elif s['end'] is None or s['end'] == UTC(1.2e9):
                    if not any(x['start'] == UTC(1.2e9) and x['sta'] ==
                               s['sta'] for x in stations):
                        s['end'] = ot + dt
                s['near'] = True
                ctx.ev('near-epoch')
        for o2 in events[-1].origins:
            if o2 is not o and ctx.p(.6):  # in another epoch of the station
                o2.time = UTC(1.2e9) + ctx.choice([-1, 1]) * ctx.u(1e6, 3e8)
    return stations, events


def expected_requests(ctx, stations, events, kw):
    from rf import rfstats
    phase = kw.get('phase', 'P')
    rng = kw.get('dist_range') or ((30, 90) if phase == 'P' else (50, 85))
    window = kw.get('request_window') or (
        (-50, 150) if phase[-1].upper() == 'P' else (-100, 50))
    pad = kw.get('pad', 10)
    plan, pairs, failed = [], 0, []
    seen = []
    for s in stations:
        for loc, band, comps in s['locs']:
            if (s['net'], s['sta'], loc, band) not in seen:
                seen.append((s['net'], s['sta'], loc, band))
    pairs = len(seen) * len(events)
    for net, sta, loc, band in seen:
        for ev in events:
            o = ev.preferred_origin() or ev.origins[0]
            ep = [s for s in stations if s['net'] == net and s['sta'] == sta
                  and s['start'] <= o.time and
                  (s['end'] is None or o.time <= s['end'])]
            if not ep:
                ctx.ev('station-closed')
                continue
            s = ep[0]
            dist = ref.km_between((s['lat'], s['lon']), (
                o.latitude, o.longitude)) / ref.DEG2KM
            if min(abs(dist - rng[0]), abs(dist - rng[1])) < .01:
                return None, None, None
            if not rng[0] <= dist <= rng[1]:
                ctx.ev('out-of-range')
                continue
            coords = {'latitude': s['lat'], 'longitude': s['lon'],
                      'elevation': s['elev']}
            rkw = {k: v for k, v in kw.items()
                   if k not in ('request_window', 'pad')}
            try:
                stats = rfstats(event=ev, station=coords, **rkw)
            except Exception:
                ctx.ev('no-arrival')
                failed.append({'key': (net, sta, loc, band + '?'),
                               'event': ev.resource_id.id})
                continue
            comps = [c for ll, b, c in s['locs'] if ll == loc and
                     b == band][0]
            win = (stats.onset + window[0], stats.onset + window[1])
            plan.append({'key': (net, sta, loc, band + '?'), 'stats': stats,
                         'start': win[0] - pad, 'end': win[1] + pad,
                         'window': win, 'comps': comps,
                         'event': ev.resource_id.id, 'got': 0})
    return plan, pairs, failed


def judge_warnings(ctx, log, plan, failed):
    """unusable data are reported, missing data are not"""
    log = [str(w.message) for w in log if str(w.message)]

    def named(p):
        return [m for m in log if p['event'] in m and '.'.join(p['key']) in m]

    for p in failed:
        ctx.ok('warning', named(p), lambda: 'no warning for failing ray '
               'calculation, %s %s' % (p['event'], p['key']))
    for p in plan:
        # pair can have several entries if seed id is known in two locations
        if p['fault'] and p['kind'] in ('exception', 'ioerror', 'none') or \
                not p['fault']:
            ctx.ok('silent', not named(p), lambda: '%s: %s' % (
                p['kind'], named(p)))
        else:
            ctx.ok('warning', named(p), lambda: 'no warning for %s, %s %s' % (
                p['kind'], p['event'], p['key']))


@case('faults', 110, 4000, 2)
def case_faults(ctx):
    from rf import iter_event_data
    kw = {}
    phase = ctx.choice(['P', 'P', 'S', 'P', 'S', 'PP', 'PcS', 'ScP', 'PS',
                        'SP', 'SKS', 'PKP'])
    if phase != 'P':
        kw['phase'] = phase
    if phase not in 'PS' or ctx.p(.3):
        kw['dist_range'] = (ctx.u(10, 60), ctx.choice([ctx.u(70, 120), 180]))
    if ctx.p(.5):
        kw['request_window'] = (-ctx.u(10, 60), ctx.u(20, 100))
    else:
        ctx.ev('default-window')
    if ctx.p(.5):
        kw['pad'] = ctx.choice([0, ctx.u(1, 30), 20])
    for _ in range(20):
        stations, events = setup(ctx)
        plan, pairs, failed = expected_requests(ctx, stations, events, kw)
        if plan:
            break
    else:
        return ctx.trivial()
    # no two pairs with same request time (cannot be told apart)
    sr = ctx.choice([1., 5., 10.])
    pfault = ctx.choice([0, .3, .6, 1])
    for p in plan:
        fault = ctx.p(pfault)
        p['fault'] = fault
        p['kind'] = ctx.choice(FAULTS if fault else GOOD)
        ctx.ev(('fault:' if fault else 'good:') + p['kind'])
    ctx.desc = {'kw': kw, 'plan': [(p['key'], p['kind'], str(p['start']))
                                   for p in plan]}
    ctx.sig(phase, len(plan), sorted(set(p['kind'] for p in plan)))
    inv = gen.inventory(stations)
    src = Source(ctx, plan, sr, kw.get('pad', 10))
    if ctx.p(.3):
        ctx.ev('stale-headers')
        src.stale = {k: v for k, v in (
            ('onset', UTC(5e8)), ('distance', 44.), ('back_azimuth', 1.5),
            ('slowness', 3.3), ('phase', 'ScS'), ('event_depth', 601.),
            ('event_magnitude', 2.2), ('event_id', 'x'), ('inclination', 2.),
            ('station_latitude', 4.), ('station_elevation', -7.),
            ('event_time', UTC(1))) if ctx.p(.7)}
    bar = Bar() if ctx.p(.7) else None
    if ctx.p(.5):
        ctx.ev('catalog')
        evs = Catalog(events)
    else:
        evs = events
    out = []
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        extra = {'pbar': bar} if bar else {}
        for st in iter_event_data(evs, inv, src, **kw, **extra):
            out.append(st)
    judge_warnings(ctx, log, plan, failed)
    if bar:
        ctx.same('progress', (bar.total, bar.n), (pairs, pairs))
    # requests
    ctx.same('request', len(src.calls), len(plan), 'number of requests')
    left = list(plan)
    for key, s, e in src.calls:
        m = [p for p in left if p['key'] == key and
             abs(p['start'] - s) < 1e-4 and abs(p['end'] - e) < 1e-4]
        if ctx.ok('request', m, lambda: 'unexpected request %s %s %s' % (
                key, s, e)):
            left = [p for p in left if p is not m[0]]
    ctx.ok('request', not left, lambda: 'missing requests %s' % [
        (p['key'], str(p['start'])) for p in left])
    # deliveries
    for st in out:
        ctx.same('class', type(st).__name__, 'RFStream')
        if not ctx.same('components', len(st), 3):
            continue
        k0 = st[0].id.split('.')
        k0 = tuple(k0[:3] + [k0[3][:-1] + '?'])
        m = [p for p in plan if p['key'] == k0 and
             abs(p['stats'].onset - st[0].stats.onset) < 1e-4]
        if not ctx.ok('delivery', m, lambda: 'unexpected stream %s' % st):
            continue
        p = m[0]
        p['got'] += 1
        ctx.ok('faulty', not p['fault'], lambda: '%s delivered: %s' % (
            p['kind'], st))
        ctx.same('components', sorted(tr.stats.channel[-1] for tr in st),
                 sorted(p['comps']))
        for tr in st:
            ctx.same('same-pair', tr.id[:-1], st[0].id[:-1])
            h = {k: tr.stats.get(k) for k in p['stats']}
            ctx.same('headers', gen.snap(h), gen.snap(dict(p['stats'])))
            dt = 1 / sr
            ctx.ok('window', abs(tr.stats.starttime - p['window'][0]) <=
                   .5001 * dt or (kw.get('pad', 10) == 0 and abs(
                       tr.stats.starttime - p['window'][0]) < dt),
                   lambda: 'starts %s window %s' % (
                       tr.stats.starttime, p['window'][0]))
            ctx.ok('window', abs(tr.stats.endtime - p['window'][1]) <=
                   .5001 * dt or (kw.get('pad', 10) == 0 and abs(
                       tr.stats.endtime - p['window'][1]) < dt),
                   lambda: 'ends %s window %s' % (
                       tr.stats.endtime, p['window'][1]))
            i0 = int(round((tr.stats.starttime - src.t0) * sr))
            want = value(np.arange(i0, i0 + len(tr)), tr.stats.channel[-1])
            ctx.ok('data', not np.ma.is_masked(tr.data) and np.array_equal(
                tr.data, want), lambda: '%s %s' % (p['kind'], tr))
            ctx.same('sampling', tr.stats.sampling_rate, sr)
    for p in plan:
        ctx.ok('exactly-once', p['got'] == (0 if p['fault'] else 1),
               lambda: '%s data of %s delivered %d times' % (
                   p['kind'], p['key'], p['got']))


@case('metadata', 20, 600, 2)
def case_metadata(ctx):
    """each event-channel pair is listed once with its names and time"""
    from rf.util import iter_event_metadata
    stations, events = setup(ctx)
    inv = gen.inventory(stations)
    ids = []
    for s in stations:
        for loc, band, comps in s['locs']:
            if (s['net'], s['sta'], loc, band) not in ids:
                ids.append((s['net'], s['sta'], loc, band))
    if ctx.p(.3):
        events = None
    bar = Bar() if ctx.p(.7) else None
    ctx.desc = {'ids': ids, 'events': None if events is None else len(events)}
    evs = Catalog(events) if events and ctx.p(.5) else events
    got = list(iter_event_metadata(evs, inv, **({'pbar': bar} if bar else {})))
    want = []
    for i in ids:
        for ev in events or [None]:
            d = dict(zip(('network', 'station', 'location'), i))
            if ev is not None:
                d['event_time'] = (ev.preferred_origin() or
                                   ev.origins[0]).time
            want.append((d, i[3]))
    ctx.same('metadata', len(got), len(want), 'number')
    ctx.ok('metadata', len(set(map(id, got))) == len(got))
    for d, band in want:
        m = [g for g in got if {k: v for k, v in g.items() if k != 'channel'}
             == d and str(g.get('channel'))[:-1] == band]
        ctx.same('metadata', len(m), 1, '%s %s in %s' % (d, band, got[:3]))
    if bar:
        ctx.same('progress', (bar.total, bar.n), (len(want), len(want)))


@case('lazy', 10, 300, 2)
def case_lazy(ctx):
    """
    user modifications of delivered streams and interruption do not matter
    """
    from rf import iter_event_data
    for _ in range(20):
        stations, events = setup(ctx)
        plan, pairs, failed = expected_requests(ctx, stations, events, {})
        if plan:
            break
    else:
        return ctx.trivial()
    for p in plan:
        p.update(kind='exact', fault=False)
    inv = gen.inventory(stations)
    src = Source(ctx, plan, 2., 10)
    ctx.desc = {'plan': [(p['key'], str(p['start'])) for p in plan]}
    got = []
    for st in iter_event_data(events, inv, src):
        got.append((st[0].stats.onset.ns, st[0].id[:-1]))
        for tr in st:
            tr.data[:] = 0
            tr.stats.onset += 1000
            tr.stats.station = 'XXX'
    want = [(p['stats'].onset.ns, '.'.join(p['key'])[:-1]) for p in plan]
    ctx.same('modified', sorted(got), sorted(want))
    # fresh iteration delivers the same again
    it = iter_event_data(events, inv, src)
    st = next(it)
    ctx.ok('restart', (st[0].stats.onset.ns, st[0].id[:-1]) in want)
    it.close()
    # interrupts are not taken for missing data

    def interrupt(**kw):
        raise stop
    stop = ctx.choice([KeyboardInterrupt, SystemExit, GeneratorExit])()
    try:
        n = len(list(iter_event_data(events, inv, interrupt)))
    except BaseException as ex:
        ctx.ok('interrupt', ex is stop, lambda: repr(ex))
    else:
        ctx.ok('interrupt', False, lambda: '%r ignored, %d streams' % (
            stop, n))
