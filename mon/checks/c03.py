import warnings

import numpy as np
from obspy.core import AttribDict, Stats
from obspy import Stream, Trace
from obspy.taup import TauPyModel

from mon import gen, ref
from mon.checks.c15 import model as models
from mon.core import case
from rf import RFStream, rfstats
from rf.rfstream import RFTrace, obj2stats
from rf.simple_model import load_model

PROP = 'C03'
SCALE = 2
TECHNIQUE = 'online oracle on recorded calls: geodesics (geographiclib), TauP and event model recomputed independently for each call'
NOTE = 'held on sampled geometries; TauP travel times themselves are trusted'
RULE = ('random event/station pairs (global, poles, date line, random depth, '
        'decoy origins and magnitudes), phases and travel time models; five '
        'calling conventions per pair; non-trivial if ray parameters were '
        'compared; distinct by hash of coordinates and options')
ASSUMPTIONS = ['obspy.taup and geographiclib are correct']
REQUIRED = {'distance': 150, 'onset': 150, 'conv:stream': 9,
            'conv:objects': 45, 'pp': 48, 'preferred': 50, 'polar': 10,
            'multi-arrival': 3, 'changed:origin': 3,
            'changed:same-id': 3}

_TT = {}


def tt(model):
    if model not in _TT:
        _TT[model] = TauPyModel(model=model)
    return _TT[model]


def geometry(ctx, phase):
    lo, hi = {'P': (20, 95), 'S': (45, 90), 'PP': (60, 150),
              'SKS': (85, 130), 'PcP': (20, 80), 'ScS': (20, 80),
              'PKiKP': (20, 100), 'PcS': (20, 60), 'ScP': (20, 60),
              'PKS': (132, 139), 'SKP': (132, 139), 'SS': (60, 150),
              'Pdiff': (105, 140), 'PKIKP': (120, 165),
              'SKKS': (95, 130)}[phase]
    kind = ctx.i(0, 9)
    slat, slon = ctx.u(-85, 85), ctx.u(-180, 180)
    if kind == 0:
        slat = ctx.choice([90., -90., 89.9, -89.99])
        ctx.ev('polar')
    elif kind == 1:
        slon = ctx.choice([180., -180., 179.999, -179.999])
    elif kind == 2:
        slat, slon = 0., 0.
    az = ctx.choice([0., 90., 180., 270.]) if kind == 3 else ctx.u(0, 360)
    elat, elon = gen.coords_at(slat, slon, az, ctx.u(lo, hi))
    if kind == 4:
        elon = elon % 360  # 0...360 convention
    return slat, slon, elat, elon


def expected(event_par, sta, phase, model):
    km, baz = ref.inverse(sta[0], sta[1], event_par[0], event_par[1])
    deg = km / 111.2
    arr = tt(model).get_travel_times(event_par[2], deg, (phase,))
    return deg, baz, arr


def check(ctx, stats, e, sta, phase, model, msg):
    """e: dict of event parameters"""
    deg, baz, arr = expected((e['lat'], e['lon'], e['depth']), sta, phase,
                             model)
    a = arr[0]
    if len(arr) > 1:
        ctx.ev('multi-arrival')
    ctx.close('distance', stats['distance'], deg, atol=1e-8, msg=msg)
    ctx.close('back_azimuth', ref.angle_diff(stats['back_azimuth'], baz), 0,
              atol=1e-7, msg=msg)
    ctx.ok('back_azimuth-range', 0 <= stats['back_azimuth'] <= 360)
    ctx.close('slowness', stats['slowness'], a.ray_param * np.pi / 180,
              atol=1e-9, msg=msg)
    ctx.close('inclination', stats['inclination'], a.incident_angle,
              atol=1e-9, msg=msg)
    ctx.close('onset', stats['onset'] - e['time'], a.time, atol=2e-6, msg=msg)
    ctx.same('phase', stats['phase'], phase, msg)
    check_objects(ctx, stats, e, sta, msg)


def check_objects(ctx, stats, e, sta, msg):
    if e is not None:
        for h, k in (('event_latitude', 'lat'), ('event_longitude', 'lon'),
                     ('event_depth', 'depth'), ('event_magnitude', 'mag')):
            ctx.close(h, stats[h], e[k], atol=1e-9, msg=msg)
        ctx.same('event_time', stats['event_time'], e['time'], msg)
    if sta is not None:
        for h, x in zip(('station_latitude', 'station_longitude',
                         'station_elevation'), sta):
            ctx.close(h, stats[h], x, msg=msg)


def make(ctx, phase, above=False):
    slat, slon, elat, elon = geometry(ctx, phase)
    decoys = ctx.p(.5)
    e = {'lat': elat, 'lon': elon, 'depth': ctx.choice(
        [0., ctx.u(0, 50), ctx.u(0, 650)] if not above else [ctx.u(-3, 0)]),
        'mag': ctx.u(3, 9),
        'time': gen.utc(ctx, 10**8, 1.6 * 10**9)}
    if decoys:
        ctx.ev('preferred')
    ev = gen.event(ctx, decoys=decoys, evid='smi:verif/%d' % ctx.i(0, 10**9),
                   **{k: e[k] for k in ('time', 'lat', 'lon', 'depth',
                                        'mag')})
    sta = (slat, slon, ctx.u(-400, 5000))
    station = ctx.choice([dict, AttribDict])(
        latitude=sta[0], longitude=sta[1], elevation=sta[2], local_depth=3.)
    return e, ev, sta, station


def stale(ctx, phase):
    """Headers of an earlier call, these have to be replaced"""
    return {'onset': gen.utc(ctx), 'distance': ctx.u(30, 90),
            'back_azimuth': ctx.u(0, 360), 'inclination': ctx.u(0, 40),
            'slowness': ctx.u(4, 9), 'phase': ctx.choice([phase, 'SKKS'])}


@case('rays', 90, 2500)
def rays(ctx):
    phase = ctx.choice(['P', 'P', 'P', 'S', 'S', 'PP', 'SKS', 'PcP', 'ScS',
                        'PKiKP', 'SS', 'Pdiff', 'PKIKP', 'SKKS'])
    model = ctx.choice(['iasp91', 'iasp91', 'ak135', 'prem'])
    e, ev, sta, station = make(ctx, phase)
    ctx.desc = {'phase': phase, 'model': model, 'event': str(e),
                'station': sta}
    ctx.sig(phase, model, round(e['depth'], -2))
    kw = {'phase': phase, 'tt_model': model, 'dist_range': None}
    if model == 'iasp91' and ctx.p(.3):
        kw.pop('tt_model')
    if phase == 'P' and ctx.p(.3):
        kw.pop('phase')
    deg, baz, arr = expected((e['lat'], e['lon'], e['depth']), sta, phase,
                             model)
    if len(arr) == 0:
        ctx.raises('no-arrival', rfstats, event=ev, station=station, **kw)
        return
    convs = ['objects', 'obj+event', 'obj+station', 'obj', 'obj+both']
    for conv in convs:
        if conv == 'objects':
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter('always')
                s = rfstats(event=ev, station=station, **kw)
            ctx.same('warning', any('arrival' in str(w.message)
                                    for w in log), len(arr) > 1)
        elif conv == 'obj+event':
            obj = AttribDict({'station_latitude': sta[0],
                              'station_longitude': sta[1],
                              'station_elevation': sta[2], 'other': 5,
                              'event_latitude': -1., 'event_magnitude': 1.})
            s = rfstats(obj, event=ev, **kw)
        elif conv == 'obj+station':
            obj = Stats({'event_latitude': e['lat'],
                         'event_longitude': e['lon'],
                         'event_depth': e['depth'], 'event_time': e['time'],
                         'event_magnitude': e['mag'], 'other': 5,
                         'station_latitude': 1.})
            s = rfstats(obj, station=station, **kw)
        elif conv == 'obj':
            obj = Stats()
            obj.update(obj2stats(event=ev, station=station))
            obj.other = 5
            if ctx.p(.5):
                obj.update(stale(ctx, phase))
            s = rfstats(obj, **kw)
        else:
            obj = Stats(dict(stale(ctx, phase), other=5))
            s = rfstats(obj, event=ev, station=station, **kw)
        ctx.ev('conv:' + conv)
        if not ctx.ok('result', s is not None, conv):
            continue
        check(ctx, s, e, sta, phase, model, conv)
        if conv != 'objects':
            ctx.ok('same-object', s is obj, conv)
            ctx.same('kept', s.get('other'), 5, conv)
        if conv in ('objects', 'obj+event', 'obj+both'):
            ctx.same('event_id', s.event_id, str(ev.resource_id), conv)


@case('obj2stats', 60, 2000)
def objects(ctx):
    e, ev, sta, station = make(ctx, 'P', above=ctx.p(.2))
    use_e, use_s = ctx.choice([(1, 1), (1, 0), (0, 1), (0, 0)])
    ctx.desc = {'event': str(e), 'station': sta, 'use': (use_e, use_s)}
    ctx.sig(use_e, use_s)
    s = obj2stats(event=ev if use_e else None,
                  station=station if use_s else None)
    check_objects(ctx, s, e if use_e else None, sta if use_s else None, '')
    ctx.ok('only-requested', bool(use_e) == ('event_time' in s) and
           bool(use_s) == ('station_latitude' in s), lambda: s)
    if use_e:
        ctx.same('event_id', s.event_id, str(ev.resource_id))


@case('changed', 30, 800)
def changed(ctx):
    """Values of event and station objects at the time of the call are used"""
    e, ev, sta, station = make(ctx, 'P')
    e2, ev2, sta2, station2 = make(ctx, 'P')
    how = ctx.choice(['origin', 'preferred', 'same-id', 'station'])
    ctx.desc = {'how': how, 'event': str((e, e2)), 'station': (sta, sta2)}
    ctx.sig(how)
    rfstats(event=ev, station=station, dist_range=None)
    obj2stats(event=ev, station=station)
    if how == 'station':
        sta2 = (sta2[0], sta[1], sta2[2])
        station.update({'latitude': sta2[0], 'elevation': sta2[2]})
        use, use_sta, e2 = ev, station, e
    elif how == 'origin':
        o, o2 = (x.preferred_origin() or x.origins[0] for x in (ev, ev2))
        for k in ('latitude', 'longitude', 'depth', 'time'):
            o[k] = o2[k]
        (ev.preferred_magnitude() or ev.magnitudes[0]).mag = e2['mag']
        use, use_sta = ev, station2
    elif how == 'preferred':
        o2 = ev2.preferred_origin() or ev2.origins[0]
        m2 = ev2.preferred_magnitude() or ev2.magnitudes[0]
        ev.origins.append(o2)
        ev.magnitudes.append(m2)
        ev.preferred_origin_id = o2.resource_id
        ev.preferred_magnitude_id = m2.resource_id
        use, use_sta = ev, station2
    else:
        ev2.resource_id = str(ev.resource_id)
        use, use_sta = ev2, station2
    sta = sta2
    ctx.ev('changed:' + how)
    check_objects(ctx, obj2stats(event=use, station=use_sta), e2, sta, how)
    if len(expected((e2['lat'], e2['lon'], e2['depth']), sta, 'P',
                    'iasp91')[2]):
        s = rfstats(event=use, station=use_sta, dist_range=None)
        check(ctx, s, e2, sta, 'P', 'iasp91', how)


@case('piercing', 40, 1200)
def piercing(ctx):
    phase = ctx.choice(['P', 'S', 'PP', 'SKS', 'PcS', 'ScP', 'PKS', 'SKP'])
    e, ev, sta, station = make(ctx, phase)
    depth = ctx.choice([0., 35., 50., 410., 660., ctx.u(1, 300)])
    pp_phase = ctx.choice([None, None, 'P', 'S', 'PPS', 'PSS'])
    if 'S' in phase and depth > 300:
        depth = 40.
    mkw, lay = (models(ctx) if ctx.p(.4) else ({}, ref.iasp91()))
    if mkw:
        depth = ctx.u(1, 100)
    ctx.desc = {'phase': phase, 'depth': depth, 'pp_phase': pp_phase,
                'model': bool(mkw), 'event': str(e), 'station': sta}
    ctx.sig(phase, pp_phase)
    s = rfstats(event=ev, station=station, phase=phase, dist_range=None,
                pp_depth=depth, pp_phase=pp_phase, **mkw)
    want = pp_phase or ('S' if phase[-1] == 'P' else 'P')
    st = {'station_latitude': sta[0], 'station_longitude': sta[1],
          'back_azimuth': s['back_azimuth'], 'slowness': s['slowness']}
    load_model(**{'fname': v for v in mkw.values()}).ppoint(
        st, depth, phase=want)
    ctx.same('pp', s['pp_depth'], depth)
    ctx.close('pp', [s['pp_latitude'], s['pp_longitude']],
              [st['pp_latitude'], st['pp_longitude']], atol=1e-9)
    dist, az = ref.inverse(sta[0], sta[1], s['pp_latitude'],
                           s['pp_longitude'])
    m = lay
    want_km = [m.distance(s['slowness'], want, depth, shift=k)
               for k in (0, 1)]
    if np.isnan(want_km).any():  # ray turns above depth
        return
    ctx.ok('pp-distance', min(want_km) - 1e-3 <= dist <= max(want_km) + 1e-3,
           lambda: '%s not in %s' % (dist, want_km))
    s = rfstats(event=ev, station=station, phase=phase, dist_range=None)
    ctx.ok('pp-none', 'pp_depth' not in s and 'pp_latitude' not in s)


@case('stream', 25, 700)
def stream(ctx):
    """Stream form gives the same values as for single stats objects"""
    phase = ctx.choice(['P', 'S'])
    traces, par = [], []
    for k in range(ctx.i(1, 4)):
        e, ev, sta, station = make(ctx, phase)
        comp = ctx.choice('ZNE')
        tr = RFTrace(data=np.arange(5.) + k, header={'channel': gen.band_code(ctx) + comp})
        tr.stats.update(obj2stats(event=ev, station=station))
        if ctx.p(.5):
            tr.stats.update(stale(ctx, phase))
        traces.append(tr)
        par.append((e, ev, sta, station))
    how = ctx.choice(['headers', 'event', 'station', 'both'])
    kw = {'phase': phase, 'dist_range': None}
    if how in ('event', 'both'):
        kw['event'] = par[0][1]
        par = [(par[0][0],) + p[1:] for p in par]
    if how in ('station', 'both'):
        kw['station'] = par[0][3]
        par = [p[:2] + par[0][2:] for p in par]
    # combinations of events and stations may lie in the shadow zone
    for e, ev, sta, station in par:
        _, _, arr = expected((e['lat'], e['lon'], e['depth']), sta, phase,
                             'iasp91')
        if len(arr) == 0:
            return ctx.trivial()
    pp = ctx.p(.4)
    if pp:
        kw['pp_depth'] = 40.
    cls = ctx.choice([RFStream, Stream])
    st = cls(traces)
    ctx.desc = {'phase': phase, 'how': how, 'n': len(st), 'pp': pp,
                'cls': cls.__name__, 'par': str([(p[0], p[2]) for p in par])}
    ctx.sig(phase, how, cls.__name__, pp)
    ret = rfstats(st, **kw)
    ctx.ev('conv:stream')
    ctx.ok('same-object', ret is st)
    ctx.same('number', len(ret), len(traces))
    for tr, (e, ev, sta, station), k in zip(ret, par, range(99)):
        check(ctx, tr.stats, e, sta, phase, 'iasp91', 'stream ' + how)
        ctx.close('waveform', tr.data, np.arange(5.) + k)
        ctx.ok('pp-none', pp == ('pp_depth' in tr.stats))
        if pp:
            s = {'station_latitude': sta[0], 'station_longitude': sta[1],
                 'back_azimuth': tr.stats.back_azimuth,
                 'slowness': tr.stats.slowness}
            load_model().ppoint(s, 40., phase={'P': 'S', 'S': 'P'}[phase])
            ctx.close('pp', [tr.stats.pp_latitude, tr.stats.pp_longitude],
                      [s['pp_latitude'], s['pp_longitude']], atol=1e-9)
