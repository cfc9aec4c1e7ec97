"""
Workload generators
"""
import numpy as np
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict
from obspy.core.event import (Catalog, Event, Magnitude, Origin,
                              ResourceIdentifier)
from obspy.core.inventory import (Channel, Inventory, Network, Site, Station)

DEG2KM = 111.2


def utc(ctx, a=0, b=2**31 - 1):
    """random time with microsecond resolution"""
    return UTC(int(ctx.rng.integers(a, b))) + round(ctx.u(0, 1), 6)


def wavelet(rng, n, sr, fmax=None):
    """random smooth, zero ended wavelet with n samples"""
    from scipy.signal import butter, sosfiltfilt
    w = rng.normal(size=4 * n)
    fmax = fmax or 0.35 * sr / 2
    sos = butter(3, min(0.9, fmax / (sr / 2)), output='sos')
    w = sosfiltfilt(sos, w)[int(1.5 * n):int(1.5 * n) + n]
    w = w * np.hanning(n + 2)[1:-1]
    return w / np.max(np.abs(w))


def smooth_noise(rng, n, sr, fmax):
    from scipy.signal import butter, sosfiltfilt
    w = rng.normal(size=n + 200)
    sos = butter(3, min(0.95, fmax / (sr / 2)), output='sos')
    w = sosfiltfilt(sos, w)[100:100 + n]
    return w / np.std(w)


def coords_at(lat, lon, az, dist_deg):
    """point at given azimuth and distance (degree, 111.2 km each)"""
    from geographiclib.geodesic import Geodesic
    g = Geodesic.WGS84.Direct(lat, lon, az, dist_deg * DEG2KM * 1000)
    return g['lat2'], g['lon2']


def station_code(ctx):
    n = ctx.i(1, 5)
    return ''.join(ctx.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
                   for _ in range(n))


def band_code(ctx):
    return ctx.choice(['BH', 'BH', 'HH', 'SH', 'LH', 'EL', 'HN'])


def seed_id(ctx, comp=None):
    net = ctx.choice(['CX', 'GE', 'X', 'ZQ', '7A'])
    loc = ctx.choice(['', '', '00', '10', 'A1'])
    cha = ctx.choice(['BH', 'HH', 'SH', 'LL', 'EL']) + (comp or 'Z')
    return net, station_code(ctx), loc, cha


def ray_header(ctx, method='P', event_time=None, station=None):
    """consistent looking ray header without ray tracing"""
    if station is None:
        station = (ctx.u(-60, 60), ctx.u(-179, 179), ctx.u(-100, 4000))
    dist = ctx.u(31, 89) if method == 'P' else ctx.u(56, 84)
    baz = ctx.u(0, 360)
    lat, lon = coords_at(station[0], station[1], baz, dist)
    if event_time is None:
        event_time = utc(ctx, 10**9, 1.5 * 10**9)
    if method == 'P':
        slow = 8.8 - 4.3 * (dist - 30) / 60 + ctx.u(-.1, .1)
        inc = np.degrees(np.arcsin(min(0.99, 5.8 * slow / DEG2KM)))
        tt = 370 + 6.7 * (dist - 30)
    else:
        slow = 15.5 - 3.5 * (dist - 50) / 35 + ctx.u(-.1, .1)
        inc = np.degrees(np.arcsin(min(0.99, 3.36 * slow / DEG2KM)))
        tt = 1000 + 13 * (dist - 50)
    return {'station_latitude': station[0], 'station_longitude': station[1],
            'station_elevation': station[2],
            'event_latitude': lat, 'event_longitude': lon,
            'event_depth': ctx.u(0, 600), 'event_magnitude': ctx.u(4, 9),
            'event_time': event_time, 'distance': dist, 'back_azimuth': baz,
            'inclination': float(inc), 'slowness': float(slow),
            'onset': event_time + tt + round(ctx.u(-5, 5), 3),
            'phase': method}


def data_stream(ctx, nev=1, comps='ZNE', method='P', sr=None, npts=None,
                onset=None, ids=None, station=None, signal=True, dtype=float,
                order='random'):
    """
    Stream with traces of nev events for one station (id) or several.

    :param ids: list of (net, sta, loc, band) and optional
        station coordinates
    """
    from rf import RFStream
    from rf.rfstream import RFTrace
    sr = sr or ctx.choice([2., 4., 5., 10., 20.])
    traces = []
    ids = ids or [seed_id(ctx)[:3] + (band_code(ctx),)]
    t0 = 10**9 + int(ctx.rng.integers(0, 10**8))
    for k, (net, sta, loc, band) in enumerate(ids):
        coord = station or (ctx.u(-60, 60), ctx.u(-179, 179),
                            ctx.u(-100, 4000))
        for j in range(nev):
            n = npts or ctx.i(int(60 * sr), int(90 * sr))
            h = ray_header(ctx, method, station=coord,
                           event_time=UTC(t0 + 86400 * (j + 1) + 3600 * k) +
                           round(ctx.u(0, 1), 6))
            on = onset if onset is not None else ctx.u(0.3, 0.5) * n / sr
            start = h['onset'] - on
            src = wavelet(ctx.rng, int(5 * sr), sr)
            spikes = {c: [(0., a)] + [(ctx.u(1, 20), ctx.u(-.5, .5))
                                      for _ in range(3)]
                      for c, a in zip(comps, [1.] + [
                          ctx.u(-.6, .6) for _ in range(
                              max(2, len(comps) - 1))])}
            for c in comps:
                d = 0.01 * smooth_noise(ctx.rng, n, sr, sr / 4)
                if signal:
                    for delay, amp in spikes[c]:
                        i0 = int(round((on + delay) * sr)) - len(src) // 2
                        a, b = max(0, i0), min(n, i0 + len(src))
                        if b > a:
                            d[a:b] += amp * src[a - i0:b - i0]
                if dtype is not float:
                    d = (d * 10000).astype(dtype)
                head = {'network': net, 'station': sta, 'location': loc,
                        'channel': band + c, 'sampling_rate': sr,
                        'starttime': start}
                head.update(h)
                traces.append(RFTrace(data=d, header=head))
    if order == 'random':
        traces = [traces[i] for i in ctx.rng.permutation(len(traces))]
    return RFStream(traces)


def event(ctx, time=None, lat=None, lon=None, depth=None, mag=None,
          decoys=False, evid=None):
    """QuakeML event, depth in km, decoys: additional origins, magnitudes"""
    time = time or utc(ctx, 10**9, 1.5 * 10**9)
    lat = ctx.u(-90, 90) if lat is None else lat
    lon = ctx.u(-180, 180) if lon is None else lon
    depth = ctx.u(0, 600) if depth is None else depth
    mag = ctx.u(4, 9) if mag is None else mag
    o = Origin(time=time, latitude=lat, longitude=lon, depth=1000 * depth)
    m = Magnitude(mag=mag)
    ev = Event(origins=[o], magnitudes=[m])
    if evid:
        ev.resource_id = ResourceIdentifier(evid)
    if decoys:
        o2 = Origin(time=time + 1000, latitude=-lat / 2, longitude=lon / 3,
                    depth=depth * 500 + 7777)
        m2 = Magnitude(mag=mag / 2)
        kind = ctx.choice(['preferred_last', 'first', 'preferred_first'])
        if kind == 'preferred_last':
            ev.origins = [o2, o]
            ev.magnitudes = [m2, m]
        else:
            ev.origins = [o, o2]
            ev.magnitudes = [m, m2]
        if kind != 'first':
            ev.preferred_origin_id = o.resource_id
            ev.preferred_magnitude_id = m.resource_id
    return ev


def inventory(stations):
    """
    stations: list of dicts with net, sta, locs (list of (loc, band, comps)),
    lat, lon, elev, start, end
    """
    nets = {}
    for s in stations:
        chans = []
        for loc, band, comps in s['locs']:
            for c in comps:
                chans.append(Channel(
                    code=band + c, location_code=loc, latitude=s['lat'],
                    longitude=s['lon'], elevation=s['elev'], depth=0.,
                    azimuth=0., dip=0., sample_rate=s.get('sr', 10.),
                    start_date=s.get('start', UTC(0)),
                    end_date=s.get('end')))
        nets.setdefault(s['net'], []).append(Station(
            code=s['sta'], latitude=s['lat'], longitude=s['lon'],
            elevation=s['elev'], channels=chans, site=Site(name='x'),
            creation_date=s.get('start', UTC(0)),
            start_date=s.get('start', UTC(0)), end_date=s.get('end')))
    return Inventory(networks=[Network(code=n, stations=st)
                               for n, st in nets.items()], source='verif')


def snap(obj):
    """Deep immutable snapshot of streams, traces, stats, arrays, dicts"""
    from obspy import Stream, Trace
    if isinstance(obj, Stream):
        return ('stream', type(obj).__name__,
                tuple(snap(tr) for tr in obj))
    if isinstance(obj, Trace):
        return ('trace', type(obj).__name__, snap(obj.data), snap(obj.stats))
    if isinstance(obj, np.ndarray):
        return ('array', str(obj.dtype), obj.shape,
                np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, (dict, AttribDict)) or hasattr(obj, 'keys'):
        return ('dict', tuple(sorted(
            (str(k), snap(obj[k])) for k in obj.keys())))
    if isinstance(obj, (list, tuple)):
        return ('list', tuple(snap(x) for x in obj))
    if isinstance(obj, UTC):
        return ('utc', obj.ns)
    if hasattr(obj, 'wkb'):
        return ('geom', obj.wkb)
    if isinstance(obj, (int, float, str, bytes, bool, type(None), complex)):
        return obj
    if isinstance(obj, np.generic):
        return ('np', str(obj.dtype), obj.tobytes())
    return ('repr', repr(obj))


def header_of(tr, exclude=('processing', 'sac', 'sh', 'hdf', 'mseed',
                           '_format')):
    """plain dict of the stats of a trace"""
    return {k: tr.stats[k] for k in tr.stats.keys() if k not in exclude}
