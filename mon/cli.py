"""
Synthetic data sets and helpers for the command line interface
"""
import contextlib
import io
import json
import os

import numpy as np
from obspy import Stream, Trace, UTCDateTime as UTC
from obspy.core.event import Catalog

from mon import gen

TF = '%Y-%m-%dT%H:%M:%S'


class Dataset(object):

    """events, stations and waveforms, written to files in path"""

    def __init__(self, ctx, path, phase='P', nsta=None, nev=None, sr=None,
                 window=(-35, 75), holes=True):
        from rf import rfstats
        self.path, self.phase, self.window = path, phase, window
        self.sr = sr = sr or ctx.choice([4., 5., 10.])
        lat, lon = ctx.u(-50, 50), ctx.u(-170, 170)
        names = ctx.choice([[('CX', 'PB1', ''), ('CX', 'PB10', ''),
                             ('CX', 'PB1', '00')],
                            [('X', 'A', '00'), ('X', 'A', '10'),
                             ('XX', 'A', '00')],
                            [('GE', 'ABCDE', ''), ('G', 'EABC', ''),
                             ('GE', 'ABC', '')]])
        nsta = nsta or ctx.i(1, 3)
        self.stations = []
        band = ctx.choice(['BH', 'BH', 'HH', 'EL'])
        for net, sta, loc in names[:nsta]:
            self.stations.append({
                'net': net, 'sta': sta, 'locs': [(loc, band, 'ZNE')],
                'lat': lat, 'lon': lon, 'elev': ctx.u(0, 3000)})
            if not (nsta > 1 and names[0][:2] == names[2][:2]):
                lat, lon = lat + ctx.u(-.5, .5), lon + ctx.u(-.5, .5)
        # stations with the same code have the same coordinates
        seen = {}
        for s in self.stations:
            seen.setdefault((s['net'], s['sta']), s)
            o = seen[(s['net'], s['sta'])]
            s.update(lat=o['lat'], lon=o['lon'], elev=o['elev'])
        rng = (35, 85) if phase == 'P' else (58, 80)
        nev = nev or ctx.i(1, 3)
        events, self.stream = [], Stream()
        t0 = UTC(1.25e9) + ctx.u(0, 1e7)
        for j in range(nev):
            dist, baz = ctx.u(*rng), ctx.u(0, 360)
            ela, elo = gen.coords_at(lat, lon, baz, dist)
            t = t0 + 86400 * (j + 1) + round(ctx.u(0, 30000), 3)
            ev = gen.event(ctx, time=t, decoys=ctx.p(.4), lat=round(ela, 4),
                           lon=round(elo, 4), depth=round(ctx.u(5, 400), 1),
                           mag=round(ctx.u(5, 8), 1), evid='smi:local/%d' % j)
            events.append(ev)
            for s in self.stations:
                last = j == nev - 1 and len(self.stream) == 0
                if holes and ctx.p(.1) and not last:
                    continue
                st = rfstats(event=ev, phase=phase, station={
                    'latitude': s['lat'], 'longitude': s['lon'],
                    'elevation': s['elev']})
                if st is None:
                    continue
                self.stream += self._data(ctx, s, st, holes)
        self.events = Catalog(events)
        self.inventory = gen.inventory(self.stations)
        self.write()

    def _data(self, ctx, s, stats, holes):
        sr = self.sr
        n = int((self.window[1] - self.window[0] + 60) * sr)
        i_on = int((30 - self.window[0]) * sr)
        # onset is neither on a sample nor in the middle of two samples
        frac = ctx.choice([.15, .25, .35, .65, .8])
        start = stats.onset - (i_on + frac) / sr
        src = gen.wavelet(ctx.rng, int(4 * sr), sr)
        baz, inc = np.radians([stats.back_azimuth, stats.inclination])
        L, Q, T = (.003 * gen.smooth_noise(ctx.rng, n, sr, sr / 5)
                   for _ in 'LQT')

        def add(d, delay, amp):
            i0 = i_on + int(round(delay * sr))
            if 0 <= i0 and i0 + len(src) < n:
                d[i0:i0 + len(src)] += amp * src
        main, conv = (L, Q) if self.phase == 'P' else (Q, L)
        add(main, 0, 1)
        sgn = 1 if self.phase == 'P' else -1
        for _ in range(3):
            add(conv, sgn * ctx.u(2, 20), ctx.u(-.4, .4))
        add(T, sgn * ctx.u(2, 20), .1)
        Z = np.cos(inc) * L - np.sin(inc) * Q
        R = np.sin(inc) * L + np.cos(inc) * Q
        N = -np.cos(baz) * R + np.sin(baz) * T
        E = -np.sin(baz) * R - np.cos(baz) * T
        out = []
        comps = list(zip('ZNE', (Z, N, E)))
        if holes and ctx.p(.05):
            comps = comps[:2]
        for c, d in comps:
            out.append(Trace(data=1000 * d, header={
                'network': s['net'], 'station': s['sta'],
                'location': s['locs'][0][0], 'channel': s['locs'][0][1] + c,
                'sampling_rate': sr, 'starttime': start}))
        return Stream(out)

    def write(self):
        p = self.path
        self.events.write(os.path.join(p, 'events.xml'), 'QUAKEML')
        self.inventory.write(os.path.join(p, 'inv.xml'), 'STATIONXML')
        self.stream.write(os.path.join(p, 'data.mseed'), 'MSEED')

    def load(self):
        """objects as read from the files"""
        import obspy
        p = self.path
        return (obspy.read_events(os.path.join(p, 'events.xml')),
                obspy.read_inventory(os.path.join(p, 'inv.xml')),
                obspy.read(os.path.join(p, 'data.mseed')))

    def api(self, options):
        """streams of iter_event_data"""
        from rf import iter_event_data
        events, inv, data = self.load()

        def get(network, station, location, channel, starttime, endtime):
            st = Stream([tr.copy() for tr in data.select(
                network=network, station=station, location=location,
                channel=channel)])
            return st.slice(starttime, endtime)
        return list(iter_event_data(events, inv, get, **options))

    def config(self, **kw):
        conf = {'events': 'events.xml', 'inventory': 'inv.xml',
                'data': 'data.mseed'}
        conf.update(kw)
        return conf


def write_conf(fname, conf, comments=True):
    text = json.dumps(conf, indent=1)
    if comments:
        lines = text.split('\n')
        lines = ['# comment "x": {'] + [
            x + ('  # c, } ' if i % 3 == 0 else '')
            for i, x in enumerate(lines)]
        text = '\n'.join(lines) + '\n#end'
    with open(fname, 'w') as f:
        f.write(text)


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def cli(*args):
    """run command line interface, returns (output, exit code)"""
    from rf.batch import run_cli
    out = io.StringIO()
    code = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            run_cli([str(a) for a in args])
        except SystemExit as ex:
            code = ex.code
    return out.getvalue(), code


def listing(path, top=''):
    out = []
    for root, _, files in os.walk(os.path.join(path, top)):
        for f in files:
            out.append(os.path.relpath(os.path.join(root, f), path))
    return sorted(out)


def fnames(root, fmt, stream, kind=None):
    """documented names of files for the traces of one stream"""
    names = set()
    for tr in stream:
        s = tr.stats
        sid = '%s.%s.%s' % (s.network, s.station, s.location)
        if fmt == 'H5':
            names.add(root + '.h5')
        elif kind == 'profile':
            if fmt == 'Q':
                names |= {root + '.QHD', root + '.QBN'}
            else:
                names.add('%s/profile_%s_%s.SAC' % (
                    root, s.channel[-1], s.box_pos))
        else:
            t = '' if kind == 'stack' else \
                '_' + s.event_time.datetime.strftime(TF)
            if fmt == 'Q':
                b = sid + '/' if kind != 'stack' else ''
                names |= {'%s/%s%s%s.%s' % (root, b, sid, t, e)
                          for e in ('QHD', 'QBN')}
            else:
                b = sid + '/' if kind != 'stack' else ''
                names.add('%s/%s%s.%s%s.SAC' % (root, b, sid, s.channel, t))
    return names


def read_all(path, names):
    """read all waveform files"""
    from rf import RFStream, read_rf
    st = RFStream()
    for n in sorted(names):
        if n.endswith('.QBN'):
            continue
        fmt = {'QHD': 'Q', 'SAC': 'SAC', '.h5': 'H5'}[n[-3:]]
        st += read_rf(os.path.join(path, n), fmt)
    return st


def roundtrip(ctx, stream, fmt):
    """what is kept of stream by the file format"""
    from rf import RFStream, read_rf
    d = ctx.tmpdir()
    out = RFStream()
    if len(stream) == 0:
        return out
    if fmt == 'SAC':
        for i, tr in enumerate(stream):
            f = os.path.join(d, '%d.SAC' % i)
            tr.write(f, fmt)
            out += read_rf(f, fmt)
        return out
    f = os.path.join(d, 'x.' + {'Q': 'QHD', 'H5': 'h5'}[fmt])
    stream.write(f, fmt)
    return read_rf(f, fmt)


def key(tr):
    s = tr.stats
    return (tr.id, s.event_time.ns // 10**8 if 'event_time' in s else None,
            round(s.box_pos, 3) if 'box_pos' in s else None)


def header(tr):
    return {k: v for k, v in gen.header_of(tr).items()
            if not isinstance(v, dict)}


def compare(ctx, clause, got, want, rtol=1e-6, atol=0, heads=True,
            start=True):
    """each trace of want once in got with same data and headers"""
    g, w = {}, {}
    for d, st in ((g, got), (w, want)):
        for tr in st:
            d.setdefault(key(tr), []).append(tr)
    ctx.same(clause + ':traces', sorted((str(k), len(v))
                                        for k, v in g.items()),
             sorted((str(k), len(v)) for k, v in w.items()))
    for k in w:
        if k not in g:
            continue
        a, b = g[k][0], w[k][0]
        if ctx.same(clause + ':npts', len(a), len(b), str(k)):
            ctx.close(clause + ':data', a.data, b.data, rtol=rtol, atol=atol,
                      msg=str(k))
        if start:
            ctx.ok(clause + ':start', abs(
                a.stats.starttime - b.stats.starttime) < 2e-3)
        if not heads:
            continue
        if b.stats.get('processing'):  # kept by H5
            ctx.same(clause + ':processing', [
                str(x).split(':')[-1].split('(')[0]
                for x in a.stats.get('processing', [])],
                [str(x).split(':')[-1].split('(')[0]
                 for x in b.stats.processing], str(k))
        ha, hb = header(a), header(b)
        skip = ('starttime', 'endtime', 'onset', 'event_time')
        for h in ('onset', 'event_time'):
            if h in hb:
                ctx.ok(clause + ':time', h in ha and abs(
                    ha[h] - hb[h]) < 2e-3, lambda: '%s %s %s' % (
                        h, ha.get(h), hb[h]))
        for h in sorted(set(ha) | set(hb)):
            if h in skip:
                continue
            x, y = ha.get(h), hb.get(h)
            if isinstance(y, (float, np.floating)) and x is not None:
                ctx.ok(clause + ':header', abs(x - y) <= 1e-6 * abs(y) +
                       1e-9, lambda: '%s %s: %r expected %r' % (k, h, x, y))
            else:
                ctx.ok(clause + ':header', gen.snap(x) == gen.snap(y) or
                       x == y, lambda: '%s %s: %r expected %r' % (
                           k, h, x, y))
