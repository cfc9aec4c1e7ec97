"""
C27: results do not depend on what has been computed before in the process
"""
import os
import pickle
import re
import time
import warnings

import numpy as np
from obspy import Stream, Trace
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict

from mon import core, gen, perturb
from mon.core import case

PROP = 'C27'
TECHNIQUE = 'runtime monitor of histories of calls in one process, oracle is the same call alone in a fresh process (differential observation)'
NOTE = 'held on sampled histories of up to 14 calls out of 27 kinds of operations'
RULE = ('random sequences of calls with shared inputs and varying parameters, '
        'failing calls in between, returned objects are modified afterwards; '
        'each call is also made in a fresh process and twice in the history')
ASSUMPTIONS = ['files with the same name have the same content in a history']
REQUIRED = {'history': 100, 'again': 26, 'failing': 10, 'mutated': 60,
            'example': 10, 'same-inputs': 60,
            'interpreter': 60, 'overlap': 60}


# -- plain representation of results

def plain(obj):
    if isinstance(obj, Stream):
        return ['stream', type(obj).__name__, [plain(tr) for tr in obj]]
    if isinstance(obj, Trace):
        return ['trace', type(obj).__name__, np.array(obj.data),
                plain(dict(obj.stats))]
    if isinstance(obj, np.ndarray):
        return np.array(obj)
    if isinstance(obj, (dict, AttribDict)) or hasattr(obj, 'keys'):
        return {str(k): plain(obj[k]) for k in obj.keys()
                if k not in ('_format', 'hdf', 'sac', 'sh')}
    if isinstance(obj, (list, tuple)):
        return [plain(x) for x in obj]
    if isinstance(obj, UTC):
        return 'utc:%d' % obj.ns
    if hasattr(obj, 'wkt'):
        return list(np.asarray(obj.exterior.coords).ravel())
    if isinstance(obj, (np.generic,)):
        return obj.item()
    if isinstance(obj, str):  # without addresses of objects
        return re.sub(' at 0x[0-9a-fA-F]+', '', obj)
    if isinstance(obj, (int, float, complex, bytes, type(None))):
        return obj
    return plain(repr(obj))


def differ(a, b, path=''):
    """first difference of plain representations or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return path + ': keys %s' % sorted(set(a) ^ set(b))
        for k in sorted(a):
            d = differ(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + ': number %d, %d' % (len(a), len(b))
        for j, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, path + '[%d]' % j)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return path + ': %s %s, %s %s' % (a.shape, a.dtype, b.shape,
                                              b.dtype)
        if a.size and a.dtype.kind in 'fc':
            tol = 1e-8 * np.nanmax(np.abs(b)) if np.any(b == b) else 0
            if not np.allclose(a, b, rtol=0, atol=tol, equal_nan=True):
                return path + ': arrays differ by %g' % np.nanmax(
                    np.abs(a - b))
        elif not np.array_equal(a, b):
            return path + ': arrays differ'
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * abs(b):
            return None
        return path + ': %r, %r' % (a, b)
    if type(a) is not type(b) or a != b:
        return path + ': %s, %s' % (core.short(a, 200), core.short(b, 200))


def spoil(obj, depth=0):
    """modify everything which was returned to the user"""
    if depth > 6:
        return
    if isinstance(obj, Stream):
        for tr in obj:
            spoil(tr)
        obj.traces[:] = []
    elif isinstance(obj, Trace):
        spoil(obj.data)
        for k in list(obj.stats.keys()):
            if isinstance(obj.stats[k], list):
                obj.stats[k].append('spoiled')
            elif isinstance(obj.stats[k], (dict, AttribDict)):
                spoil(obj.stats[k], depth + 1)
            elif k not in ('npts', 'delta', 'sampling_rate', 'starttime',
                           'endtime', 'network', 'station', 'location',
                           'channel', 'calib', 'component'):
                obj.stats[k] = 1e5
    elif isinstance(obj, np.ndarray):
        if obj.flags.writeable and obj.dtype.kind in 'fci':
            obj += 77
    elif isinstance(obj, (dict, AttribDict)):
        for v in list(obj.values()):
            spoil(v, depth + 1)
        for k in list(obj.keys()):
            obj[k] = 1e5
    elif isinstance(obj, list):
        for v in obj:
            spoil(v, depth + 1)
        obj.append('spoiled')
    elif isinstance(obj, tuple):
        for v in obj:
            spoil(v, depth + 1)


# -- inputs

class World(object):

    """inputs shared by the operations of a history, built anew each time"""

    def __init__(self, seed, path):
        self.seed, self.path = seed, path
        self.kept = {}
        self.c = c = core.Ctx('C27', 'world', seed, 0, 'quick', path)
        self.lat, self.lon = c.u(-50, 50), c.u(-170, 170)
        self.events = []
        for j in range(2):
            la, lo = gen.coords_at(self.lat, self.lon, c.u(0, 360),
                                   c.u(60, 80))
            self.events.append(gen.event(
                c, lat=la, lon=lo, depth=c.u(10, 300), mag=c.u(5, 7),
                evid='smi:local/%d' % j))
        self.stations = [{'latitude': self.lat, 'longitude': self.lon,
                          'elevation': 100. + j} for j in range(2)]
        self.stations[1]['latitude'] += .7
        self.sr = c.choice([4., 5.])

    def once(self, key, f):
        """the same object for all operations of the history"""
        if key not in self.kept:
            self.kept[key] = f()
        return self.kept[key]

    def models(self):
        names = ['iasp91']
        for j in range(2):
            f = os.path.join(self.path, 'models%d' % j, 'model.dat')
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if not os.path.exists(f):
                with open(f, 'w') as fh:
                    for k in range(12):
                        fh.write('%g %g %g%s\n' % (
                            k * (30 + 10 * j), 5.5 + .25 * k + j * .2,
                            3.1 + .16 * k - j * .1, ' 3' if j else ''))
            names.append(f)
        return names

    def raw(self, method='P', nev=2, comps='ZNE'):
        c = core.Ctx('C27', 'raw', self.seed, 1, 'quick', self.path)
        return gen.data_stream(
            c, nev=nev, comps=comps, method=method, sr=self.sr,
            npts=int(70 * self.sr), onset=31.3, order='',
            station=(self.lat, self.lon, 10.))

    def rfs(self, method='P', comps='LQT', nev=3):
        from rf import RFStream
        c = core.Ctx('C27', 'rfs', self.seed, 2, 'quick', self.path)
        st = gen.data_stream(
            c, nev=nev, comps=comps, method=method, sr=2., npts=140,
            onset=20., order='', station=(self.lat, self.lon, 10.))
        for j, tr in enumerate(st):
            tr.stats.type = 'rf'
            tr.stats.tag = j
        assert isinstance(st, RFStream)
        return st


# -- operations op(world, ctx with random parameters)

def op_delay_times(w, c):
    from rf.simple_model import load_model
    m = load_model(c.choice(w.models()))
    p = c.choice([5.5, 6.4, 7.7])
    return m.calculate_delay_times(p, phase=c.choice(['PS', 'Ps', 'Ppps']))


def op_stretch(w, c):
    from rf.simple_model import load_model
    m = load_model(c.choice(w.models()))
    return m.stretch_delay_times(c.choice([5.5, 7.7]),
                                 phase=c.choice(['Ps', 'Ps', 'Ppps', 'Sp']),
                                 ref=c.choice([6.4, 6.4, 5.9, 6, 5]))


def op_layers(w, c):
    from rf.simple_model import load_model
    m = load_model(c.choice(w.models()))
    return [np.array(m.z), np.array(m.vp), np.array(m.vs), np.array(m.dz)]


def op_vertical(w, c):
    from rf.simple_model import load_model
    m = load_model(c.choice(w.models()))
    return m.calculate_vertical_slowness(c.choice([5.5, 7.7, 11]),
                                         phase=c.choice(['PS', 'S', 'P']))


def op_ppoint_distance(w, c):
    from rf.simple_model import load_model
    m = load_model(c.choice(w.models()))
    return m.ppoint_distance(c.choice([50, 120.]), c.choice([6.4, 7.7]),
                             phase=c.choice('PS'))


def op_moveout(w, c):
    m = c.choice('PPS')
    st = w.rfs(m)
    if c.p(.3):
        st = st[:1]
    kw = {}
    if c.p(.6):
        kw['phase'] = c.choice(['Ps', 'Ppps', 'Ppss'] if m == 'P' else
                               ['Sp', 'Ssps'])
    elif m == 'S':
        kw['phase'] = 'Sp'
    if c.p(.5):
        kw['ref'] = c.choice([5.9, 6.4, 7.])
    if c.p(.6):
        kw['model'] = c.choice(w.models())
    return st.moveout(**kw)


def op_ppoints(w, c):
    st = w.rfs(c.choice('PPS'))
    kw = {}
    if c.p(.5):
        kw['pp_phase'] = c.choice(['P', 'S'])
    if c.p(.6):
        kw['model'] = c.choice(w.models())
    ret = st.ppoints(c.choice([50, 80., 150]), **kw)
    return [ret, st]


def op_rfstats(w, c):
    from rf import rfstats
    kw = {}
    if c.p(.3):
        kw['tt_model'] = 'ak135'
    if c.p(.3):
        kw['pp_depth'] = c.choice([50, 100])
    if c.p(.3):
        kw['model'] = c.choice(w.models())
    return rfstats(event=c.choice(w.events), station=c.choice(w.stations),
                   phase=c.choice(['P', 'P', 'S']), **kw)


def op_rfstats_stream(w, c):
    from rf import rfstats
    st = w.raw()
    if c.p(.5):
        ev = c.choice(w.events)
        for tr in st:
            for k in list(tr.stats.keys()):
                if k.startswith(('event_', 'station_')) or k in (
                        'onset', 'distance', 'slowness'):
                    del tr.stats[k]
        return rfstats(st, event=ev, station=c.choice(w.stations),
                       phase=c.choice(['P', 'S']))
    ret = rfstats(st, phase=c.choice(['P', 'P', 'S']))
    return [ret, st]


def op_rf(w, c):
    m = c.choice('PPS')
    st = w.raw(m, nev=1)
    kw = {'deconvolve': c.choice(['time', 'waterlevel', 'iterative',
                                  'multitaper', 'time'])}
    if kw['deconvolve'] == 'iterative':
        kw['itmax'] = 15
    if c.p(.5) and kw['deconvolve'] != 'multitaper':
        kw['winsrc'] = w.once('winsrc', lambda: [-5, 20, 5])
    if c.p(.3):
        kw['rotate'] = 'NE->RT'
    if c.p(.3):
        kw['filter'] = w.once('filter', lambda: {
            'type': 'bandpass', 'freqmin': .1, 'freqmax': .8})
    if c.p(.3):
        kw['trim'] = w.once('trim', lambda: [-25, 33])
    if kw['deconvolve'] == 'multitaper' and m == 'P' and c.p(.6):
        kw.pop('rotate', None)
        kw['noise'] = w.once('noise', lambda: w.raw('P', nev=1).rotate(
            'ZNE->LQT').slice2(-30, -5, 'onset').copy())
    if c.p(.2):
        kw['normalize'] = c.choice([0, None])
    return st.rf(**kw)


def op_deconvolve(w, c):
    st = w.raw('P', nev=1, comps='LQT')
    return st.deconvolve(c.choice(['time', 'waterlevel']),
                         source_components='L')


def op_deconv_array(w, c):
    from rf import deconvolve as d
    rng = np.random.default_rng(w.seed)
    n = c.choice([128, 128, 96])
    rsp, src, noise = w.once(('arrays', n), lambda: (
        rng.normal(size=(2, n)), rng.normal(size=n), rng.normal(size=(2, n))))
    k = c.i(0, 3)
    if k == 0:
        return d.deconv_time([rsp[0], rsp[1]], src, c.choice([0, 20]),
                             spiking=c.choice([1, 5.]))
    if k == 1:
        return d.deconv_waterlevel([rsp[0], src], src, 4., tshift=c.choice(
            [0, 5.]), gauss=c.choice([.5, 1.]))
    if k == 2:
        return d.deconv_iterative([rsp[0]], src, 4., itmax=c.choice([5, 8]),
                                  gauss=c.choice([.5, 1.]))
    return d.deconv_multitaper([rsp[0], rsp[1]], src[:n // 2], noise, 4., 5.,
                               K=c.choice([3, 3, 2]))


def op_stack(w, c):
    key = c.choice('PS'), c.choice([2, 3])
    return w.once(('stack', key), lambda: w.rfs(key[0], nev=key[1])).stack()


def op_boxes(w, c):
    from rf import get_profile_boxes
    return get_profile_boxes((w.lat, w.lon), c.choice([90, 45.]),
                             c.choice([(-50, 0, 50), (0, 50, 100)]),
                             width=c.choice([100, 500]))


def op_profile(w, c):
    from rf import get_profile_boxes
    st = w.once('profile', lambda: w.rfs('P'))
    st.ppoints(c.choice([50, 100]))
    key = c.choice([90, 45.]), c.choice([(-100, -50, 0, 50, 100),
                                         (-80, 0, 80)])
    boxes = w.once(('boxes', key), lambda: get_profile_boxes(
        (w.lat, w.lon), *key))
    return st.profile(boxes)


def op_harmonics(w, c):
    import rf.harmonics  # noqa
    st = w.once('harmonics', lambda: w.rfs('P', nev=5))
    return st.harmonics(components=c.choice(['Q', 'QT', 'T']),
                        azim=c.choice([0, 30]),
                        method=c.choice(['time', 'freq']))


def op_read(w, c):
    from rf import read_rf
    return read_rf()


def op_example(w, c):
    from rf.util import minimal_example_rf
    st = minimal_example_rf()
    return st if c.p(.7) else st.select(component='Q')


def op_example_s(w, c):
    from rf.util import minimal_example_Srf
    return minimal_example_Srf()


def op_write_read(w, c):
    import tempfile
    from rf import read_rf
    d = tempfile.mkdtemp(dir=w.path)
    fmt = c.choice(['H5', 'H5', 'SAC', 'Q'])
    st = w.rfs('P', nev=2)
    if c.p(.3):
        st = w.raw('P', nev=1)
    if c.p(.2) and fmt == 'H5':
        for j, tr in enumerate(st):
            tr.stats.type = 'profile'
            tr.stats.box_pos = float(j)
            tr.stats.box_length = 1.
    st.write(os.path.join(d, 'x'), fmt)
    out = RFs()
    for f in sorted(os.listdir(d)):
        if f.endswith('.QBN'):
            continue
        out += read_rf(os.path.join(d, f))
    out.traces.sort(key=lambda tr: (tr.id, tr.stats.starttime.ns,
                                    tr.stats.get('box_pos', 0)))
    return [out, st]


def RFs():
    from rf import RFStream
    return RFStream()


def op_iter_data(w, c):
    from rf import iter_event_data
    inv = w.once('inventory', lambda: gen.inventory([
        {'net': 'A', 'sta': 'B%d' % j, 'locs': [('', 'BH', 'ZNE')],
         'lat': s['latitude'], 'lon': s['longitude'], 'elev': s['elevation']}
        for j, s in enumerate(w.stations)]))

    def get(network, station, location, channel, starttime, endtime):
        return Stream([Trace(np.arange(int((endtime - starttime) * 1.) + 1.),
                             header={'network': network, 'station': station,
                                     'location': location,
                                     'channel': channel[:-1] + x,
                                     'starttime': starttime})
                       for x in 'ZNE'])
    kw = {'phase': c.choice(['P', 'P', 'S'])}
    if c.p(.3):
        kw['request_window'] = (-20, 30)
    if c.p(.3):
        kw['pp_depth'] = 50
    if c.p(.3):
        kw['tt_model'] = 'ak135'
    return list(iter_event_data(w.events[:c.i(1, 2)], inv, get, **kw))


def op_multiple(w, c):
    from rf.util import IterMultipleComponents
    st = w.raw(nev=2)
    return list(IterMultipleComponents(
        st, key=c.choice([None, 'onset']),
        number_components=c.choice([None, 3, (2, 3)])))


def op_windows(w, c):
    st = w.rfs(nev=1)
    k = c.i(0, 1)
    f = [st.trim2, st.slice2][k]
    return f(c.choice([-5, -8]), c.choice([10, 15]), c.choice(
        ['onset', 'onset', 'starttime']))


def op_str(w, c):
    return [str(w.rfs(nev=1)), str(w.raw(nev=1)[0])]


def op_plot(w, c):
    import matplotlib.pyplot as plt
    st = w.rfs('P').select(component=c.choice('LQT'))
    kw = {}
    if c.p(.5):
        kw['trim'] = (-5, 20)
    if c.p(.3):
        kw['scale_factor'] = 2
    if c.p(.3):
        kw['info'] = (('back_azimuth', 'x', 'C1'),)
    if c.p(.3):
        kw['fillcolors'] = ('C0', None)
    fig = st.plot_rf(**kw)
    try:
        out = [[np.array(ax.get_position().bounds), ax.get_xlim(),
                ax.get_ylim(),
                [np.array(x.get_xydata()) for x in ax.get_lines()],
                len(ax.collections)] for ax in fig.axes]
    finally:
        plt.close(fig)
    return [out, st]


OPS = [op_delay_times, op_stretch, op_layers, op_vertical,
       op_ppoint_distance, op_moveout, op_moveout, op_ppoints, op_rfstats,
       op_rfstats_stream, op_rf, op_rf, op_deconvolve, op_deconv_array,
       op_stack, op_boxes, op_profile, op_harmonics, op_read, op_example,
       op_example_s, op_write_read, op_iter_data, op_multiple, op_windows,
       op_str, op_plot]
FAST = {op_delay_times, op_stretch, op_vertical, op_ppoint_distance,
        op_moveout, op_ppoints}
# matplotlib, HDF5, the example files and projections of cartopy are not made
# for threads
ALONE = {op_plot, op_write_read, op_example, op_example_s, op_read,
         op_iter_data, op_profile}


# -- failing calls

def bad_calls(w, c):
    import rf
    from rf.simple_model import load_model

    def raiser(*args, **kwargs):
        raise RuntimeError('failing')
    empty = os.path.join(w.path, 'empty.dat')
    open(empty, 'w').close()
    return c.choice([
        lambda: w.rfs().moveout(phase='Xx'),
        lambda: w.rfs().moveout(model='nofile'),
        lambda: w.rfs().moveout(ref=1e3),
        lambda: load_model(empty),
        lambda: load_model(w.models()[1]).ppoint_distance(1e5, 6.4),
        lambda: w.raw().rf(method='X'),
        lambda: w.raw().rf(deconvolve='unknown'),
        lambda: w.raw().rf(deconvolve='func', func=raiser),
        lambda: w.raw().rf(winsrc='x'),
        lambda: w.rfs().harmonics(components='L'),
        lambda: w.rfs().write(os.path.join(w.path, 'no', 'dir'), 'H5'),
        lambda: w.rfs().write(os.path.join(w.path, 'x'), 'UNKNOWN'),
        lambda: w.rfs().profile([]),
        lambda: rf.rfstats(event=w.events[0], station={}, phase='P'),
        lambda: rf.rfstats(event=w.events[0], station=w.stations[0],
                           phase='P', tt_model='unknown'),
        lambda: rf.read_rf(os.path.join(w.path, 'nofile')),
        lambda: w.rfs().ppoints(1e5),
        lambda: w.rfs().plot_rf(trim='x'),
        lambda: list(rf.iter_event_data(w.events, gen.inventory([]),
                                        raiser)),
        lambda: w.rfs().trim2(0, 5, 'nokey'),
    ])


def run_op(op, w, opseed):
    """result of operation and its plain representation"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = core.Ctx('C27', op.__name__, opseed, 0, 'quick', w.path)
        try:
            res = op(w, c)
        except Exception as ex:
            return None, ['exception', type(ex).__name__]
        return res, plain(res)


def failed(p, kind):
    return isinstance(p, list) and len(p) > 0 and isinstance(
        p[0], str) and p[0] == kind


def fresh(op, seed, path, opseed):
    """the same in a new process forked from a clean one"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _, p = run_op(op, World(seed, path), opseed)
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(p, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ['no result']


@case('history', 80, 1500, 1)
def case_history(ctx):
    import rf  # noqa, import only
    seed = ctx.i(0, 10 ** 6)
    path = ctx.tmpdir()
    World(seed, path).models()
    n = ctx.i(8, 14)
    # concentrate on a group of operations such that parameters collide
    pool = [OPS[i] for i in ctx.rng.permutation(len(OPS))[:ctx.i(2, 5)]]
    if ctx.p(.4):
        pool = [f for f in OPS if f in FAST]
    if ctx.p(.6):
        pool = pool + [op_moveout]
    base = 10 * ctx.i(0, 30)  # group of arguments
    steps = [(ctx.choice(pool), base + ctx.i(0, 9)) for _ in range(n)]
    if ctx.p(.5):  # same operation with several parameters
        op = ctx.choice(pool)
        steps += [(op, base + k) for k in range(ctx.i(2, 6))]
    ctx.desc = {'steps': [(f.__name__, k) for f, k in steps], 'seed': seed}
    want = {}
    for step in steps:
        if step not in want:
            want[step] = fresh(step[0], seed, path, step[1])
            ctx.ok('process', not failed(want[step], 'no result'))
    seen = set()
    shared = ctx.p(.6)
    world = World(seed, path)
    for j, (op, k) in enumerate(steps):
        if ctx.p(.15):
            f = bad_calls(World(seed, path), ctx)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    f()
                except Exception:
                    ctx.ev('failing')
                import matplotlib.pyplot as plt
                plt.close('all')
        if not shared:
            world = World(seed, path)
        else:
            ctx.ev('same-inputs')
        res, have = run_op(op, world, k)
        d = differ(have, want[op, k])
        ctx.ok('history', d is None, lambda: '%s(%d) after %s gives a '
               'different result: %s' % (op.__name__, k, [
                   (f.__name__[3:], i) for f, i in steps[:j]], d))
        if (op, k) in seen:
            ctx.ev('again')
        seen.add((op, k))
        ctx.sig(op.__name__, k, have[1] if failed(have, 'exception') else '')
        if op in (op_example, op_example_s, op_read):
            ctx.ev('example')
        if res is not None and ctx.p(.8):
            spoil(res)
            ctx.ev('mutated')


# probability, duration, for selected lines
DELAYS = [(0, 0, False), (.2, 1e-4, False), (.1, 1e-3, False)] + 3 * [
    (.15, 2e-2, True), (.4, 1e-2, True)]


@case('threads', 20, 400, 2)
def case_threads(ctx):
    """several threads of the process work on streams of their own"""
    import sys
    import threading
    import rf  # noqa, import only
    seed = ctx.i(0, 10 ** 6)
    path = ctx.tmpdir()
    World(seed, path).models()
    pool = [f for f in OPS if f not in ALONE]
    if ctx.p(.6):
        pool = [f for f in pool if f in FAST]
    base = 10 * ctx.i(0, 30)
    nth = ctx.i(3, 6)
    n = 8 if pool[0] in FAST and len(pool) < 9 else 4
    steps = [[(ctx.choice(pool), base + ctx.i(0, 9)) for _ in range(n)]
             for _ in range(nth)]
    if ctx.p(.7):  # all threads do the same at the same time
        same = ctx.p(.5)
        steps = [steps[0] if same else steps[0][:1] + s[1:] for s in steps]
        ctx.ev('same step')
    ctx.desc = {'steps': [[(f.__name__, k) for f, k in s] for s in steps],
                'seed': seed}
    want = {}
    for step in sum(steps, []):
        if step not in want:
            want[step] = fresh(step[0], seed, path, step[1])
            ctx.ok('process', not failed(want[step], 'no result'))
    worlds = [World(seed, path) for _ in steps]
    have = [[] for _ in steps]
    span = [[] for _ in steps]
    barrier = threading.Barrier(nth)

    def work(j):
        barrier.wait(60)
        for op, k in steps[j]:
            t0 = time.perf_counter()
            c = core.Ctx('C27', op.__name__, k, 0, 'quick', path)
            try:
                p = plain(op(worlds[j], c))
            except Exception as ex:
                p = ['exception', type(ex).__name__]
            span[j].append((t0, time.perf_counter()))
            have[j].append(p)
    interval = sys.getswitchinterval()
    with warnings.catch_warnings(), perturb.perturbed(
            core.REPO, seed, *ctx.choice(DELAYS)) as delays:
        warnings.simplefilter('ignore')
        sys.setswitchinterval(ctx.choice([1e-6, 1e-5, 1e-4]))
        try:
            threads = [threading.Thread(target=work, args=(j,), daemon=True)
                       for j in range(nth)]
            for t in threads:
                t.start()
            for t in threads:
                t.join(300)
        finally:
            sys.setswitchinterval(interval)
    ctx.ev('pause', delays['pauses'])
    ctx.ev('line delayed', len(delays['lines']))
    for j in range(nth):
        ctx.ok('thread finished', len(have[j]) == len(steps[j]),
               'thread has not finished')
        for (op, k), p, (t0, t1) in zip(steps[j], have[j], span[j]):
            others = [(f.__name__[3:], i) for m in range(nth) if m != j
                      for (f, i), (u0, u1) in zip(steps[m], span[m])
                      if u0 < t1 and u1 > t0]
            d = differ(p, want[op, k])
            ctx.ok('threads', d is None, lambda: '%s(%d) gives a different '
                   'result while other threads run %s: %s' % (
                       op.__name__, k, others, d))
            if others:
                ctx.ev('overlap')
            ctx.sig('threads', op.__name__, k, tuple(sorted(others)))


def worker(fname):
    """run operations in another interpreter, each with new inputs"""
    with open(fname, 'rb') as f:
        seed, path, steps = pickle.load(f)
    ops = {f.__name__: f for f in OPS}
    out = [run_op(ops[name], World(seed, path), k)[1] for name, k in steps]
    with open(fname + '.out', 'wb') as f:
        pickle.dump(out, f)


@case('interpreter', 3, 24, 12)
def case_interpreter(ctx):
    """other interpreters: hash seed, time zone, directory, optimisation"""
    import subprocess
    import sys
    seed = ctx.i(0, 10 ** 6)
    path = ctx.tmpdir()
    World(seed, path).models()
    base = 10 * ctx.i(0, 30)
    steps = [(f.__name__, base + ctx.i(0, 9)) for f in set(OPS)
             for _ in range(3 if f in (op_stack, op_profile, op_harmonics,
                                       op_moveout) else 1)]
    steps.sort()
    steps = [steps[i] for i in ctx.rng.permutation(len(steps))]
    envs = [{'PYTHONHASHSEED': '0', 'TZ': 'UTC'},
            {'PYTHONHASHSEED': str(ctx.i(1, 9999)),
             'TZ': ctx.choice(['Asia/Tokyo', 'America/New_York'])},
            {'PYTHONHASHSEED': str(ctx.i(1, 9999)), 'TZ': 'UTC',
             'LC_ALL': 'C', 'COLUMNS': '40'}]
    ctx.desc = {'steps': steps, 'seed': seed, 'envs': envs}
    root = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    outs = []
    for j, env in enumerate(envs):
        fname = os.path.join(path, 'steps%d' % j)
        with open(fname, 'wb') as f:
            pickle.dump((seed, path, steps if j == 0 else steps[::-1]), f)
        pp = [root] + [x for x in os.environ.get('PYTHONPATH', '').split(
            os.pathsep) if x]
        r = subprocess.run(
            [sys.executable, '-W', 'ignore', '-c', 'import sys;from mon.checks'
             ' import c27;c27.worker(sys.argv[1])', fname], cwd=path,
            env=dict(os.environ, PYTHONPATH=os.pathsep.join(pp), **env),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if not os.path.exists(fname + '.out'):
            raise RuntimeError('no result of interpreter: %s' %
                               r.stderr[-500:])
        with open(fname + '.out', 'rb') as f:
            out = pickle.load(f)
        outs.append(out if j == 0 else out[::-1])
    for j in (1, 2):
        for (name, k), a, b in zip(steps, outs[j], outs[0]):
            d = differ(a, b)
            ctx.ok('interpreter', d is None, lambda: '%s(%d) gives a '
                   'different result in another interpreter (%s): %s' % (
                       name, k, envs[j], d))
            ctx.ev('interpreter')
            ctx.sig('interpreter', name, k)
