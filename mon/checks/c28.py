"""
C28: functions do not modify their inputs and do not share data with them
"""
import copy
import os
import warnings

import numpy as np
from obspy import Stream, Trace
from obspy.core.event import Catalog

from mon import gen
from mon.core import case

PROP = 'C28'
SCALE = 3
TECHNIQUE = 'runtime monitor of aliasing: deep snapshots of all inputs before and after each call, overlap of memory of results and inputs, read-only arrays'
NOTE = 'held on sampled inputs of all public functions'
RULE = ('random streams, arrays, events, inventories, boxes and options; '
        'arrays writeable or read-only, slices, copies and several '
        'references to the same options')
ASSUMPTIONS = ['slice2, select and RFStream(stream) share arrays with the '
               'original stream as in ObsPy']
REQUIRED = {'options': 60, 'bystander': 60, 'inputs': 60, 'array-inputs': 60,
            'no-sharing': 60, 'read-only': 20, 'independent': 30}


def containers(obj, out=None, depth=0):
    """ids of mutable containers and list of arrays reachable from obj"""
    out = out if out is not None else ({}, [])
    if depth > 5:
        return out
    if isinstance(obj, Stream):
        out[0][id(obj.traces)] = 'traces'
        for tr in obj:
            containers(tr, out, depth + 1)
    elif isinstance(obj, Trace):
        out[0][id(obj)] = 'trace'
        out[1].append(np.asarray(obj.data))
        containers(obj.stats, out, depth + 1)
    elif isinstance(obj, np.ndarray):
        out[1].append(obj)
    elif hasattr(obj, 'keys'):
        out[0][id(obj)] = 'dict'
        for k in list(obj.keys()):
            containers(obj[k], out, depth + 1)
    elif isinstance(obj, list):
        out[0][id(obj)] = 'list'
        for x in obj:
            containers(x, out, depth + 1)
    elif isinstance(obj, tuple):
        for x in obj:
            containers(x, out, depth + 1)
    return out


def no_sharing(ctx, what, results, inputs):
    """results do not share arrays and containers with inputs"""
    a, b = containers(results), containers(inputs)
    common = set(a[0]) & set(b[0])
    ctx.ok('no-sharing', not common, lambda: '%s: result shares %s' % (
        what, [a[0][k] for k in common]))
    ctx.ok('no-sharing', not any(
        np.may_share_memory(x, y) for x in a[1] for y in b[1]),
        lambda: '%s: result shares arrays with the input' % what)
    # also not with each other, which includes overlapping views
    xs = a[1]
    bad = [(i, j) for i in range(len(xs)) for j in range(i)
           if np.shares_memory(xs[i], xs[j])]
    ctx.ok('no-sharing', not bad, lambda: '%s: results share arrays' % what)


def distinct_headers(ctx, what, stream):
    """header containers of the traces of a stream are own objects"""
    seen = {}
    for k, tr in enumerate(stream):
        for i, kind in containers(tr.stats)[0].items():
            ctx.ok('no-sharing', seen.get(i, k) == k, lambda: '%s: traces '
                   '%s and %d share a %s' % (what, seen[i], k, kind))
            seen[i] = k


def freeze(stream):
    for tr in stream:
        tr.data.flags.writeable = False


def modelsnap(m):
    return gen.snap([np.asarray(m.z), np.asarray(m.vp), np.asarray(m.vs),
                     np.asarray(m.dz)])


def raw(ctx, method='P', nev=1, comps='ZNE', **kw):
    sr = ctx.choice([4., 5.])
    st = gen.data_stream(ctx, nev, comps, method, sr=sr,
                         npts=ctx.i(66, 75) * int(sr), onset=31.3,
                         order='', **kw)
    for tr in st:
        tr.stats.processing = ['raw']
        tr.stats.extra = {'nested': [1, 2]}
    return st


def rfs(ctx, method='P', nev=3, comps='LQT'):
    st = gen.data_stream(ctx, nev, comps, method, sr=2., npts=140,
                         onset=ctx.u(15, 20), order='')
    st.type = 'rf'
    for tr in st:
        tr.stats.processing = ['raw', 'rf']
        tr.stats.extra = {'nested': [1, 2]}
    return st


# -- in-place methods

@case('inplace', 90, 3000)
def case_inplace(ctx):
    """
    In-place methods do not change copies made before, arrays and headers the
    traces were built from, other streams and options
    """
    from rf import RFStream, rfstats
    from rf.rfstream import RFTrace
    what = ctx.choice(['rf', 'rf', 'rf', 'deconvolve', 'moveout', 'ppoints',
                       'trim2', 'rfstats', 'type', 'write'])
    m = ctx.choice('PPS')
    base = rfs(ctx, m) if what in ('moveout', 'ppoints') else raw(
        ctx, m, nev=ctx.i(1, 2) if what == 'rf' else 1,
        comps='LQT' if what == 'deconvolve' else 'ZNE')
    kw, args = {}, ()
    if what == 'rf':
        d = ctx.choice(['time', 'waterlevel', 'iterative', 'multitaper',
                        'func', 'func', None])
        kw['deconvolve'] = d
        if d == 'iterative':
            kw['itmax'] = 10
        if ctx.p(.5) and d not in ('multitaper', None):
            kw['winsrc'] = ctx.choice([list, tuple])(
                ctx.choice([[-5, 20, 5], [-5, 22, .5], [-10.5, 18, 3]]))
        if ctx.p(.5):
            kw['filter'] = ctx.choice([
                {'type': 'bandpass', 'freqmin': .1, 'freqmax': .9,
                 'zerophase': True},
                {'type': 'bandpass', 'freqmin': .1, 'freqmax': .9},
                {'type': 'lowpass', 'freq': .9, 'corners': 2},
                {'type': 'highpass', 'freq': .05}])
        if ctx.p(.5):
            kw['trim'] = [-25, 33]
        if ctx.p(.3):
            kw['downsample'] = 2
        if ctx.p(.4) and d not in (None, 'func'):
            kw['rotate'] = 'NE->RT'
        if d == 'multitaper' and ctx.p(.6):
            noise = []
            ref = base.copy()
            if kw.get('filter'):
                ref.filter(**kw['filter'])
            for tr in base.slice2(-30, -5, 'onset'):
                noise.append(tr.copy())
            noise = RFStream(noise)
            for tr in noise:
                tr.stats.processing = ['noise']
            kw.pop('downsample', None)
            kw['rotate'] = None
            kw['source_components'] = 'Z'
        if d == 'func':
            opt = {'list': [1, 2], 'arr': np.arange(3.)}
            kw['option'] = opt

            def func(rsp, src, tshift=10, option=None, **more):
                for tr in rsp:
                    tr.data = 2 * tr.data
                return rsp
            kw['func'] = func
    elif what == 'deconvolve':
        args = (ctx.choice(['time', 'waterlevel', 'iterative', 'multitaper']),)
        kw = {'source_components': 'L' if m == 'P' else 'Q'}
        if ctx.p(.4) and args[0] != 'multitaper':
            kw['response_components'] = ctx.choice(
                [['Q', 'T'], ['T', 'Q'], ['T', 'L', 'Q']])
        if ctx.p(.4) and args[0] != 'multitaper':
            kw['winsrc'] = ctx.choice([list, tuple])(
                ctx.choice([[-5, 20, 5], [-5, 22, .5], [-10.5, 18, 3]]))
    elif what == 'moveout':
        kw = {'ref': 6.4, 'phase': ctx.choice(
            ['Ps', 'Ppps'] if m == 'P' else ['Sp'])}
    elif what == 'ppoints':
        args = (ctx.u(20, 200),)
    elif what == 'trim2':
        args = (ctx.u(-20, 0), ctx.u(5, 20), 'onset')
        kw = ctx.choice([{}, {'pad': True, 'fill_value': 0},
                         {'nearest_sample': False}])
    # the stream under test is built from base in different ways
    form = ctx.choice(['copy', 'slice', 'view', 'arrays', 'read-only'])
    if form == 'copy':
        st = base.copy()
    elif form == 'slice':  # arrays are shared, headers are copied by ObsPy
        t = max(tr.stats.starttime - tr.stats.onset for tr in base)
        st = base.slice2(t, 31.4, 'onset')
    elif form == 'view':
        st = RFStream([RFTrace(data=tr.data[:], header=dict(tr.copy().stats))
                       for tr in base])
    elif form == 'arrays':
        st = RFStream([RFTrace(data=tr.data, header=dict(tr.copy().stats))
                       for tr in base])
    else:
        st = base.copy()
        freeze(st)
        ctx.ev('read-only')
    ctx.desc = {'what': what, 'method': m, 'kw': kw, 'args': args,
                'form': form, 'onset': str(base[0].stats.onset)}
    ctx.sig(what, m, form, kw.get('deconvolve', ''))
    other = base.copy()
    keep_base, keep_other = gen.snap(base), gen.snap(other)
    keep_kw, keep_args = gen.snap(kw), gen.snap(args)
    held = [tr.data for tr in st]
    keep_held = gen.snap(held)
    ev, sta = None, None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if what == 'rfstats':
            ev = gen.event(ctx, lat=base[0].stats.event_latitude,
                           lon=base[0].stats.event_longitude, depth=50.)
            sta = {'latitude': base[0].stats.station_latitude,
                   'longitude': base[0].stats.station_longitude,
                   'elevation': 7.}
            keep_ev, keep_sta = copy.deepcopy(ev), dict(sta)
            if m == 'S':
                kw['phase'] = 'S'
                keep_kw = gen.snap(kw)
            rfstats(st, event=ev, station=sta, **kw)
            ctx.ok('options', ev == keep_ev and str(ev) == str(keep_ev) and
                   ev.origins == keep_ev.origins, 'event modified')
            ctx.same('options', sta, keep_sta)
        elif what == 'type':
            st.type = 'rf'
            st.method = 'S'
        elif what == 'write':
            path = ctx.tmpdir()
            fmt = ctx.choice(['H5', 'Q', 'SAC'])
            before = [gen.snap(gen.header_of(tr)) for tr in st]
            st.write(os.path.join(path, 'x'), fmt)
            ctx.ok('inputs', before == [
                gen.snap(gen.header_of(tr)) for tr in st],
                'write %s modifies headers' % fmt)
        elif what == 'rf' and kw.get('deconvolve') == 'multitaper' and \
                'source_components' in kw:
            keep_noise = gen.snap(noise)
            kw.pop('trim', None)
            keep_kw = gen.snap(kw)
            one = [tr for tr in st if abs(
                tr.stats.onset - st[0].stats.onset) < 1]
            st = RFStream(one)
            st.rf(noise=RFStream([noise[j] for j, tr in enumerate(base) if abs(
                tr.stats.onset - base[0].stats.onset) < 1]), **kw)
            ctx.ok('options', gen.snap(noise) == keep_noise,
                   'noise stream was modified')
            ctx.ev('noise')
        else:
            getattr(st, what)(*args, **kw)
    ctx.ok('options', gen.snap(kw) == keep_kw, 'keyword arguments modified')
    ctx.ok('options', gen.snap(args) == keep_args, 'arguments modified')
    ctx.ok('bystander', gen.snap(other) == keep_other)
    ctx.ok('bystander', gen.snap(base) == keep_base,
           lambda: '%s modifies the stream %s was made from' % (what, form))
    ctx.ok('held', gen.snap(held) == keep_held,
           lambda: '%s writes into sample arrays' % what)
    if what in ('rf', 'moveout', 'deconvolve', 'trim2'):
        xs = [tr.data for tr in st]
        ctx.ok('independent', not any(
            np.shares_memory(xs[i], xs[j]) for i in range(len(xs))
            for j in range(i)), 'traces share arrays after %s' % what)
    distinct_headers(ctx, what, st)
    if what == 'rf':
        for v in kw.values():
            if isinstance(v, (dict, list)):
                ids = containers(st)[0]
                ctx.ok('independent', id(v) not in ids,
                       'option is referenced in the headers')


# -- functions with results

@case('results', 90, 3000)
def case_results(ctx):
    from rf import get_profile_boxes
    what = ctx.choice(['stack', 'profile', 'profile', 'harmonics',
                       'harmonics', 'example', 'stack', 'rfstats',
                       'obj2stats', 'model'])
    ctx.desc = {'what': what}
    m = ctx.choice('PPS') if what != 'harmonics' else 'P'
    st = rfs(ctx, m, nev=ctx.choice([1, 2, 4]) if what != 'harmonics' else 5)
    if ctx.p(.3):
        freeze(st)
        ctx.ev('read-only')
    if ctx.p(.5):
        st.traces = [st[i] for i in ctx.rng.permutation(len(st))]
    ctx.sig(what, len(st))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if what == 'stack':
            keep = gen.snap(st)
            res = st.stack()
        elif what == 'profile':
            st.ppoints(ctx.u(30, 200))
            keep = gen.snap(st)
            bins = ctx.choice([list, tuple, np.array])(
                [-150., -50, 0, 50, 100, 150])
            latlon = [st[0].stats.station_latitude,
                      st[0].stats.station_longitude]
            opts = gen.snap([bins, latlon])
            boxes = get_profile_boxes(latlon, ctx.u(0, 360), bins,
                                      width=2000)
            ctx.ok('options', gen.snap([bins, latlon]) == opts)
            keepb = gen.snap(boxes)
            res = st.profile(boxes)
            ctx.ok('options', gen.snap(boxes) == keepb, 'boxes modified')
            ids = containers(res)[0]
            ctx.ok('no-sharing', not set(ids) & set(containers(boxes)[0]),
                   'profile shares containers with boxes')
        elif what == 'harmonics':
            keep = gen.snap(st)
            comps = ctx.choice(['Q', 'T', 'QT'])
            res = st.harmonics(components=comps, azim=ctx.u(0, 90),
                               method=ctx.choice(['time', 'freq']))
        elif what == 'example':
            from rf import util
            f = ctx.choice([util.minimal_example_rf,
                            util.minimal_example_Srf])
            st = f()
            keep = gen.snap(st)
            res = f()
            ctx.ok('inputs', gen.snap(res) == keep)
        elif what == 'rfstats':
            return stats_case(ctx, st)
        elif what == 'obj2stats':
            return obj_case(ctx)
        else:
            return model_case(ctx, st)
        ctx.ok('inputs', gen.snap(st) == keep, '%s modifies stream' % what)
        no_sharing(ctx, what, res, st)
        distinct_headers(ctx, what, res)
        # consequences, modification of the result
        for tr in res:
            tr.data *= 0 if tr.data.dtype.kind == 'c' else 2
            tr.stats.processing = tr.stats.get('processing', [])
            tr.stats.processing.append('x')
        ctx.ok('independent', gen.snap(st) == keep,
               'modification of the result of %s changes the input' % what)


def stats_case(ctx, st):
    from rf import rfstats
    s = st[0].stats
    la, lo = gen.coords_at(s.station_latitude, s.station_longitude,
                           ctx.u(0, 360), ctx.u(60, 80))
    ev = gen.event(ctx, lat=la, lon=lo, depth=ctx.u(0, 100), decoys=ctx.p(.5))
    sta = {'latitude': s.station_latitude, 'longitude': s.station_longitude,
           'elevation': 3., 'other': [1]}
    kept, keps = copy.deepcopy(ev), copy.deepcopy(sta)
    dist = [20, 100]
    phase = ctx.choice(['P', 'S'])
    kw = {'pp_depth': ctx.choice([None, 70])}
    a = rfstats(event=ev, station=sta, phase=phase, dist_range=dist, **kw)
    b = rfstats(event=ev, station=sta, phase=phase, dist_range=dist, **kw)
    ctx.ok('inputs', ev == kept and repr(ev) == repr(kept))
    ctx.ok('inputs', ev.origins == kept.origins and
           ev.magnitudes == kept.magnitudes)
    ctx.same('inputs', sta, keps)
    ctx.same('inputs', dist, [20, 100])
    ctx.ok('no-sharing', a is not b)
    ctx.ok('no-sharing', gen.snap(a) == gen.snap(b))
    keep = gen.snap(b)
    for k in list(a.keys()):
        a[k] = None
    a['new'] = 1
    ctx.ok('independent', gen.snap(b) == keep)


def obj_case(ctx):
    from rf.rfstream import obj2stats
    ev = gen.event(ctx, decoys=ctx.p(.5))
    sta = {'latitude': ctx.u(-90, 90), 'longitude': ctx.u(-180, 180),
           'elevation': ctx.u(0, 3000)}
    kept, keps = copy.deepcopy(ev), dict(sta)
    a = obj2stats(event=ev if ctx.p(.7) else None,
                  station=sta if ctx.p(.7) else None)
    ctx.ok('inputs', ev == kept and ev.origins == kept.origins)
    ctx.same('inputs', sta, keps)
    b = obj2stats(event=ev, station=sta)
    ctx.ok('no-sharing', a is not b)
    b['event_latitude'] = 0
    ctx.ok('independent', ev == kept and ev.origins == kept.origins)


def model_case(ctx, st):
    from rf.simple_model import SimpleModel, load_model
    z = np.r_[0, np.cumsum(ctx.rng.uniform(5, 40, 15))]
    vp = np.linspace(5.5, 9, 16)
    vs = vp / 1.75
    n = np.array([0] + [ctx.i(0, 4) for _ in range(15)])
    par = [z, vp, vs, n] if ctx.p(.5) else [z, vp, vs]
    form = ctx.choice([np.array, list])
    par = [form(x) for x in par]
    keep = gen.snap(par)
    m = SimpleModel(*par) if ctx.p(.7) else load_model()
    ctx.ok('inputs', gen.snap(par) == keep, 'SimpleModel modifies arrays')
    km = modelsnap(m)
    slow = ctx.choice([6.4, np.array([6.4, 7.]), ctx.u(5, 8)])
    if not np.isscalar(slow):
        slow = 6.1
    m.calculate_vertical_slowness(slow, phase='PS')
    m.calculate_vertical_slowness(slow, phase='S')
    t = m.calculate_delay_times(slow)
    ctx.ok('inputs', modelsnap(m) == km, 'model modified')
    t += 1e3
    s = st[0].stats
    ks = gen.snap(dict(s))
    m.stretch_delay_times(slow, phase='Ps', ref=6.4)
    x = m.stretch_delay_times(slow, phase='Ps', ref=5.9)
    y = m.stretch_delay_times(slow, phase='Ps', ref=5.9)
    ctx.ok('no-sharing', gen.snap(x) == gen.snap(y))
    for arr in (x if isinstance(x, tuple) else (x,)):
        arr += 1000.
    z2 = m.stretch_delay_times(slow, phase='Ps', ref=5.9)
    ctx.ok('independent', gen.snap(z2) == gen.snap(y),
           'modification of delay times changes later results')
    m.ppoint_distance(50., slow, phase='S')
    ctx.ok('inputs', modelsnap(m) == km, 'model modified')
    ctx.ok('inputs', gen.snap(dict(s)) == ks)
    keep_others = [gen.snap(tr) for tr in st[1:]]
    m.ppoint(s, 50., phase='S')
    ctx.ok('bystander', [gen.snap(tr) for tr in st[1:]] == keep_others)
    for k in ('pp_latitude', 'pp_longitude', 'pp_depth'):
        s.pop(k)
    ctx.ok('inputs', gen.snap(dict(s)) == ks, 'ppoint modifies headers')
    m.moveout(st, phase='Ps' if st.method == 'P' else 'Sp', ref=6.4)
    ctx.ok('inputs', modelsnap(m) == km, 'model modified by moveout')


# -- deconvolution of arrays

@case('arrays', 80, 4000)
def case_arrays(ctx):
    from rf import deconvolve as d
    rng = ctx.rng
    n = ctx.i(60, 200)
    nr = ctx.i(1, 3)
    what = ctx.choice(['time', 'waterlevel', 'iterative', 'multitaper'])
    block = rng.normal(size=(nr, n))
    form = ctx.choice(['rows', 'copies', 'same'])
    rsp = {'rows': [x for x in block], 'copies': [x.copy() for x in block],
           'same': [block[0]] * nr}[form]
    src = rng.normal(size=n)
    if what == 'multitaper':
        src = src[:n // 2].copy()
    if ctx.p(.4) and what in ('time', 'waterlevel') or (
            what == 'iterative' and ctx.p(.4)):
        src = rsp[0]  # source is one of the responses
    ro = ctx.p(.4)
    noise = rng.normal(size=(nr, n))
    if ro:
        ctx.ev('read-only')
        for x in list(rsp) + [src, noise, block]:
            x.flags.writeable = False
    ctx.desc = {'what': what, 'form': form, 'nr': nr, 'n': n, 'ro': ro}
    ctx.sig(what, form, nr, ro)
    keep = gen.snap([list(rsp), src, noise])
    ids = [id(x) for x in rsp]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        kw = {'normalize': ctx.choice([0, None])} if ctx.p(.5) else {}
        if what == 'time':
            res = d.deconv_time(rsp, src, ctx.i(0, 20), spiking=1., **kw)
        elif what == 'waterlevel':
            res = d.deconv_waterlevel(rsp, src, 4., waterlevel=.05,
                                      gauss=ctx.choice([None, 1.]),
                                      tshift=5., **kw)
        elif what == 'iterative':
            res = d.deconv_iterative(rsp, src, 4., itmax=5, **kw)
        else:
            res = d.deconv_multitaper(rsp, src, noise, 4., 5., **kw)
    ctx.ok('array-inputs', gen.snap([list(rsp), src, noise]) == keep,
           'deconv_%s modifies its input' % what)
    ctx.ok('array-inputs', ids == [id(x) for x in rsp],
           'list of responses modified')
    out = res[0] if what == 'iterative' else res
    out = [np.asarray(x) for x in out]
    ctx.ok('no-sharing', not any(np.may_share_memory(x, y) for x in out
                                 for y in list(rsp) + [src, noise]),
           'deconv_%s returns (views of) the input' % what)
    ctx.ok('no-sharing', not any(np.shares_memory(out[i], out[j])
                                 for i in range(nr) for j in range(i)),
           'results of deconv_%s share memory' % what)


# -- iterators and plots

@case('others', 24, 500, 2)
def case_others(ctx):
    import matplotlib.pyplot as plt
    from rf import get_profile_boxes, imaging, iter_event_data
    from rf.util import IterMultipleComponents, iter_event_metadata
    what = ctx.choice(['plot_rf', 'plot_rf', 'plot_profile', 'plot_harmonics',
                       'maps', 'iter', 'multiple'])
    ctx.desc = {'what': what}
    ctx.sig(what)
    st = rfs(ctx, 'P', nev=4)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            if what == 'plot_rf':
                s2 = st.select(component=ctx.choice('LQT'))
                info = [['back_azimuth', 'baz', 'b'],
                        ['distance', 'd', 'C1']][:ctx.i(1, 2)]
                kw = {'info': ctx.choice([info, tuple(info), None]),
                      'fillcolors': ctx.choice([['b', 'r'], (None, 'r')]),
                      'trim': ctx.choice([None, [-5, 20], (-10, 10)]),
                      'trace_scale': ctx.p(.5)}
                if ctx.p(.3):
                    freeze(st)
                    ctx.ev('read-only')
                keep, kk = gen.snap(st), gen.snap(kw)
                s2.plot_rf(**kw)
                ctx.ok('inputs', gen.snap(st) == keep, 'plot_rf')
                ctx.ok('options', gen.snap(kw) == kk, 'plot_rf options')
            elif what == 'plot_profile':
                st.ppoints(50)
                st.moveout()
                boxes = get_profile_boxes(
                    (st[0].stats.station_latitude,
                     st[0].stats.station_longitude), 90,
                    np.linspace(-100, 100, 6), width=2000)
                p = st.profile(boxes).select(channel='??' + ctx.choice('LQT'))
                kw = {'trim': ctx.choice([None, [-5, 20]]),
                      'top': ctx.choice([None, 'hist']),
                      'fillcolors': ctx.choice([['b', 'r'], None]) or
                      ('C3', 'C0')}
                keep, kk = gen.snap([p, st]), gen.snap(kw)
                p.plot_profile(**kw)
                ctx.ok('inputs', gen.snap([p, st]) == keep, 'plot_profile')
                ctx.ok('options', gen.snap(kw) == kk)
            elif what == 'plot_harmonics':
                st = rfs(ctx, 'P', nev=5)
                hd = st.harmonics(components='Q')
                hd2 = ctx.choice([None, hd.copy()])
                kw = {'trim': ctx.choice([None, [-5, 20]])}
                keep, kk = gen.snap([hd, hd2, st]), gen.snap(kw)
                if hd2 is None:
                    hd = st.harmonics(components='QT')
                    keep = gen.snap([hd, hd2, st])
                imaging.plot_harmonics(hd, hd2, **kw)
                ctx.ok('inputs', gen.snap([hd, hd2, st]) == keep,
                       'plot_harmonics')
                ctx.ok('options', gen.snap(kw) == kk)
            elif what == 'maps':
                pp = st.ppoints(50)
                inv = gen.inventory([{
                    'net': 'A', 'sta': 'B', 'locs': [('', 'BH', 'ZNE')],
                    'lat': st[0].stats.station_latitude,
                    'lon': st[0].stats.station_longitude, 'elev': 0}])
                boxes = get_profile_boxes(
                    (st[0].stats.station_latitude,
                     st[0].stats.station_longitude), 90, [0, 50, 100],
                    width=200)
                ki = copy.deepcopy(inv)
                keep = gen.snap([st, pp, boxes])
                style = {'s': 50}
                imaging.plot_stations(inv if ctx.p(.5) else st)
                imaging.plot_ppoints(pp, inventory=inv, **style)
                imaging.plot_profile_map(boxes, inventory=inv, ppoints=pp)
                ctx.ok('inputs', gen.snap([st, pp, boxes]) == keep, 'maps')
                ctx.ok('inputs', inv == ki and inv.get_contents() ==
                       ki.get_contents(), 'inventory')
                ctx.same('options', style, {'s': 50})
            elif what == 'iter':
                lat, lon = ctx.u(-50, 50), ctx.u(-170, 170)
                evs = []
                for _ in range(2):
                    la, lo = gen.coords_at(lat, lon, ctx.u(0, 360),
                                           ctx.u(60, 80))
                    evs.append(gen.event(ctx, lat=la, lon=lo, depth=9.))
                cat = Catalog(evs) if ctx.p(.5) else evs
                inv = gen.inventory([{
                    'net': 'A', 'sta': 'B', 'locs': [('', 'BH', 'ZNE')],
                    'lat': lat, 'lon': lon, 'elev': 0}])
                kc, ki = copy.deepcopy(cat), copy.deepcopy(inv)
                kw = {'request_window': [-20, 30], 'pad': 5,
                      'dist_range': [20, 95]}
                kk = gen.snap(kw)
                served = []

                def get(starttime, endtime, **more):
                    out = Stream([Trace(
                        np.arange(int(endtime - starttime) + 1.),
                        header={'channel': 'BH' + c, 'station': 'B',
                                'network': 'A', 'starttime': starttime})
                        for c in 'ZNE'])
                    served.append(([tr.data for tr in out],
                                   gen.snap([tr.data for tr in out])))
                    return out
                res = list(iter_event_data(cat, inv, get, **kw))
                list(iter_event_metadata(cat, inv))
                ctx.ok('inputs', all(a == b and a.origins == b.origins
                                     for a, b in zip(cat, kc)), 'events')
                ctx.ok('inputs', inv == ki, 'inventory')
                ctx.ok('options', gen.snap(kw) == kk)
                ctx.ok('inputs', all(gen.snap(a) == b for a, b in served),
                       'waveforms modified')
                ctx.same('number', len(res), 2)
                for j, s3 in enumerate(res):
                    distinct_headers(ctx, 'iter', s3)
                    ks = gen.snap(res[1 - j])
                    for tr in s3:
                        tr.stats.onset += 1
                        tr.stats.slowness = 0
                    ctx.ok('independent', gen.snap(res[1 - j]) == ks)
            else:
                keep = gen.snap(st)
                it = IterMultipleComponents(st, key='onset')
                n = sum(len(s) for s in it)
                ctx.ok('inputs', gen.snap(st) == keep and n == len(st))
        finally:
            plt.close('all')
