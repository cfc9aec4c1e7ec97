import glob
import os

import numpy as np
import obspy
from obspy import UTCDateTime as UTC

import rf
from mon import gen
from mon.core import case
from mon.iomodel import (HEADERS, Q_FIELD, SAC_FIELD, STRINGS, TIMES,
                         check_header,
                         guessed, rand_headers, raw_value, tolerance)
from rf import RFStream, read_rf
from rf.rfstream import RFTrace

PROP = 'C01'
SCALE = 2
TECHNIQUE = 'recorded write/read histories compared online with an executable model of headers, samples and format resolution'
NOTE = 'held on the sampled streams, formats and chains; resolution of the formats is part of the model'
RULE = ('random streams (ids, sampling rates, dtypes, random subset of the 21 '
        'documented headers with random values and value types) are written '
        'and read in SAC, Q and H5, once or in chains with modifications in '
        'between; a case is non-trivial if at least one header or waveform '
        'was compared after reading; distinct by hash of the case parameters '
        'and all header values')
ASSUMPTIONS = [
    'SAC holds floats in 4 byte precision and strings with up to 8 '
    'characters, Q holds times in ms and samples as 4 byte floats',
    'traces written to the same H5 file differ in index (id, event and start '
    'time in seconds)']
REQUIRED = {'file:SAC': 100, 'file:Q': 100, 'file:H5': 100,
            'read:slowness': 50, 'field:slowness': 50, 'waveform': 300,
            'absent': 100, 'sh_compat': 20, 'h5-extra': 50, 'chain-step': 100,
            'foreign:SAC': 8, 'foreign:Q': 15}
EXT = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}
OWN = set(HEADERS)


def random_stream(ctx, ntr=None, prob=0.8, marker=True):
    ntr = ntr or ctx.i(1, 4)
    traces, models = [], []
    for k in range(ntr):
        net, sta, loc, cha = gen.seed_id(ctx, ctx.choice('ZNELQTR'))
        start = gen.utc(ctx, 2 * 10**8, 1.6 * 10**9)
        n = ctx.i(2, 300)
        kind = ctx.choice(['f8', 'f8', 'f4', 'i4'])
        data = ctx.rng.normal(size=n) * 10 ** ctx.u(-6, 6)
        if kind == 'i4':
            data = ctx.rng.integers(-10**6, 10**6, size=n)
        data = data.astype(kind)
        tr = RFTrace(data=data, header={
            'network': net, 'station': sta, 'location': loc, 'channel': cha,
            'starttime': start,
            'sampling_rate': float(ctx.choice([1, 2, 5, 8, 10, 20, 25, 50,
                                               100, 200]))})
        heads = rand_headers(ctx, tr, prob=ctx.choice([1., prob, 0.3, 0]))
        traces.append(tr)
        models.append({'id': tr.id, 'start': start, 'data': data.copy(),
                       'sr': tr.stats.sampling_rate, 'head': heads,
                       'tol': {}, 'dtol': 0., 'ttol': 0.})
    return RFStream(traces), models


def make_h5able(ctx, stream, models):
    """H5 index needs the headers type, event_time, box_pos"""
    kind = ctx.choice(['rf', 'profile', None])
    step = ctx.choice([10., 10., 1., .5, .01])
    for k, (tr, m) in enumerate(zip(stream, models)):
        for h in ('type',):
            tr.stats.pop(h, None)
            m['head'].pop(h, None)
        if kind is not None:
            tr.stats.type = m['head']['type'] = kind
            m['tol'].pop('type', None)
        if kind == 'rf' or any('event_time' in t.stats for t in stream):
            if 'event_time' not in tr.stats:
                t = tr.stats.starttime - round(ctx.u(0, 1500), 3)
                tr.stats.event_time = m['head']['event_time'] = t
                m['tol'].pop('event_time', None)
        if kind == 'profile':
            tr.stats.box_pos = m['head']['box_pos'] = step * k + 1
            m['tol'].pop('box_pos', None)
    return kind


def key_h5(tr):
    s = tr.stats
    if s.get('type') == 'profile':
        return (s.channel[2], s.box_pos)
    return (tr.id, str(s.get('event_time'))[:19], str(s.starttime)[:19],
            str(s.endtime)[:19])


def compare(ctx, fmt, m, tr):
    """Compare trace read from file with model and update model tolerances"""
    ctx.same('seed-id', tr.id, m['id'], fmt)
    st = tr.stats
    add = {'Q': 1.01e-3, 'SAC': 1e-5, 'H5': 1e-6}[fmt]
    m['ttol'] += add
    ctx.close('starttime', st.starttime - m['start'], 0, atol=m['ttol'],
              msg=fmt)
    ctx.close('sampling-rate', st.delta, 1 / m['sr'],
              atol=6e-7 if fmt == 'Q' else 1e-8, msg=fmt)
    scale = np.max(np.abs(m['data'].astype(float))) if len(m['data']) else 0
    if fmt != 'H5':
        m['dtol'] += 1.3e-7 * scale
    ctx.close('waveform', np.asarray(tr.data, float), m['data'].astype(float),
              atol=m['dtol'] + 1e-300, msg=fmt)
    for h in HEADERS:
        if h not in m['head']:
            ctx.ok('absent', h not in st, lambda: '%s %s=%r not set before' % (
                fmt, h, st.get(h)))
            continue
        want = m['head'][h]
        tol = m['tol'].get(h, 0) + tolerance(fmt, h, want, m['start'])
        m['tol'][h] = tol
        if ctx.ok('present', h in st, lambda: '%s %s lost, was %r' % (
                fmt, h, want)):
            check_header(ctx, 'read', fmt, h, st[h], want, tol)


def check_fields(ctx, fmt, m, tr):
    """Documented header fields in the file, read with ObsPy"""
    for h in HEADERS:
        got = raw_value(fmt, tr, h)
        if h in m['head']:
            check_header(ctx, 'field', fmt, h, got, m['head'][h],
                         m['tol'][h] + 1e-9)
        else:
            ctx.ok('field-absent', got is None, lambda: (
                '%s %s=%r' % (fmt, h, got)))


def write(ctx, stream, fmt, single=None):
    """write stream, return glob expression"""
    d = ctx.tmpdir()
    f = fmt if ctx.p(.7) else fmt.lower()
    base = os.path.join(d, ctx.choice(['x', 'file.1', 'A_b']))
    if single is None:
        single = fmt == 'SAC' and ctx.p(.7)
    if single:
        for k, tr in enumerate(stream):
            tr.write('%s_%02d%s' % (base, k, EXT[fmt]), f)
    elif fmt == 'SAC' and len(stream) == 1:
        stream.write(base + EXT[fmt], f)
    else:
        stream.write(base + EXT[fmt], f)
    ctx.ev('file:' + fmt)
    return d, os.path.join(d, '*' + EXT[fmt])


def read(ctx, fmt, pattern):
    kw = {'format': fmt}
    if fmt == 'SAC' and ctx.p(.3):
        # null values of all SAC fields are loaded, strings are padded
        stream = read_rf(pattern, debug_headers=True, **kw)
        for tr in stream:
            for h in STRINGS:
                if h in tr.stats:
                    tr.stats[h] = tr.stats[h].rstrip()
        return stream
    if ctx.p(.5) and guessed(fmt, glob.glob(pattern)):
        kw = {}
    return read_rf(pattern, **kw)


def pair(ctx, fmt, models, traces):
    """Pairs (model, trace) of the same original trace"""
    if not ctx.same('number-of-traces', len(traces), len(models), fmt):
        return []
    traces = list(traces)
    out = []
    for m in models:
        # same id and closest in start time and samples
        def dist(tr):
            d = 0 if tr.id == m['id'] else 10**12
            d += abs(tr.stats.starttime - m['start'])
            d += 10**9 * (len(tr) != len(m['data']))
            if 'event_time' in m['head'] and 'event_time' in tr.stats:
                d += abs(tr.stats.event_time - m['head']['event_time'])
            if fmt == 'H5' and 'box_pos' in m['head'] and \
                    'box_pos' in tr.stats:
                d += abs(tr.stats.box_pos - m['head']['box_pos'])
            return d
        tr = min(traces, key=dist)
        traces.remove(tr)
        out.append((m, tr))
    return out


def uniq_ids(stream):
    return len(set(key_h5(tr) for tr in stream)) == len(stream)


@case('roundtrip', 240, 9000)
def roundtrip(ctx):
    fmt = ctx.choice(['SAC', 'Q', 'H5'])
    stream, models = random_stream(ctx)
    if fmt == 'H5':
        make_h5able(ctx, stream, models)
        if not uniq_ids(stream):
            ctx.trivial()
            return
    ctx.desc = {'fmt': fmt, 'traces': [
        {k: str(v) for k, v in m['head'].items()} for m in models],
        'ids': [m['id'] for m in models]}
    ctx.sig(fmt, len(stream), sorted(set(h for m in models
                                         for h in m['head']))[:3])
    if ctx.p(.25):  # entries of the user for the file formats
        from obspy.core import AttribDict
        for tr in stream:
            tr.stats.sac = AttribDict(ctx.choice([
                {'lcalda': False}, {'user7': 5., 'lcalda': False},
                {'t0': 3., 'kevnm': 'event', 'lcalda': False}]))
            tr.stats.sh = AttribDict(ctx.choice([
                {}, {'FILTER': 'x'}]))
        ctx.ev('own-entries')
    d, pattern = write(ctx, stream, fmt)
    got = read(ctx, fmt, pattern)
    ctx.ok('class', type(got) is RFStream and all(
        type(tr) is RFTrace for tr in got), lambda: type(got))
    if fmt == 'Q':  # order is kept
        ctx.same('order', [tr.id for tr in got], [m['id'] for m in models])
    for m, tr in pair(ctx, fmt, models, got):
        compare(ctx, fmt, m, tr)
    if fmt != 'H5':
        plain = obspy.read(pattern)
        if fmt == 'Q':
            for tr in plain:
                p = tr.stats.station.split('.')
                tr.stats.network, tr.stats.station, tr.stats.location = p[:3]
        for m, tr in pair(ctx, fmt, models, plain):
            check_fields(ctx, fmt, m, tr)
        # plain stream -> RFStream
        if fmt == 'SAC':
            for m, tr in pair(ctx, fmt, models, RFStream(obspy.read(pattern))):
                for h in m['head']:
                    ctx.ok('RFStream(stream)', h in tr.stats, h)


@case('crowd', 40, 1500)
def crowd(ctx):
    """Many similar traces in the same H5 file"""
    from copy import deepcopy
    stream, models = random_stream(ctx, ntr=1, prob=1.)
    make_h5able(ctx, stream, models)
    profile = stream[0].stats.get('type') == 'profile'
    if not profile and 'event_time' not in stream[0].stats:
        for d in (stream[0].stats, models[0]['head']):
            d['type'] = 'rf'
            d['event_time'] = stream[0].stats.starttime - 400.5
    what = []
    for k in range(ctx.i(1, 6)):
        tr, m = stream[0].copy(), deepcopy(models[0])
        s = tr.stats
        kind = ctx.choice(['event', 'event', 'start', 'start', 'npts', 'band',
                           'comp', 'location', 'station', 'network'])
        if profile:
            kind = ctx.choice(['box', 'box', 'comp'])
        sec = ctx.choice([1, 2, 20, 59, 60, 3600, 86400, 365 * 86400])
        if kind == 'box':
            s.box_pos = s.box_pos + ctx.choice([-5.5, -1, .5, .25, 1.125, 20])
            m['head']['box_pos'] = s.box_pos
        elif kind == 'event':
            s.event_time = s.event_time + sec
            m['head']['event_time'] = s.event_time
        elif kind == 'start':
            s.starttime = m['start'] = s.starttime + sec
        elif kind == 'npts':
            tr.data = tr.data[:ctx.i(1, len(tr))]
        elif kind == 'band':
            s.channel = ctx.choice('BHL') + ctx.choice('HN') + s.channel[-1]
        elif kind == 'comp':
            s.channel = s.channel[:-1] + ctx.choice('ZNELQT')
        elif kind == 'location':
            s.location = ctx.choice(['', '00', '10', '01'])
        elif kind == 'station':
            s.station = gen.station_code(ctx)
        else:
            s.network = ctx.choice(['', 'X', 'XX', 'YX'])
        tr.data = tr.data + k + 1
        m['data'] = tr.data.copy()
        m['id'] = tr.id
        if key_h5(tr) in [key_h5(t) for t in stream]:
            continue
        what.append((kind, sec))
        stream.append(tr)
        models.append(m)
    ctx.desc = {'what': what, 'id': [m['id'] for m in models],
                'start': str(stream[0].stats.starttime)}
    ctx.sig(*sorted(w[0] for w in what))
    base = os.path.join(ctx.tmpdir(), 'x.h5')
    if ctx.p(.5):
        stream.write(base, 'H5')
    else:  # one after the other into the same file
        for k in ctx.rng.permutation(len(stream)):
            stream[int(k)].write(base, 'H5', mode='a')
    ctx.ev('file:H5')
    ctx.ev('crowd', len(stream))
    for m, tr in pair(ctx, 'H5', models, read(ctx, 'H5', base)):
        compare(ctx, 'H5', m, tr)


@case('chain', 110, 4000)
def chain(ctx):
    stream, models = random_stream(ctx, ntr=ctx.i(1, 3))
    n = ctx.i(2, 5)
    steps = []
    for j in range(n):
        fmt = ctx.choice(['SAC', 'Q', 'H5'])
        if fmt == 'H5':
            make_h5able(ctx, stream, models)
            if not uniq_ids(stream):
                continue
        steps.append(fmt)
        d, pattern = write(ctx, stream, fmt)
        if ctx.p(.2):  # another file does not matter
            write(ctx, stream, ctx.choice(['SAC', 'Q']))
        got = read(ctx, fmt, pattern)
        pairs = pair(ctx, fmt, models, got)
        for m, tr in pairs:
            compare(ctx, fmt, m, tr)
        ctx.ev('chain-step')
        if len(pairs) < len(models):
            break
        stream = RFStream([tr for _, tr in pairs])
        models = [m for m, _ in pairs]
        # modify
        for m, tr in pairs:
            kind = ctx.choice(['none', 'update', 'update', 'cut', 'data',
                               'id'])
            steps.append(kind)
            if kind == 'update':
                new = rand_headers(ctx, tr, prob=.4)
                m['head'].update(new)
                for h in new:
                    m['tol'].pop(h, None)
            elif kind == 'cut' and len(tr) > 4:
                a = ctx.i(1, len(tr) // 2)
                b = ctx.i(len(tr) // 2 + 1, len(tr))
                tr.data = tr.data[a:b]
                tr.stats.starttime += a * tr.stats.delta
                m['data'] = m['data'][a:b]
                m['start'] = m['start'] + a / m['sr']
                m['ttol'] += a * 6e-7
            elif kind == 'data':
                tr.data = tr.data * 2.
                m['data'] = m['data'] * 2.
                m['dtol'] *= 2
            elif kind == 'id':
                tr.stats.station = gen.station_code(ctx)
                tr.stats.channel = tr.stats.channel[:2] + ctx.choice('LQTZ')
                m['id'] = tr.id
    ctx.desc = {'steps': steps, 'id': [m['id'] for m in models],
                'n': [len(m['data']) for m in models]}
    ctx.sig(*steps)


@case('sh_compat', 40, 1500)
def sh_compat(ctx):
    stream, models = random_stream(ctx, prob=1.)
    d = ctx.tmpdir()
    second = ctx.p(.5)
    ctx.desc = {'ids': [m['id'] for m in models], 'second': second,
                'heads': [sorted(m['head']) for m in models]}
    ctx.sig(second, len(stream))
    if second:  # COMMENT already present from former write
        stream.write(os.path.join(d, 'a.QHD'), 'Q')
        if ctx.p(.5):
            stream = read_rf(os.path.join(d, 'a.QHD'))
    if ctx.p(.6):
        stream.write(os.path.join(d, 'b.QHD'), 'Q', sh_compat=True)
    else:  # traces are written one by one
        ctx.ev('sh_compat-trace')
        for j, tr in enumerate(stream):
            tr.write(os.path.join(d, 'b%02d.QHD' % j), 'Q', sh_compat=True)
    ctx.ev('file:Q')
    plain = obspy.read(os.path.join(d, 'b*.QHD'))
    for tr in plain:
        ctx.ok('sh_compat', 'COMMENT' not in tr.stats.sh,
               lambda: tr.stats.sh.get('COMMENT'))
    got = RFStream()
    for f in sorted(os.listdir(d)):
        if f.startswith('b') and f.endswith('.QHD'):
            got += read_rf(os.path.join(d, f))
    ctx.same('number-of-traces', len(got), len(models))
    for m, tr in zip(models, got):
        ctx.same('seed-id', tr.id, m['id'])
        for h in HEADERS:
            if Q_FIELD[h] == 'COMMENT':
                ctx.ok('sh_compat-lost', h not in tr.stats, h)
            elif h in m['head']:
                if ctx.ok('present', h in tr.stats, h):
                    check_header(ctx, 'read', 'Q', h, tr.stats[h],
                                 m['head'][h], 2 * tolerance(
                                     'Q', h, m['head'][h], m['start']))
    # the file can be written again without sh_compat
    if not second:
        for tr, m in zip(stream, models):
            pass
        stream.write(os.path.join(d, 'c.QHD'), 'Q')
        for m, tr in zip(models, read_rf(os.path.join(d, 'c.QHD'))):
            compare(ctx, 'Q', m, tr)


@case('processed', 60, 2000)
def processed(ctx):
    """Streams as produced by the package"""
    kind = ctx.choice(['raw', 'rf', 'moveout', 'stack', 'profile',
                       'harmonic'])
    fmt = ctx.choice(['SAC', 'Q', 'H5'])
    method = ctx.choice('PS')
    ctx.desc = {'kind': kind, 'fmt': fmt, 'method': method}
    ctx.sig(kind, fmt, method)
    nev = 4 if kind == 'harmonic' else ctx.i(1, 3)
    stream = gen.data_stream(ctx, nev=nev, method=method, sr=2., npts=160)
    ctx.desc['event'] = str(stream[0].stats.event_time)
    for tr in stream:
        tr.stats.event_id = 'smi:verif/%d' % ctx.i(0, 10**6)
    if kind != 'raw':
        stream.rf(deconvolve='waterlevel')
    if kind in ('moveout', 'profile'):
        stream.moveout()
        stream.ppoints(50)
    if kind == 'stack':
        stream = stream.stack()
    if kind == 'profile':
        st = stream[0].stats
        boxes = rf.get_profile_boxes(
            (st.station_latitude, st.station_longitude), 90,
            np.linspace(-100, 100, 11))
        stream = stream.profile(boxes)
    if kind == 'harmonic':
        stream = stream.harmonics('QT' if method == 'P' else 'Q')
    models = []
    for tr in stream:
        models.append({
            'id': tr.id, 'start': tr.stats.starttime, 'data': tr.data.copy(),
            'sr': tr.stats.sampling_rate, 'tol': {}, 'dtol': 0., 'ttol': 0.,
            'head': {h: tr.stats[h] for h in HEADERS if h in tr.stats},
            'extra': {k: v for k, v in gen.header_of(tr).items()
                      if k not in OWN},
            'proc': list(tr.stats.get('processing', []))})
    ctx.ok('nonempty', len(stream) > 0)
    order = [m['data'].tobytes() for m in models]
    d, pattern = write(ctx, stream, fmt)
    got = read(ctx, fmt, pattern)
    if not ctx.same('number-of-traces', len(got), len(models)):
        return
    # identify by waveform
    used = set()
    for m in models:
        best = min((j for j in range(len(got)) if j not in used),
                   key=lambda j: (got[j].id != m['id'],
                                  abs(got[j].stats.starttime - m['start'])
                                  > .1, np.max(np.abs(
                       got[j].data - m['data'])) if len(got[j]) ==
                       len(m['data']) else 1e9))
        used.add(best)
        tr = got[best]
        compare(ctx, fmt, m, tr)
        if fmt == 'H5':
            for k, v in m['extra'].items():
                if k in ('starttime', 'endtime', 'npts', 'delta',
                         'sampling_rate', 'calib', '_format'):
                    continue
                if ctx.ok('h5-extra', k in tr.stats, lambda: k):
                    if isinstance(v, UTC) or isinstance(v, str):
                        ctx.same('h5-extra', tr.stats[k], v, k)
                    else:
                        ctx.close('h5-extra', tr.stats[k], v, msg=k)
            ctx.same('h5-processing', list(tr.stats.get('processing', [])),
                     m['proc'])


@case('h5extra', 40, 1500)
def h5extra(ctx):
    stream, models = random_stream(ctx)
    kind = make_h5able(ctx, stream, models)
    if not uniq_ids(stream):
        return ctx.trivial()
    extras = []
    for tr in stream:
        e = {'event_id': 'smi:local/event/%d' % ctx.i(0, 10**9),
             'slowness_before_moveout': ctx.u(2, 12),
             'processing': ['a%d' % j for j in range(ctx.i(1, 4))],
             'num': ctx.i(1, 100), 'box_latitude': ctx.u(-90, 90),
             'box_longitude': ctx.u(-180, 180), 'comment': 'x y: z',
             'mytime': gen.utc(ctx, 10**8, 10**9)}
        tr.stats.update(e)
        extras.append(e)
    ctx.desc = {'extras': str(extras), 'type': kind}
    d = ctx.tmpdir()
    fname = os.path.join(d, 'x.h5')
    append = ctx.p(.4) and len(stream) > 1
    name = ctx.choice(['H5', 'h5'])
    if append:
        stream[:1].write(fname, name)
        stream[1:].write(fname, name, mode='a')
    else:
        stream.write(fname, name)
    ctx.ev('file:H5')
    ctx.sig(kind, append, len(stream))
    got = read_rf(fname, 'H5')
    for m, e in zip(models, extras):
        m['extra'] = e
    for m, tr in pair(ctx, 'H5', models, got):
        compare(ctx, 'H5', m, tr)
        for k, v in m['extra'].items():
            if ctx.ok('h5-extra', k in tr.stats, lambda: k):
                if k == 'processing':
                    ctx.same('h5-extra', list(tr.stats[k]), v, k)
                elif k == 'mytime':
                    ctx.close('h5-extra', tr.stats[k] - v, 0, atol=1e-6,
                              msg=k)
                else:
                    ctx.same('h5-extra', tr.stats[k], v, k)
    if kind != 'rf':
        return
    # traces of a single event and station can be selected
    ctx.ev('h5-select')
    tr = stream[ctx.i(0, len(stream) - 1)]
    keys = ('network', 'station', 'location', 'event_time')
    sel = {k: tr.stats[k] for k in keys}
    part = read_rf(fname, ctx.choice(['H5', 'h5']), readonly=sel)
    sec = lambda tr: tuple(tr.stats[k] for k in keys[:3]) + (
        str(tr.stats.event_time)[:19],)
    ctx.same('h5-select', sorted((tr2.id, str(tr2.stats.starttime)[:19])
                                 for tr2 in part),
             sorted((tr2.id, str(tr2.stats.starttime)[:19])
                    for tr2 in got if sec(tr2) == sec(tr)))


@case('foreign', 40, 1500)
def foreign(ctx):
    """Files of other programs: some of the fields, other comments"""
    from obspy.core import AttribDict
    fmt = ctx.choice(['SAC', 'Q', 'Q'])
    stream, models = random_stream(ctx, ntr=ctx.i(1, 3), prob=0)
    d = ctx.tmpdir()
    written, comments = [], []
    for j, m in enumerate(models):
        data = m['data']
        tr = obspy.Trace(np.array(data, np.float32), header=dict(
            zip(('network', 'station', 'location', 'channel'),
                m['id'].split('.'))))
        tr.stats.starttime = m['start']
        tr.stats.sampling_rate = m['sr']
        fields = AttribDict()
        heads = [h for h in HEADERS if ctx.p(.5) and (
            fmt == 'SAC' or Q_FIELD[h] != 'COMMENT')]
        for h in heads:
            if h in TIMES and fmt == 'Q':
                val = m['start'] + round(ctx.u(-900, 900), 3)
            elif h in STRINGS:
                val = ctx.choice(['P', 'rf', 'abc', 'S1'])
            else:
                val = float(np.float32(ctx.u(-90, 180)))
            fields[(Q_FIELD if fmt == 'Q' else SAC_FIELD)[h]] = val
        com = None
        if fmt == 'Q' and ctx.p(.8):
            com = ctx.choice([
                'made by hand', '12345', '-3.5', 'null', 'true', '[1, 2]',
                '{not json', '}', '"text"', 'a:b;c', '{}', '{"mine": 5}',
                'NaN', 'P', 'x' * 60])
            fields['COMMENT'] = com
        elif fmt == 'SAC' and heads and ctx.p(.5):
            fields.update({'kevnm': 'event', 'user7': 5., 't0': 3.})
        tr.stats['sh' if fmt == 'Q' else 'sac'] = fields
        comments.append(com)
        written.append(heads)
        tr.write(os.path.join(d, '%d%s' % (j, EXT[fmt])), fmt)
    ctx.desc = {'fmt': fmt, 'heads': written, 'comments': comments,
                'ids': [m['id'] for m in models]}
    ctx.sig(fmt, str(comments[0])[:8], len(written[0]))
    for j, heads in enumerate(written):
        f = os.path.join(d, '%d%s' % (j, EXT[fmt]))
        plain = obspy.read(f, format=fmt)
        got = read_rf(f, format=fmt)
        ctx.ok('type', isinstance(got, RFStream) and all(
            isinstance(tr, RFTrace) for tr in got))
        ctx.same('number-of-traces', len(got), 1)
        tr, raw = got[0], plain[0]
        ctx.same('seed-id', tr.id, raw.id)
        ctx.ok('waveform', np.array_equal(tr.data, raw.data))
        ctx.same('foreign-time', (tr.stats.starttime, tr.stats.npts,
                                  tr.stats.sampling_rate),
                 (raw.stats.starttime, raw.stats.npts,
                  raw.stats.sampling_rate))
        for h in HEADERS:
            # ObsPy calculates distance and azimuth for SAC
            if h in heads or h in ('distance', 'back_azimuth') and \
                    fmt == 'SAC' and raw_value(fmt, raw, h) is not None:
                want = raw_value(fmt, raw, h)
                if ctx.ok('foreign-present', h in tr.stats, h):
                    check_header(ctx, 'foreign', fmt, h, tr.stats[h], want,
                                 2e-6 if h in TIMES else 0)
            else:
                ctx.ok('foreign-absent', h not in tr.stats, h)
        if comments[j] == '{"mine": 5}':
            ctx.same('foreign-comment', tr.stats.get('mine'), 5)
        ctx.ev('foreign:' + fmt)
