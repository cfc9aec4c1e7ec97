"""
C24: the command line pipeline gives the same results as the Python API
"""
import os

import numpy as np

from mon import cli, gen
from mon.core import case

PROP = 'C24'
TECHNIQUE = 'differential runtime monitor: files written by the command line interface are compared with results of the Python API on the same data'
NOTE = 'held on sampled data sets, configurations, formats and command sequences'
RULE = ('synthetic data sets of 1-3 stations with similar codes and 1-3 '
        'events, random options, all formats, separate and combined commands')
ASSUMPTIONS = ['file formats keep the headers and samples as checked by C01',
               'one band code for each location']
REQUIRED = {'data:data': 60, 'calc:data': 60, 'moveout:data': 60,
            'combined:data': 30, 'stack:data': 20, 'profile:data': 10,
            'convert:data': 40, 'files': 100, 'format:Q': 5, 'format:SAC': 6,
            'format:H5': 3, 'phase:S': 4, 'plot': 1, 'formats-agree': 8,
            'objects': 4, 'rerun': 3, 'partial': 1, 'convert-chain': 4}


def rf_options(ctx, phase):
    kw = {}
    if ctx.p(.5):
        kw['filter'] = {'type': 'bandpass', 'freqmin': .05, 'freqmax': 1.5}
    if ctx.p(.6):
        kw['trim'] = [-25, 60] if phase == 'P' else [-60, 30]
    if ctx.p(.3):
        kw['rotate'] = ctx.choice(['NE->RT', 'ZNE->LQT'])
    if ctx.p(.5):
        kw['deconvolve'] = ctx.choice(['time', 'waterlevel', 'iterative'])
    if ctx.p(.3):
        kw['winsrc'] = [-5, 20, 5]
    return kw


def setup(ctx, holes=True):
    phase = ctx.choice('PPPS')
    window = [-35, 75] if phase == 'P' else [-75, 35]
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, phase, window=window, holes=holes)
    opts = {'request_window': window}
    if phase == 'S':
        opts['phase'] = 'S'
        ctx.ev('phase:S')
    if ctx.p(.5):
        opts['pp_depth'] = ctx.choice([50, 70.5])
    if ctx.p(.3):
        opts['pad'] = ctx.choice([0, 5])
    conf = ds.config(options=opts, rf=rf_options(ctx, phase))
    if ctx.p(.4):
        conf['moveout'] = {'ref': ctx.u(5.5, 7) if phase == 'P' else
                           ctx.u(9, 11)}
    return ds, conf, opts, path, phase


def kwargs(conf):
    kw = dict(conf.get('rf', {}))
    return kw, dict(conf.get('moveout', {}))


def flat(streams):
    from rf import RFStream
    return RFStream([tr for st in streams for tr in st])


def check_files(ctx, path, root, fmt, stream, kind=None):
    """files of output path are exactly the expected ones"""
    want = cli.fnames(root, fmt, stream, kind)
    got = set(cli.listing(path, root)) if os.path.isdir(
        os.path.join(path, root)) else set()
    got |= {n for n in os.listdir(path) if n.rsplit('.', 1)[0] == root and
            not os.path.isdir(os.path.join(path, n))}
    ctx.same('files', sorted(got), sorted(want))
    return got


def expect(ctx, clause, path, root, fmt, want, kind=None, rtol=1e-6, **kw):
    names = check_files(ctx, path, root, fmt, want, kind)
    got = cli.read_all(path, names)
    cli.compare(ctx, clause, got, cli.roundtrip(ctx, want, fmt), rtol, **kw)
    return got


@case('pipeline', 40, 1500, 1)
def case_pipeline(ctx):
    from rf import RFStream, get_profile_boxes
    ds, conf, opts, path, phase = setup(ctx)
    fmt = ctx.choice(['Q', 'SAC', 'H5'])
    ctx.ev('format:' + fmt)
    args = []
    if fmt != 'Q' or ctx.p(.5):
        if ctx.p(.5):
            conf['format'] = fmt
        else:
            args = ['--format', fmt]
    rfkw, mkw = kwargs(conf)
    ctx.desc = {'conf': conf, 'fmt': fmt, 'args': args,
                'ids': sorted(set(tr.id for tr in ds.stream)),
                'events': [str(e.origins[0].time) for e in ds.events]}
    ctx.sig(fmt, phase, len(ds.stations), len(ds.events))
    with cli.cwd(path):
        cli.write_conf('conf.json', conf, ctx.p(.5))
        run = lambda *a: cli.cli(*(args + list(a)))
        # data
        run('data', 'd')
        raw = ds.api(opts)
        if not raw:
            ctx.same('files', [n for n in os.listdir(path)
                               if n.startswith('d.') or n == 'd'], [])
            return ctx.trivial()
        expect(ctx, 'data', path, 'd', fmt, flat(raw))
        # calc on files
        want = []
        for st in raw:
            st = cli.roundtrip(ctx, st, fmt)
            want.append(st.rf(**rfkw))
        want = flat(want)
        run('calc', 'd', 'r')
        rfs = expect(ctx, 'calc', path, 'r', fmt, want)
        if fmt != 'H5' and ctx.p(.4):
            # again with other options, files of the first run are replaced
            ctx.ev('rerun')
            other = dict(rfkw, trim=[-20, 40] if phase == 'P' else [-45, 25])
            if rfkw.get('trim'):
                other.pop('trim')
            cli.write_conf('conf.json', dict(conf, rf=other))
            run('calc', 'd', 'r2')
            cli.write_conf('conf.json', conf, ctx.p(.5))
            run('calc', 'd', 'r2')
            expect(ctx, 'calc', path, 'r2', fmt, want)
        # moveout on files
        run('moveout', 'r', 'm')
        groups = {}
        for tr in rfs:
            groups.setdefault((tr.id[:-1], tr.stats.event_time.ns),
                              []).append(tr.copy())
        want = flat([RFStream(g).moveout(**mkw) for g in groups.values()])
        mout = expect(ctx, 'moveout', path, 'm', fmt, want)
        if fmt == 'SAC' and len(mout) > 3 and ctx.p(.5):
            # components are missing
            ctx.ev('partial')
            for tr in [tr for tr in mout if ctx.p(.2)][:len(mout) - 1]:
                for n in cli.fnames('m', fmt, [tr]):
                    os.remove(n)
                mout.remove(tr)
        # combined commands
        cmd = ctx.choice([['data', 'calc'], ['data', 'calc', 'moveout'],
                          ['calc', 'moveout', 'd']])
        run(*(cmd + ['x']))
        want = []
        for st in raw:
            st = st.copy()
            if cmd[0] == 'calc':
                st = cli.roundtrip(ctx, st, fmt)
            st.rf(**rfkw)
            if 'moveout' in cmd:
                st.moveout(**mkw)
            want.append(st)
        expect(ctx, 'combined', path, 'x', fmt, flat(want))
        # stack
        ids = {}
        for tr in mout:
            ids.setdefault(tr.id, []).append(tr)
        if all(len(set(len(t) for t in v)) == 1 for v in ids.values()):
            run('stack', 'm', 's')
            want = flat([RFStream(v).stack() for v in ids.values()])
            expect(ctx, 'stack', path, 's', fmt, want, 'stack')
        # profile
        if 'pp_depth' in opts and len(set(len(t) for t in mout)) == 1:
            s = ds.stations[0]
            az = ctx.choice([0, 90, 45])
            box = {'latlon0': [s['lat'], s['lon']], 'azimuth': az,
                   'width': ctx.choice([300, 2000])}
            bins = [-120, 120, ctx.i(3, 8)]
            conf['boxes'] = box
            conf['boxbins'] = bins
            cli.write_conf('conf.json', conf, ctx.p(.5))
            run('profile', 'm', 'p')
            boxes = get_profile_boxes(bins=np.linspace(*bins), **box)
            want = mout.profile(boxes)
            if len(want):
                expect(ctx, 'profile', path, 'p', fmt, want, 'profile',
                       rtol=1e-5)
            if len(want) and ctx.p(.1):
                run('plot-profile', 'p', 'pp')
                ctx.ev('plot')
                ctx.same('plot-files', cli.listing(path, 'pp'), sorted(set(
                    'pp/profile_%s.pdf' % tr.stats.channel[-1]
                    for tr in want)))
        # convert
        new = ctx.choice([f for f in ('Q', 'SAC', 'H5') if f != fmt])
        run('convert', 'm', 'c', new)
        expect(ctx, 'convert', path, 'c', new, mout)
        if ctx.p(.3):
            cli.cli('--format', new, 'convert', 'c', 'c2', fmt)
            ctx.ev('convert-chain')
            c = cli.read_all(path, cli.fnames('c', new, mout))
            expect(ctx, 'convert', path, 'c2', fmt, c)
        if ctx.p(.1) and len(ids) < 7:
            run('plot', 'm', 'pl')
            ctx.ev('plot')
            ctx.same('plot-files', cli.listing(path, 'pl'), sorted(
                'pl/%s.pdf' % i for i in ids))


@case('formats', 12, 400, 1)
def case_formats(ctx):
    """processing in one format or another gives the same results"""
    ds, conf, opts, path, phase = setup(ctx, holes=False)
    conf.pop('moveout', None)
    conf['rf'].pop('deconvolve', None)
    ctx.desc = {'conf': conf}
    fmts = [['Q', 'SAC', 'H5'][i] for i in ctx.rng.permutation(3)[:2]]
    res = []
    with cli.cwd(path):
        cli.write_conf('conf.json', conf)
        for f in fmts:
            cli.cli('--format', f, 'data', 'd' + f)
            cli.cli('--format', f, 'calc', 'moveout', 'd' + f, 'm' + f)
            names = [n for n in cli.listing(path) if n.startswith('m' + f)]
            res.append(cli.read_all(path, names))
    a, b = res
    scale = max(np.abs(tr.data).max() for tr in a)
    cli.compare(ctx, 'formats', b, a, rtol=0, atol=.01 * scale, heads=False)
    ctx.ev('formats-agree', len(a))


@case('objects', 10, 300, 1)
def case_objects(ctx):
    """run_commands with objects and user defined function"""
    from rf.batch import run_commands
    ds, conf, opts, path, phase = setup(ctx)
    fmt = ctx.choice(['Q', 'SAC', 'H5'])
    rfkw, mkw = kwargs(conf)
    events, inv, data = ds.load()
    calls = []

    def get(network, station, location, channel, starttime, endtime):
        calls.append((network, station, location))
        if station == ds.stations[0]['sta'] and len(calls) % 2:
            return data.select(network=network, station=station,
                               location=location, channel=channel).slice(
                                   starttime, endtime)
        return data.select(id='.'.join((network, station, location, channel))
                           ).slice(starttime, endtime)
    ctx.desc = {'conf': conf, 'fmt': fmt}
    kw = {}
    if ctx.p(.5):
        kw['phase'] = phase
    if ctx.p(.5):
        phs = mkw['phase'] = ctx.choice(
            {'P': ['Ps', 'Ppps'], 'S': ['Sp', 'Spss']}[phase])
        kw['moveout_phase'] = phs
    if ctx.p(.5):
        evs = events
    else:
        evs = list(events)
        if len(evs) == 2 and isinstance(evs[0], str):
            evs = events
    with cli.cwd(path):
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()):
            run_commands('data', ['calc', 'moveout'], events=evs,
                         inventory=inv, get_waveforms=get, path_out='x',
                         format=fmt, options=dict(opts), rf=dict(rfkw),
                         moveout={k: v for k, v in mkw.items()
                                  if k != 'phase'}, **kw)
        raw = ds.api(opts)
        want = flat([st.rf(**rfkw).moveout(**mkw) for st in raw])
        if len(want):
            expect(ctx, 'objects', path, 'x', fmt, want)
            ctx.ev('objects')
