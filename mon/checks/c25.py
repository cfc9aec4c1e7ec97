"""
C25: precedence and parsing of configuration and command line options
"""
import contextlib
import io
import json
import os
import re
import sys

import numpy as np

from mon import cli, gen, hooks
from mon.checks import c24
from mon.core import case

PROP = 'C25'
TECHNIQUE = 'runtime monitor: files, output and parameters observed for command line runs are compared with an independent model of option precedence evaluated with the Python API'
NOTE = 'held on sampled combinations of options in configuration file and command line'
RULE = ('each option at random in the configuration, the command line, both '
        'or none; random comments; erroneous configurations and commands; '
        'templates')
ASSUMPTIONS = ['the Python API gives the correct results (checked by the '
               'other properties)']
REQUIRED = {'result:data': 40, 'both:rf': 4, 'both:options': 4,
            'both:events': 4, 'both:inventory': 4, 'both:data': 4,
            'both:format': 4, 'both:moveout': 4, 'both:phase': 3,
            'both:moveout_phase': 4, 'cli:rf': 4, 'conf:rf': 3,
            'profile:data': 6, 'no-conf': 1, 'no-result': 30, 'reported': 25,
            'create': 3, 'template-result:data': 6, 'plugin-called': 2,
            'client-options': 1, 'figsize': 3, 'print': 6, 'comments': 10}


def capture(*args):
    """run command line interface, (output, exit code, exception)"""
    from rf.batch import run_cli
    out = io.StringIO()
    code = exc = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            run_cli([str(a) for a in args])
        except SystemExit as ex:
            code = ex.code
        except Exception as ex:
            exc = ex
    # progress bar is no message
    text = re.sub(r'.*(it/s|s/it|\?it).*', '', out.getvalue())
    return text, code, exc


def commented(ctx, text):
    """insert comments which have to be ignored"""
    junk = ['# "rf": {}', '#', '#}{', '  # "options": {"phase": "PP"},',
            '#"format": "XX"', '### }', '# \u00e4\u00f6']
    lines = []
    for line in text.split('\n'):
        while ctx.p(.2):
            lines.append(ctx.choice(junk))
        while ctx.p(.1):
            lines.append('')
        if ctx.p(.3):
            line += ctx.choice(['', ' ', '\t']) + ctx.choice(junk)
        lines.append(line)
    while ctx.p(.3):
        lines.append(ctx.choice(junk))
    return '\n'.join(lines)


def write_conf(ctx, fname, conf):
    text = json.dumps(conf, indent=ctx.choice([None, 0, 1, 4]))
    if ctx.p(.5):
        text = commented(ctx, text)
        ctx.ev('comments')
    with open(fname, 'w', encoding='utf8') as f:
        f.write(text)


def alternatives(ctx, ds, path, phase):
    """two different values for each option"""
    from obspy import Stream
    n = len(ds.events)
    ds.events[:max(1, n - 1)].write('sub.xml', 'QUAKEML')
    from obspy import Inventory
    Inventory(networks=ds.inventory.networks[:1], source='').write(
        'subinv.xml', 'STATIONXML')
    Stream([tr.copy().decimate(2, no_filter=True) for tr in ds.stream]).write(
        'other.mseed', 'MSEED')
    w = list(ds.window)
    w2 = [w[0] + 4, w[1] - 3]
    quoted = lambda d: d
    ph = {'P': ['Ps', 'Ppps', 'Ppss'], 'S': ['Sp', 'Spss']}[phase]
    rf1 = {'trim': [w[0] + 10, w[1] - 12], 'rotate': 'NE->RT'}
    rf2 = {'filter': {'type': 'highpass', 'freq': .1, 'corners': 2},
           'deconvolve': 'waterlevel'}
    rf3 = {'deconvolve': None, 'trim': [w[0] + 7, w[1] - 9]}
    opts = [{'request_window': w, 'pp_depth': 50},
            {'request_window': w2, 'pp_depth': 70},
            {'request_window': w, 'pad': 5, 'phase': 'SKS'},
            {'request_window': w2, 'dist_range': [0, 180]}]
    mo = [{'ref': 6.1 if phase == 'P' else 10.}, {'phase': ph[-1]},
          {'model': 'iasp91', 'ref': 7. if phase == 'P' else 11.}, {}]
    evs = ['events.xml', 'sub.xml', ['events.xml', 'QUAKEML'],
           ['sub.xml', 'QUAKEML']]
    inv = ['inv.xml', 'subinv.xml', ['inv.xml', 'STATIONXML']]
    return {'events': evs, 'inventory': inv,
            'data': ['data.mseed', 'other.mseed', 'dat*.mseed'],
            'options': opts, 'rf': [rf1, rf2, rf3, {}], 'moveout': mo,
            'format': ['Q', 'SAC', 'H5'], 'phase': [phase, phase, 'SKS'],
            'moveout_phase': ph}


@case('precedence', 60, 1500, 2)
def case_precedence(ctx):
    import obspy
    from rf import iter_event_data
    phase = ctx.choice('PPPS')
    window = [-35, 75] if phase == 'P' else [-75, 35]
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, phase, window=window, holes=False,
                     nev=ctx.i(2, 3), nsta=ctx.i(1, 2))
    with cli.cwd(path):
        alt = alternatives(ctx, ds, path, phase)
        noconf = ctx.p(.1)
        conf, args, eff = {}, [], {}
        for o, values in alt.items():
            a = ctx.choice(values)
            b = ctx.choice([v for v in values if v != a])
            mode = ctx.choice(['conf', 'cli', 'both', 'both', 'none'])
            if o in ('events', 'inventory', 'data') and mode == 'none':
                mode = 'conf'
            if o == 'phase' and (phase == 'S' or mode == 'both'):
                # distinguishable only if the overridden phase is different
                mode = ctx.choice(['both', 'cli'])
                a = ctx.choice(['PP', 'P', 'S'])
                b = phase
            elif o == 'phase':
                a = b = phase
                if 'phase' in eff.get('options', {}):  # has to be replaced
                    mode = ctx.choice(['conf', 'cli'])
                    ctx.ev('phase-in-options')
            if o in ('events', 'inventory') and not isinstance(b, str):
                b = b[0]
            if o == 'options' and mode == 'none':
                mode = 'conf'
            if noconf and mode != 'none':
                mode = 'cli'
            ctx.ev('%s:%s' % (mode, o))
            if mode in ('conf', 'both'):
                conf[o] = a
                eff[o] = a
            if mode in ('cli', 'both'):
                val = b if isinstance(b, str) else json.dumps(b)
                flag = '--' + o.replace('_', '-')
                args += [flag + '=' + val] if ctx.p(.3) else [flag, val]
                eff[o] = b
        if noconf:
            args += ['-c', ctx.choice(['none', 'None', 'null', ''])]
            if os.path.exists('conf.json'):
                os.remove('conf.json')
            ctx.ev('no-conf')
        else:
            # entries for other commands do not disturb
            conf.update({'boxbins': [0, 10, 3], 'boxes': {
                'latlon0': [0, 0], 'azimuth': 0}, 'plugin': 'a : b',
                'client_options': {'user': 'x'}, 'plot': {'trim': [0, 1]}})
            keys = list(conf)
            ctx.rng.shuffle(keys)
            conf = {k: conf[k] for k in keys}
            name = ctx.choice(['conf.json', 'conf.json', 'my conf', 'x/c.js'])
            if name != 'conf.json':
                args += [ctx.choice(['-c', '--conf']), name]
                os.makedirs('x', exist_ok=True)
                if ctx.p(.5):
                    write_conf(ctx, 'conf.json', {'bla': 1})
            write_conf(ctx, name, conf)
        cmds = ctx.choice([[], ['calc'], ['calc', 'moveout'],
                           ['calc', 'moveout'], ['moveout']])
        ctx.desc = {'conf': conf, 'args': args, 'cmds': cmds}
        ctx.sig(phase, cmds, sorted(eff))
        text, code, exc = capture(*(args + ['data'] + cmds + ['out']))
        ctx.same('clean-run', (code, exc), (None, None), text[-300:])
        # model
        opts = dict(eff.get('options', {}))
        opts['phase'] = eff.get('phase', opts.get('phase', 'P'))
        mkw = dict(eff.get('moveout', {}))
        if 'moveout_phase' in eff:
            mkw['phase'] = eff['moveout_phase']
        fn = lambda x: x if isinstance(x, str) else x[0]
        events = obspy.read_events(fn(eff['events']))
        inv = obspy.read_inventory(fn(eff['inventory']))
        data = obspy.read(eff['data'])

        def get(network, station, location, channel, starttime, endtime):
            st = obspy.Stream([tr.copy() for tr in data.select(
                network=network, station=station, location=location,
                channel=channel)])
            return st.slice(starttime, endtime)
        want = []
        for st in iter_event_data(events, inv, get, **opts):
            for c in cmds:
                st = getattr(st, 'rf' if c == 'calc' else c)(
                    **(eff.get('rf', {}) if c == 'calc' else mkw))
            want.append(st)
        want = c24.flat(want)
        if len(want):
            c24.expect(ctx, 'result', path, 'out', eff.get('format', 'Q'),
                       want)


@case('profile', 12, 400, 1)
def case_profile(ctx):
    from rf import RFStream, get_profile_boxes
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, 'P', holes=False)
    opts = {'request_window': list(ds.window), 'pp_depth': 50}
    fmt = ctx.choice(['Q', 'SAC', 'H5'])
    s = ds.stations[0]
    box = lambda: {'latlon0': [s['lat'], s['lon']],
                   'azimuth': ctx.choice([0, 45, 90, 200]),
                   'width': ctx.choice([400, 2000])}
    bins = lambda: [-ctx.i(90, 150), ctx.i(90, 150), ctx.i(3, 7)]
    val = {'boxes': box, 'boxbins': bins, 'profile': lambda: {
        'crs': ctx.choice([None])}}
    with cli.cwd(path):
        conf = ds.config(options=opts, format=fmt)
        cli.write_conf('conf.json', conf)
        capture('data', 'calc', 'moveout', 'd')
        args, eff = [], {}
        for o in ('boxes', 'boxbins'):
            mode = ctx.choice(['conf', 'cli', 'both'])
            a, b = val[o](), val[o]()
            if mode in ('conf', 'both'):
                conf[o] = eff[o] = a
            if mode in ('cli', 'both'):
                args += ['--' + o, json.dumps(b)]
                eff[o] = b
            ctx.ev('%s:%s' % (mode, o))
        if ctx.p(.3):
            # bins given directly, replaced by boxbins
            b = dict(eff['boxes'], bins=list(np.linspace(*eff['boxbins'])))
            args = []
            conf.pop('boxbins', None)
            if ctx.p(.5):
                b['bins'] = [-200, 0, 50]
                args = ['--boxbins', json.dumps(eff['boxbins'])]
                if ctx.p(.5):
                    args = []
                    conf['boxbins'] = eff['boxbins']
                ctx.ev('bins-and-boxbins')
            conf['boxes'] = b
            ctx.ev('bins')
        ctx.desc = {'conf': conf, 'args': args}
        write_conf(ctx, 'conf.json', conf)
        capture(*(args + ['profile', 'd', 'p']))
        names = cli.listing(path, 'd') if fmt != 'H5' else ['d.h5']
        st = cli.read_all(path, names)
        boxes = get_profile_boxes(bins=np.linspace(*eff['boxbins']),
                                  **eff['boxes'])
        want = st.profile(boxes)
        if len(want):
            c24.expect(ctx, 'profile', path, 'p', fmt, want, 'profile',
                       rtol=1e-5)
        if ctx.p(.4) and len(want):
            # options for the plots
            w1, w2 = round(ctx.u(4, 7), 2), round(ctx.u(8, 11), 2)
            which = ctx.choice(['plot', 'plot_profile'])
            k = {'plot': 'fig_width', 'plot_profile': 'figsize'}[which]
            v = lambda w: w if which == 'plot' else [w, 5]
            mode = ctx.choice(['conf', 'cli', 'both'])
            args = []
            if mode != 'cli':
                conf[which] = {k: v(w1)}
            if mode != 'conf':
                args = ['--' + which.replace('_', '-'),
                        json.dumps({k: v(w2)})]
            write_conf(ctx, 'conf.json', conf)
            src = 'd' if which == 'plot' else 'p'
            r = capture(*(args + [which.replace('_', '-'), src, 'pl']))
            ctx.same('clean-run', r[1:], (None, None), r[0][-300:])
            files = cli.listing(path, 'pl')
            ctx.ok('figures', len(files) > 0)
            for f in files:
                with open(f, 'rb') as fh:
                    m = re.search(rb'/MediaBox \[ *([-\d. ]+)\]', fh.read())
                size = [float(x) / 72 for x in m.group(1).split()]
                ctx.close('figsize', size[2] - size[0],
                          w1 if mode == 'conf' else w2, atol=.02)


@case('errors', 60, 1500, 4)
def case_errors(ctx):
    """errors are reported, nothing is written"""
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, 'P', nsta=1, nev=1, holes=False)
    conf = ds.config(options={'request_window': list(ds.window)})
    args, cmd = [], ctx.choice([
        ['data', 'calc'], ['data'], ['calc', 'd'], ['moveout', 'd'],
        ['convert', 'd'], ['stack', 'd'], ['profile', 'd'],
        ['calc', 'moveout', 'd']])
    uses_events = cmd[0] != 'stack'
    kinds = ['unknown-conf', 'invalid-json', 'missing-conf', 'missing-inv',
             'broken-inv', 'unknown-cli', 'no-command', 'unknown-command',
             'truncated-conf']
    if uses_events:
        kinds += ['missing-events', 'broken-events']
    if cmd[0] == 'data':
        kinds += ['missing-data', 'missing-plugin', 'twice', 'twice',
                  'broken-data', 'missing-func']
    if cmd[0] == 'calc':
        kinds += ['twice', 'twice']
    kind = ctx.choice(kinds)
    ctx.sig(kind, cmd[0])
    with cli.cwd(path):
        cli.write_conf('conf.json', conf)
        capture('data', 'd')
        good = dict(conf)
        text = None
        if kind == 'unknown-conf':
            conf[ctx.choice(['bla', 'event', 'deconvolve', 'Rf',
                             'rotate', 'plot-profile', 'moveout-phase',
                             'client-options', 'kwargs'])] = 1
        elif kind in ('invalid-json', 'truncated-conf'):
            text = json.dumps(conf, indent=1)
            if kind == 'invalid-json':
                text = ctx.choice([text.replace(',', '', 1), text + '}', '',
                                   '# x', text.replace('"', "'")])
            else:
                text = text[:ctx.i(1, len(text) - 1)]
        elif kind == 'missing-conf':
            args = ['-c', 'nothing.json']
        elif kind in ('missing-events', 'missing-inv', 'missing-data'):
            k = {'missing-events': 'events', 'missing-inv': 'inventory',
                 'missing-data': 'data'}[kind]
            if kind != 'missing-data' and ctx.p(.5):
                conf.pop(k)
            else:
                conf[k] = 'nothing.xml'
        elif kind == 'broken-events':
            with open('events.xml', 'w') as f:
                f.write('<quakeml')
        elif kind == 'broken-inv':
            with open('inv.xml', 'w') as f:
                f.write('<FDSNStationXML')
        elif kind == 'broken-data':
            with open('data.mseed', 'w') as f:
                f.write('abc')
        elif kind in ('missing-plugin', 'missing-func'):
            conf['data'] = 'plugin'
            conf['plugin'] = ctx.choice(
                ['nomodule_x : func', 'nocolon', '']
                if kind == 'missing-plugin' else ['os : nofunc'])
        elif kind == 'unknown-cli':
            args = [ctx.choice(['--bla', '--blub=5', '-x'])]
        elif kind == 'twice':
            cmd = (['data'] + ctx.choice([
                ['calc', 'calc'], ['moveout', 'moveout'],
                ['calc', 'moveout', 'calc'], ['calc', 'moveout', 'moveout'],
                ['moveout', 'moveout', 'moveout']])
                if cmd[0] == 'data' else
                ['calc'] + ['moveout'] * ctx.i(2, 3) + ['d'])
        if text is None:
            text = json.dumps(conf)
        if ctx.p(.3):
            text = commented(ctx, text)
        with open('conf.json', 'w', encoding='utf8') as f:
            f.write(text)
        full = args + cmd + ['out']
        if cmd[0] == 'convert':
            full += ['SAC']
        if kind == 'no-command':
            full = []
        elif kind == 'unknown-command':
            full = ['dat', 'out']
        ctx.desc = {'kind': kind, 'args': full, 'conf': text}
        before = hooks.tree(path)
        msg, code, exc = capture(*full)
        after = hooks.tree(path)
        ctx.same('no-result', sorted(after.items(), key=str),
                 sorted(before.items(), key=str), kind)
        if kind == 'no-command':
            # python 3: no command is an error, which kind is not documented
            return
        ctx.ok('reported', bool(msg.strip()) and exc is None, lambda:
               '%s: output %r, code %r, exception %r' % (kind, msg, code,
                                                         exc))
        if code is not None:
            ctx.ok('exit-code', code != 0)
        # next correct command works
        if kind in ('twice', 'unknown-cli', 'unknown-conf', 'missing-conf',
                    'invalid-json', 'missing-plugin'):
            with open('conf.json', 'w') as f:
                json.dump(good, f)
            capture('data', 'calc', 'out')
            ctx.same('recovered', len(cli.listing(path, 'out')), 2)


TWICE = [a + b for a, more in (
    (['data'], [['calc', 'calc'], ['moveout', 'moveout'],
                ['calc', 'moveout', 'calc'], ['calc', 'moveout', 'moveout'],
                ['calc', 'calc', 'moveout'], ['calc'] * 3]),
    (['calc'], [['moveout', 'moveout'], ['moveout'] * 3])) for b in more]


@case('twice', len(TWICE), 2 * len(TWICE), 4)
def case_twice(ctx):
    """each of the commands given twice is an error"""
    path = ctx.tmpdir()
    cmd = TWICE[ctx.index % len(TWICE)]
    ctx.desc = {'cmd': cmd}
    with cli.cwd(path):
        with open('conf.json', 'w') as f:
            json.dump({'events': 'e.xml', 'inventory': 'i.xml'}, f)
        before = hooks.tree(path)
        msg, code, exc = capture(*(cmd + ['d'] * (cmd[0] == 'calc') +
                                   ['out']))
        ctx.ok('twice', bool(msg.strip()) and exc is None and
               'more than once' in msg and code, lambda:
               '%s: %r, code %r, exception %r' % (cmd, msg, code, exc))
        ctx.same('no-result', hooks.tree(path), before)


UNKNOWN = ['bla', 'event', 'deconvolve', 'Rf', 'rotate', 'plot-profile',
           'client-options', 'moveout-phase', 'kwargs', 'box', 'boxbin',
           'plots', 'new_format', 'rf ', '']


@case('unknown', len(UNKNOWN), 5 * len(UNKNOWN), 4)
def case_unknown(ctx):
    """each unknown option of the configuration is reported"""
    path = ctx.tmpdir()
    opt = UNKNOWN[ctx.index % len(UNKNOWN)]
    cmd = ctx.choice([['data', 'out'], ['calc', 'd', 'out'],
                      ['data', 'calc', 'out'], ['stack', 'd', 'out']])
    ctx.desc = {'option': opt, 'cmd': cmd}
    with cli.cwd(path):
        conf = {'events': 'e.xml', 'inventory': 'i.xml', opt: ctx.choice(
            [1, {}, {'a': 1}, None, 'P', [1, 2]])}
        write_conf(ctx, 'conf.json', conf)
        before = hooks.tree(path)
        msg, code, exc = capture(*cmd)
        ctx.ok('unknown', opt in msg and exc is None and code, lambda:
               '%s: %r, code %r, exception %r' % (opt, msg, code, exc))
        ctx.same('no-result', hooks.tree(path), before)


@case('template', 6, 60, 1)
def case_template(ctx):
    """create and use of the configuration"""
    import obspy
    from rf import iter_event_data
    path = ctx.tmpdir()
    with cli.cwd(path):
        with open('other.xml', 'w') as f:
            f.write('other')
        os.mkdir('sub')
        sub = ctx.choice(['', 'sub/'])
        name = ctx.choice(['conf.json', 'c.js'])
        default = name == 'conf.json' and sub == ''
        args = [] if default and ctx.p(.5) else ['-c', sub + name]
        tut = ctx.choice([[], ['-t'], ['--tutorial']])
        func = ctx.p(.4)  # from Python instead of command line
        if ctx.p(.5):  # optional package is not installed
            import importlib
            import sys
            import rf.batch
            sys.modules['tqdm'] = None
            importlib.reload(rf.batch)
            ctx.ev('without-tqdm')
        ctx.desc = {'args': args, 'tut': tut, 'func': func}
        if func:
            from rf.batch import run
            kw = {'conf': sub + name} if args else {}
            run('create', **dict(kw, tutorial=bool(tut)) if tut else kw)
        else:
            msg, code, exc = capture(*(args + ['create'] + tut))
            ctx.same('clean-run', (code, exc), (None, None), msg)
        names = {sub + name, 'other.xml'}
        if tut:
            names |= {sub + 'example_events.xml', sub +
                      'example_inventory.xml', sub + 'example_data.mseed'}
        ctx.same('create', sorted(cli.listing(path)), sorted(names))
        ctx.same('create-other', open('other.xml').read(), 'other')
        text = open(sub + name).read()
        conf = json.loads('\n'.join(
            line.split('#')[0] for line in text.split('\n')))
        if not tut:
            capture('-c', 'x.json', 'create', '-t')
            if sub:
                for f in cli.listing(path):
                    if f.startswith('example'):
                        os.rename(f, sub + f)
        with cli.cwd(os.path.join(path, sub)):
            fmt = ctx.choice(['Q', 'H5', 'SAC'])
            a = ['-c', name, '--format', fmt]
            msg, code, exc = capture(*(a + ['data', 'd']))
            ctx.same('clean-run', (code, exc), (None, None), msg)
            events = obspy.read_events(conf['events'])
            inv = obspy.read_inventory(conf['inventory'])
            data = obspy.read(conf['data'])
            get = lambda network, station, location, channel, starttime, \
                endtime: data.select(
                    network=network, station=station, location=location,
                    channel=channel).slice(starttime, endtime)
            raw = list(iter_event_data(events, inv, get, **conf['options']))
            ctx.ok('tutorial-events', len(raw) > 3)
            here = os.getcwd()
            c24.expect(ctx, 'template-data', here, 'd', fmt, c24.flat(raw))
            msg, code, exc = capture(*(a + ['calc', 'd', 'r']))
            want = c24.flat(cli.roundtrip(ctx, st, fmt).rf(**conf['rf'])
                            for st in raw)
            c24.expect(ctx, 'template-result', here, 'r', fmt, want)
            msg, code, exc = capture(*(a + ['profile', 'r', 'p']))
            ctx.same('clean-run', (code, exc), (None, None), msg)
            ctx.ok('template-profile', len(cli.listing(here, 'p')) +
                   os.path.exists('p.h5') + os.path.exists('p.QHD') > 0)


@case('sources', 20, 80, 1)
def case_sources(ctx):
    """plugins and clients get the documented arguments"""
    import obspy
    import obspy.clients.fdsn
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, 'P', holes=False)
    opts = {'request_window': list(ds.window)}
    mod = 'plug_%d_%d' % (ctx.seed, ctx.index)
    kind = ctx.choice(['plugin', 'plugin', 'client'])
    ctx.desc = {'kind': kind, 'opts': opts}
    oldpath = list(sys.path)
    with cli.cwd(path):
        conf = ds.config(options=opts)
        if kind == 'plugin':
            conf['data'] = 'plugin'
            conf['plugin'] = mod + ctx.choice([':', ' : ', ': ']) + 'func'
            with open(mod + '.py', 'w') as f:
                f.write('''
from obspy import read
CALLS = []
stream = read('data.mseed')
def func(network, station, location, channel, starttime, endtime, **kw):
    CALLS.append((network, station, location, channel))
    return stream.select(network=network, station=station, location=location,
                         channel=channel).slice(starttime, endtime)
''')
        else:
            conf['data'] = 'fdsn'
            conf['client_options'] = {'user': 'x@y', 'timeout': ctx.i(1, 99)}
        args = []
        if ctx.p(.5):
            k = 'data' if kind == 'plugin' else ctx.choice(
                ['data', 'client_options'])
            v = conf[k]
            conf[k] = {'data': 'x.mseed',
                       'client_options': {'user': 'nobody'}}[k]
            args = ['--' + k.replace('_', '-'),
                    v if isinstance(v, str) else json.dumps(v)]
        write_conf(ctx, 'conf.json', conf)
        calls = []
        inits = []
        stream = obspy.read('data.mseed')

        class FakeClient(object):
            def __init__(self, *args, **kw):
                inits.append((args, kw))

            def get_waveforms(self, network, station, location, channel,
                              starttime, endtime):
                calls.append((network, station, location, channel))
                return stream.select(
                    network=network, station=station, location=location,
                    channel=channel).slice(starttime, endtime)
        old = obspy.clients.fdsn.Client
        try:
            obspy.clients.fdsn.Client = FakeClient
            msg, code, exc = capture(*(args + ['data', 'calc', 'out']))
        finally:
            obspy.clients.fdsn.Client = old
        ctx.same('clean-run', (code, exc), (None, None), msg)
        if kind == 'plugin':
            calls = sys.modules[mod].CALLS if mod in sys.modules else []
            ctx.ok('plugin-called', len(calls) >= len(ds.stations))
            ctx.same('import-path', sys.path, oldpath)
        else:
            co = args[1] if args and args[0] == '--client-options' else None
            co = json.loads(co) if co else conf['client_options']
            ctx.same('client-options', inits, [((), co)])
            ctx.ok('client-called', len(calls) >= len(ds.stations))
        # errors are reported with the channel, interrupts stop the command
        from rf.batch import init_data
        bad = ctx.choice([ValueError('not available'), KeyError('x'),
                          KeyboardInterrupt(), SystemExit(3)])

        def fails(*args, **kw):
            raise bad
        with contextlib.redirect_stdout(io.StringIO()) as out:
            if kind == 'plugin':
                old = sys.modules[mod].func if mod in sys.modules else None
                sys.modules[mod].func = fails
                get = init_data('plugin', plugin=mod + ':func')
            else:
                obspy.clients.fdsn.Client, old = FakeClient, \
                    obspy.clients.fdsn.Client
                FakeClient.get_waveforms = fails
                get = init_data('fdsn', {})
                obspy.clients.fdsn.Client = old
            t = obspy.UTCDateTime(0)
            try:
                r = get(network='NN', station='SS', location='LL',
                        channel='BHZ', starttime=t, endtime=t + 1)
            except BaseException as ex:
                ctx.ok('interrupt', ex is bad and not isinstance(
                    bad, Exception), lambda: repr(ex))
            else:
                ctx.ok('interrupt', r is None and isinstance(bad, Exception),
                       lambda: '%r lost' % bad)
                ctx.ok('reported', 'NN.SS.LL.BHZ' in out.getvalue())
        want = c24.flat(st.rf() for st in ds.api(opts))
        c24.expect(ctx, 'result', path, 'out', 'Q', want)


@case('print', 12, 200, 2)
def case_print(ctx):
    """print needs only the respective input and writes nothing"""
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, 'P', holes=False)
    kind = ctx.choice(['events', 'stations', 'files'])
    if kind == 'events' and ctx.p(.5):  # all of many events
        ds.events.extend([gen.event(ctx) for _ in range(ctx.i(15, 30))])
        ds.events.write(os.path.join(path, 'events.xml'), 'QUAKEML')
    ctx.desc = {'kind': kind, 'n': len(ds.events)}
    with cli.cwd(path):
        conf = ds.config()
        if kind == 'events':
            conf.pop(ctx.choice(['inventory', 'data']))
        elif kind == 'stations':
            conf.pop(ctx.choice(['events', 'data']))
        names = []
        if kind == 'files':
            for i in range(ctx.i(1, 3)):
                st = ds.stream[3 * i:3 * i + 3] or ds.stream[:3]
                names.append('f%d.mseed' % i)
                st.write(names[-1], 'MSEED')
        if not (kind == 'files' and ctx.p(.5)):
            write_conf(ctx, 'conf.json', conf)
        before = hooks.tree(path)
        msg, code, exc = capture('print', *(names or [kind]))
        ctx.same('clean-run', (code, exc), (None, None), msg)
        ctx.same('print-writes', sorted(hooks.tree(path)), sorted(before))
        if kind == 'events':
            for ev in ds.events:
                t = [str(o.time)[:19] for o in ev.origins]
                ctx.ok('print', any(x in msg for x in t),
                       lambda: '%s in %s' % (t, msg))
        elif kind == 'stations':
            for s in ds.stations:
                ctx.ok('print', '%s.%s' % (s['net'], s['sta']) in msg, msg)
        else:
            import obspy
            for n in names:
                for tr in obspy.read(n):
                    ctx.ok('print', '.'.join(tr.id.split('.')[:3]) in msg,
                           lambda: '%s in %s' % (tr.id, msg))
