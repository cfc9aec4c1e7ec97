"""
C29: processing steps are recorded in the headers of the resulting traces
"""
import os
import warnings

import numpy as np

from mon import gen
from mon.core import case

PROP = 'C29'
SCALE = 5
TECHNIQUE = 'runtime monitor of the processing lists before and after each step, oracle is the list of calls made by the workload with all arguments and defaults'
NOTE = 'held on sampled sequences of up to 6 steps and arguments'
RULE = ('random sequences of filter, rf, deconvolve, moveout, stack, profile, '
        'harmonics and file operations with arguments by position or keyword, '
        'failing calls in between')
ASSUMPTIONS = ['fewer than 100 entries (limit of ObsPy)']
REQUIRED = {'entry': 150, 'once': 150, 'kept': 150, 'order': 60, 'h5': 15,
            'failing': 9, 'positional': 10, 'function': 9, 'same-again': 8}


def parse(entry):
    """(function, {argument: text}) of an entry"""
    import rf
    head = 'rf %s: ' % rf.__version__
    if not entry.startswith(head):
        return None
    name, _, rest = entry[len(head):].partition('(')
    if not rest.endswith(')'):
        return None
    rest = rest[:-1]
    args = {}
    for item in rest.split('::') if rest else []:
        k, eq, v = item.partition('=')
        if not eq or k in args:
            return None
        args[k] = v
    return name, args


def text(v):
    return "'%s'" % v if isinstance(v, str) else repr(v)


def judge(ctx, entry, name, args):
    got = parse(entry)
    if not ctx.ok('entry', got is not None, lambda: 'entry %r' % entry):
        return
    want = {k: text(v) for k, v in args.items()}
    ctx.ok('entry', got == (name, want), lambda: 'entry %r, expected %s %s'
           % (entry, name, want))


def procs(stream):
    return [list(tr.stats.get('processing', [])) for tr in stream]


def rf_entries(entries, name):
    return [e for e in entries if (parse(e) or ('',))[0] == name]


def base(ctx, method='P', comps='ZNE', nev=1, mark=True):
    sr = ctx.choice([4., 5.])
    st = gen.data_stream(ctx, nev, comps, method, sr=sr,
                         npts=ctx.i(66, 75) * int(sr), onset=31.3, order='')
    for k, tr in enumerate(st):
        if mark and ctx.p(.8):
            tr.stats.processing = ['step %d of trace %d' % (j, k)
                                   for j in range(ctx.i(0, 3))]
    return st


RF = {'method': None, 'filter': None, 'trim': None, 'downsample': None,
      'rotate': 'ZNE->LQT', 'deconvolve': 'time', 'source_components': None}
DECONV = {'method': 'time', 'func': None, 'source_components': 'LZ',
          'response_components': None, 'winsrc': 'P'}
MOVEOUT = {'phase': None, 'ref': 6.4, 'model': 'iasp91'}
HARM = {'components': 'R', 'azim': 0, 'method': 'time'}


def call(ctx, f, defaults, given):
    """call with some arguments by position, others by keyword"""
    keys = list(defaults)
    npos = 0
    if ctx.p(.4):
        npos = ctx.i(0, len(keys))
        while npos and keys[npos - 1] not in given:
            npos -= 1
    if npos:
        ctx.ev('positional')
    args = [given.get(k, defaults[k]) for k in keys[:npos]]
    kw = {k: v for k, v in given.items() if k not in keys[:npos]}
    if ctx.p(.2):  # explicit defaults
        for k in keys[npos:]:
            kw.setdefault(k, defaults[k])
    return f(*args, **kw)


def after(ctx, name, before, stream, args, kept=True):
    """one new entry at the end, entries of before are kept in order"""
    for tr, old in zip(stream, before):
        p = list(tr.stats.get('processing', []))
        ctx.ok('once', len(rf_entries(p, name)) ==
               len(rf_entries(old, name)) + 1, lambda: '%s: %s -> %s' % (
                   name, old, p))
        if ctx.ok('once', len(p) > 0 and (parse(p[-1]) or [''])[0] == name,
                  lambda: 'last entry is not %s: %s' % (name, p)):
            judge(ctx, p[-1], name, args)
        if kept:
            ctx.ok('kept', p[:len(old)] == old, lambda: '%s: %s -> %s' % (
                name, old, p))


def failing(ctx, st):
    """failing calls leave no entry of the call"""
    before = procs(st)
    f, name = ctx.choice([
        (lambda: st.moveout(phase='Pss'), 'moveout'),
        (lambda: st.moveout(model='no such file'), 'moveout'),
        (lambda: st.rf(method='X'), 'rf'),
        (lambda: st.deconvolve(method='unknown'), 'deconvolve'),
        (lambda: st.harmonics(components='X'), 'harmonics')])
    try:
        f()
    except Exception:
        ctx.ev('failing')
    else:
        return
    ctx.ok('failed-call', [rf_entries(p, name) for p in procs(st)] ==
           [rf_entries(p, name) for p in before], name)


def through_file(ctx, st, fmt='H5'):
    from rf import read_rf
    fname = os.path.join(ctx.tmpdir(), 'x.h5')
    for k, tr in enumerate(st):
        tr.stats.number = k
    before = procs(st)
    st.write(fname, fmt)
    st2 = read_rf(fname, fmt)
    st2.traces.sort(key=lambda tr: tr.stats.number)
    ctx.ev('h5')
    ctx.ok('file', procs(st2) == before, lambda: 'H5: %s -> %s' % (
        before, procs(st2)))
    return st2


@case('sequence', 60, 2000)
def case_sequence(ctx):
    """rf calculation and subsequent steps"""
    from rf import get_profile_boxes
    import rf.deconvolve
    import rf.harmonics
    import rf.profile
    m = ctx.choice('PPS')
    what = ctx.choice(['rf', 'rf', 'deconvolve'])
    nev = ctx.i(1, 3) if what == 'rf' else 1
    st = base(ctx, m, 'ZNE' if what == 'rf' else 'LQT', nev)
    ctx.desc = {'method': m, 'what': what, 'nev': nev}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if ctx.p(.5):
            st.filter('bandpass', freqmin=.05, freqmax=.9)
        if ctx.p(.3):
            st = through_file(ctx, st)
        st.traces.sort(key=lambda tr: (tr.stats.onset.ns,
                                       tr.stats.channel))
        if ctx.p(.2):
            failing(ctx, st)
        before = procs(st)
        # identity of traces is kept by rf and deconvolve
        marks = [id(tr) for tr in st]
        d = ctx.choice(['time', 'waterlevel', 'iterative', 'func'])
        extra = {}
        if d == 'iterative':
            extra['itmax'] = ctx.i(3, 10)
        elif d == 'waterlevel' and ctx.p(.5):
            extra['gauss'] = round(ctx.u(.3, 2), 2)
        elif d == 'time' and ctx.p(.5):
            extra['spiking'] = round(ctx.u(.5, 2), 2)
        if ctx.p(.3) and d != 'func':
            extra['normalize'] = ctx.choice([0, None])

        def func(rsp, src, tshift=10, **more):
            return rsp
        if what == 'rf':
            given = {}
            if ctx.p(.5):
                given['method'] = m
            if ctx.p(.4):
                given['filter'] = ctx.choice([
                    {'type': 'lowpass', 'freq': .8},
                    {'type': 'bandpass', 'freqmin': .0512345678901,
                     'freqmax': .8123456789012, 'corners': 2,
                     'zerophase': True}])
            if ctx.p(.4):
                given['trim'] = ctx.choice([(-25, 33), (-25.5, 33)])
            if ctx.p(.2):
                given['downsample'] = 2
            if ctx.p(.3):
                given['rotate'] = 'NE->RT'
            if ctx.p(.2):
                given['source_components'] = 'ZL' if m == 'P' else 'RQ'
            if d != 'time' or ctx.p(.3):
                given['deconvolve'] = d
            if d == 'func':
                extra['func'] = func
            if ctx.p(.3):
                extra['winsrc'] = (-5, 20, 5)
            if ctx.p(.1):
                given['deconvolve'] = d = None
                extra = {}
            ctx.desc.update(given=given, extra=extra)
            keep_given = dict(given, **extra)
            call(ctx, st.rf, RF, keep_given)
            for k in extra:
                given.pop(k, None)
            order = {id(tr): k for k, tr in enumerate(st)}
            trs = [st[order[i]] for i in marks if i in order]
            ctx.same('number', len(trs), len(marks))
            after(ctx, 'rf', before, trs, dict(RF, **dict(given, **extra)))
            for tr, old in zip(trs, before):
                p = tr.stats.processing
                new = p[len(old):]
                have = [(parse(e) or (e.split('(')[0].split(': ')[-1],))[0]
                        for e in new]
                want = []
                if given.get('filter'):
                    want.append('filter')
                if given.get('trim'):
                    want.append('trim')
                ctx.ok('order', [h for h in have if h in (
                    'deconvolve', 'rf')] == ['deconvolve'] * bool(d) +
                    ['rf'], lambda: str(new))
                for w in want:
                    ctx.ok('order', w in have, lambda: '%s: %s' % (w, new))
                if d:
                    e = rf_entries(new, 'deconvolve')
                    more = dict(extra)
                    args = {
                        'method': given.get('deconvolve', 'time'),
                        'func': more.pop('func', None),
                        'response_components': None,
                        'source_components': given.get(
                            'source_components', 'LZ' if m == 'P' else 'QR'),
                        'winsrc': more.pop('winsrc', m)}
                    if ctx.same('once', len(e), 1):
                        judge(ctx, e[0], 'deconvolve', dict(args, **more))
        else:
            given = {'source_components': 'L' if m == 'P' else 'Q'}
            if ctx.p(.7):
                given['method'] = d
            else:
                d = 'time'
                extra = {}
            if d == 'func':
                given['func'] = func
            if ctx.p(.4):
                given['winsrc'] = ctx.choice([(-5, 20, 5), m])
            ctx.desc.update(given=given, extra=extra)
            if ctx.p(.5):
                call(ctx, st.deconvolve, DECONV, dict(given, **extra))
            else:
                ctx.ev('function')
                call(ctx, lambda *a, **k: rf.deconvolve.deconvolve(
                    st, *a, **k), DECONV, dict(given, **extra))
            after(ctx, 'deconvolve', before, st,
                  dict(DECONV, **dict(given, **extra)))
        ctx.sig(what, m, d, nev, sorted(given))
        st.type = 'rf'
        # further steps
        for _ in range(ctx.i(1, 5)):
            step = ctx.choice(['moveout', 'stack', 'profile', 'harmonics',
                               'trim', 'file', 'failing', 'ppoints'])
            before = procs(st)
            if step == 'moveout':
                given = {'phase': ctx.choice(['Ps', 'Ppps'] if m == 'P' else [
                    'Sp'])} if ctx.p(.7) else {}
                if ctx.p(.5):
                    given['ref'] = round(ctx.u(6, 6.8), 2)
                if 'slowness' not in st[0].stats:
                    continue
                call(ctx, st.moveout, MOVEOUT, given)
                after(ctx, 'moveout', before, st, dict(MOVEOUT, **given))
                if ctx.p(.3):  # each step counts
                    ctx.ev('same-again')
                    before = procs(st)
                    call(ctx, st.moveout, MOVEOUT, given)
                    after(ctx, 'moveout', before, st, dict(MOVEOUT, **given))
            elif step == 'trim':
                n = len(st)
                st.trim2(-20, 30, 'onset')
                if len(st) == n:
                    ctx.ok('kept', [p[:len(b)] for p, b in zip(
                        procs(st), before)] == before)
            elif step == 'ppoints':
                if 'slowness' in st[0].stats:
                    st.ppoints(50)
                    ctx.ok('kept', procs(st) == before)
            elif step == 'file':
                if all('event_time' in tr.stats for tr in st):
                    st = through_file(ctx, st)
            elif step == 'failing':
                if 'slowness' in st[0].stats:
                    failing(ctx, st)
            elif step == 'stack':
                n = {len(tr) for tr in st}
                if len(n) > 1:
                    continue
                first = {}
                for tr, p in zip(st, before):
                    first.setdefault(tr.id, p)
                new = st.stack()
                ctx.ok('kept', procs(st) == before, 'input of stack')
                after(ctx, 'stack', [first.get(tr.id, []) for tr in new],
                      new, {})
                ctx.ev('stack')
                if ctx.p(.2):
                    first = {tr.id: list(tr.stats.processing) for tr in new}
                    new2 = new.stack()
                    after(ctx, 'stack', [first[tr.id] for tr in new2], new2,
                          {})
                if ctx.p(.5):
                    break
            elif step == 'profile':
                if 'slowness' not in st[0].stats or len(
                        {len(tr) for tr in st}) > 1:
                    continue
                st.ppoints(ctx.u(30, 100))
                latlon = (st[0].stats.station_latitude,
                          st[0].stats.station_longitude)
                az = ctx.choice([0, 45, round(ctx.u(0, 360), 1)])
                bins = [-300, 0, 300] if ctx.p(.5) else np.array(
                    [-400., -100, 250])
                boxes = get_profile_boxes(latlon, az, bins)
                arg = ctx.choice(['method', 'keyword', 'function', 'iter'])
                new = {'method': lambda: st.profile(boxes),
                       'keyword': lambda: st.profile(boxes=boxes, crs=None),
                       'function': lambda: rf.profile.profile(st, boxes),
                       'iter': lambda: rf.profile.profile(iter(st), boxes)
                       }[arg]()
                ctx.ok('kept', procs(st) == before, 'input of profile')
                ctx.ev('profile')
                for tr in new:
                    p = list(tr.stats.processing)
                    ctx.ok('kept', p[:-1] in before)
                    ctx.same('once', len(rf_entries(p, 'profile')), 1)
                    judge(ctx, p[-1], 'profile', {
                        'crs': None, 'latlon': latlon, 'azimuth': az,
                        'length': bins[-1] - bins[0]})
                if len(new) and ctx.p(.5):
                    through_file(ctx, new)
            elif step == 'harmonics':
                if 'event_time' not in st[0].stats or len(
                        {len(tr) for tr in st}) > 1:
                    continue
                comps = [c for c in 'RQT' if st.select(component=c)]
                given = {'components': ctx.choice(comps)}
                ch = given['components']
                if ctx.p(.5):
                    given['azim'] = ctx.choice([30, round(ctx.u(0, 90), 2)])
                if ctx.p(.3):
                    given['method'] = 'freq'
                if ctx.p(.3) and ch in 'RQ' and 'T' in comps:
                    given['components'] += 'T'
                    if ctx.p(.5):
                        given['scalars'] = (2, .5)
                try:
                    if ctx.p(.5):
                        hd = call(ctx, st.harmonics, HARM, given)
                    else:
                        ctx.ev('function')
                        hd = call(ctx, lambda *a, **k: rf.harmonics.harmonics(
                            st, *a, **k), HARM, given)
                except Exception as ex:
                    ctx.ok('harmonics', False, repr(ex))
                    continue
                ctx.ok('kept', procs(st) == before, 'input of harmonics')
                for tr in hd:
                    p = tr.stats.processing
                    if ctx.same('once', len(p), 1, str(p)):
                        judge(ctx, p[0], 'harmonics', dict(HARM, **given))
                if ctx.p(.3):
                    through_file(ctx, hd)


@case('example', 4, 60, 1)
def case_example(ctx):
    """whole history of the example data"""
    from rf.util import minimal_example_Srf, minimal_example_rf
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = ctx.choice([minimal_example_rf, minimal_example_Srf])
        for _ in range(2):
            st = f()
            for tr in st:
                names = [(parse(e) or (None,))[0]
                         for e in tr.stats.processing]
                ctx.same('order', [x for x in names if x],
                         ['deconvolve', 'rf', 'moveout'])
            st.stack()
            st.moveout(ref=7.)
        through_file(ctx, st)
