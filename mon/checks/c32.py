"""
C32: RFStream and RFTrace keep ObsPy semantics, type, method, string
"""
import copy
import pickle
import re
import warnings

import numpy as np
from obspy import Stream, Trace
from obspy import UTCDateTime as UTC

from mon import gen
from mon.core import case

PROP = 'C32'
SCALE = 8
TECHNIQUE = 'runtime monitor of containers side by side with the same operations on plain ObsPy objects (differential oracle), warnings and parsed string representations'
NOTE = 'held on sampled streams, operations and combinations of headers'
RULE = ('random streams with 0-8 traces and random sets of headers, random '
        'sequences of ObsPy operations')
ASSUMPTIONS = ['headers which are set have numbers, phase has letters']
REQUIRED = {'construct': 100, 'same-as-obspy': 200, 'classes': 200,
            'type': 30, 'method': 30, 'warning': 2, 'setter': 30, 'str': 100,
            'str-window': 60, 'str-header': 100, 'plain-str': 8}


def plain_trace(ctx, tag=0, sr=None):
    sr = sr or ctx.choice([1., 5., 20., 100.])
    n = 0 if ctx.p(.08) else ctx.i(1, 60)
    kind = ctx.choice([float, 'float32', 'int32', float])
    d = (100 * ctx.rng.normal(size=n)).astype(kind)
    if ctx.p(.1):
        d = np.ma.masked_array(d, mask=np.arange(n) % 7 == 3)
    net, sta, loc, cha = gen.seed_id(ctx, ctx.choice('ZNELQT'))
    tr = Trace(data=d, header={
        'network': net, 'station': sta, 'location': loc, 'channel': cha,
        'sampling_rate': sr, 'starttime': UTC(10**9) + round(
            ctx.u(0, 50), 3), 'tag': tag})
    if ctx.p(.6):
        tr.stats.onset = tr.stats.starttime + ctx.u(-10, 30)
    if ctx.p(.4):
        tr.stats.extra = {'a': [1, 2]}
    if ctx.p(.3):
        tr.stats.processing = ['x', 'y']
    return tr


def same_trace(a, b):
    return (np.array_equal(np.ma.filled(a.data, 0), np.ma.filled(b.data, 0)) and
            np.array_equal(np.ma.getmaskarray(a.data),
                           np.ma.getmaskarray(b.data)) and
            a.data.dtype == b.data.dtype and
            gen.snap(dict(a.stats)) == gen.snap(dict(b.stats)))


def judge(ctx, clause, st, ref, msg=''):
    """RFStream st holds the same as the plain stream ref"""
    from rf import RFStream
    from rf.rfstream import RFTrace
    ctx.ok('classes', type(st) is RFStream, lambda: '%s %s: %s' % (
        clause, msg, type(st)))
    ctx.ok('classes', all(type(tr) is RFTrace for tr in st),
           lambda: '%s: %s' % (clause, [type(tr) for tr in st]))
    if ctx.same(clause, len(st), len(ref), msg):
        ctx.ok(clause, all(same_trace(a, b) for a, b in zip(st, ref)),
               msg + ' content differs')


@case('container', 80, 3000)
def case_container(ctx):
    from rf import RFStream
    from rf.rfstream import RFTrace
    n = ctx.i(0, 8)
    ref = Stream([plain_trace(ctx, j) for j in range(n)])
    how = ctx.choice(['stream', 'list', 'tuple', 'rftraces', 'rfstream',
                      'mixed', 'generator', 'values'])
    conv = [RFTrace(trace=tr) for tr in ref]
    mixed = [a if ctx.p(.5) else b for a, b in zip(conv, ref)]
    keep = gen.snap(ref)
    if how == 'generator':
        arg = iter(list(ref)) if n else None
    else:
        arg = {'stream': ref, 'list': list(ref), 'tuple': tuple(ref),
               'rftraces': conv, 'rfstream': RFStream(list(ref)),
               'mixed': mixed, 'values': dict(enumerate(ref)).values()}[how]
    st = RFStream(arg)
    ctx.desc = {'n': n, 'how': how}
    ctx.ok('construct', gen.snap(ref) == keep)
    judge(ctx, 'construct', st, ref)
    # lists of traces are independent
    if n and how in ('stream', 'list', 'rfstream', 'rftraces'):
        m = len(arg)
        st2 = RFStream(arg)
        st2.append(RFTrace())
        ctx.same('construct', len(arg), m, 'argument changed')
    if how in ('rftraces', 'rfstream'):
        ctx.ok('construct', all(a is b for a, b in zip(st, arg)),
               'RFTraces are kept')
    if n:
        one = RFStream(ref[0])
        judge(ctx, 'construct', one, Stream([ref[0]]))
        one = RFTrace(data=ref[0].data, header=ref[0].stats)
        ctx.ok('construct', type(one) is RFTrace and same_trace(one, ref[0]))
    judge(ctx, 'construct', RFStream(), Stream())
    judge(ctx, 'construct', RFStream([]), Stream())
    # same operations on both
    ops = []
    for _ in range(ctx.i(2, 6)):
        name, f = operation(ctx, ref)
        ops.append(name)
        ctx.ev(name)
        a, ea = attempt(f, ref.copy())
        b, eb = attempt(f, st.copy())
        if not ctx.same('same-as-obspy', eb, ea, name):
            break
        if ea is not None:
            continue
        if isinstance(a, Stream):
            judge(ctx, 'same-as-obspy', b, a, name)
            ref, st = a, b
        elif isinstance(a, Trace):
            ctx.ok('classes', type(b) is RFTrace, name)
            ctx.ok('same-as-obspy', same_trace(a, b), name)
        elif isinstance(a, list) and a and isinstance(a[0], Trace):
            ctx.ok('classes', all(type(x) is RFTrace for x in b), name)
            ctx.ok('same-as-obspy', len(a) == len(b) and all(
                same_trace(x, y) for x, y in zip(a, b)), name)
        else:
            ctx.ok('same-as-obspy', gen.snap(a) == gen.snap(b), name)
    ctx.sig(how, n, ops[:2])


def attempt(f, st):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(st), None
    except Exception as ex:
        return None, type(ex).__name__


def operation(ctx, ref):
    n = len(ref)
    i, j = ctx.i(0, max(0, n)), ctx.i(0, max(0, n))
    comp = ctx.choice('ZNELQT')
    extra = plain_trace(ctx, 99)
    more = [plain_trace(ctx, 100 + k) for k in range(2)]
    key = ctx.choice(['starttime', 'tag', 'station', 'channel'])
    rev = ctx.p(.5)
    t = UTC(10**9) + ctx.u(0, 50)
    if n:
        s = ref[i % n].stats
        t = s.starttime + .4 * (s.endtime - s.starttime)
    perm = ctx.rng.permutation(n)

    def app(st):
        # RFStream does not convert appended traces
        st.append(convert(st, extra))
        return st

    def convert(st, tr):
        if type(st) is Stream:
            return tr.copy()
        from rf.rfstream import RFTrace
        return RFTrace(trace=tr.copy())

    def ext(st):
        st.extend([convert(st, tr) for tr in more])
        return st

    def add(st):
        return st + (Stream([tr.copy() for tr in more]) if type(st) is Stream
                     else type(st)([tr.copy() for tr in more]))

    def addstream(st):
        # adding a plain ObsPy stream
        return st + Stream([tr.copy() for tr in more])

    def iadd(st):
        st += [type(st)([tr.copy() for tr in more])][0]
        return st

    def setitem(st):
        st[i] = convert(st, extra)
        return st

    def delete(st):
        del st[i:j]
        return st
    return ctx.choice([
        ('copy', lambda st: st.copy()),
        ('deepcopy', copy.deepcopy),
        ('pickle', lambda st: pickle.loads(pickle.dumps(st))),
        ('select', lambda st: st.select(component=comp)),
        ('select-id', lambda st: st.select(id='*.*.*.?H' + comp)),
        ('slice', lambda st: st.slice(t, t + 10)),
        ('sort', lambda st: st.sort([key], reverse=rev)),
        ('index', lambda st: st[i]),
        ('range', lambda st: st[min(i, j):max(i, j)]),
        ('step', lambda st: st[::-1]),
        ('iterate', lambda st: [tr for tr in st]),
        ('add', add), ('addstream', addstream), ('iadd', iadd),
        ('append', app), ('extend', ext), ('setitem', setitem),
        ('delete', delete),
        ('pop', lambda st: st.pop()),
        ('reverse', lambda st: st.reverse()),
        ('insert', lambda st: st.insert(i, convert(st, extra))),
        ('remove', lambda st: st.remove(st[i])),
        ('len', len), ('bool', bool), ('count', lambda st: st.count()),
        ('max', lambda st: st.max()),
        ('trim', lambda st: st.trim(t, t + 8)),
        ('trim-pad', lambda st: st.trim(t - 2, t + 8, pad=True,
                                        fill_value=0)),
        ('detrend', lambda st: st.detrend('demean')),
        ('filter', lambda st: st.filter('lowpass', freq=.2)),
        ('normalize', lambda st: st.normalize()),
        ('clear', lambda st: st.clear()),
        ('equal', lambda st: st == st.copy()),
        ('slide', lambda st: [s2 for s2 in st.slide(2, 3)][:2] and None),
        ('merge', lambda st: st.merge()),
        ('trace-slice', lambda st: st[i].slice(t, t + 5)),
        ('trace-copy', lambda st: st[i].copy()),
        ('trace-add', lambda st: st[i] + st[i]),
        ('permute', lambda st: type(st)([st[int(k)] for k in perm])),
    ])


@case('properties', 60, 2000)
def case_properties(ctx):
    from rf import RFStream
    n = ctx.i(0, 6)
    st = RFStream([plain_trace(ctx, j) for j in range(n)])
    phases = ctx.choice([['P'], ['S'], ['PP'], ['p'], ['SKS'], ['P', 'S'],
                         ['P', 'PP'], ['S', 's'], ['P'], ['S'], ['Pdiff'],
                         ['PcS'], ['SKP']])
    types = ctx.choice([['rf'], ['profile'], ['rf', 'profile'],
                        ['harmonic'], [None], ['rf']])
    miss = ctx.p(.4)
    for tr in st:
        if not (miss and ctx.p(.5)):
            tr.stats.phase = ctx.choice(phases)
        if not (miss and ctx.p(.5)):
            tr.stats.type = ctx.choice(types)
    ctx.desc = {'phases': phases, 'types': types, 'n': n, 'miss': miss}
    keep = gen.snap(st)
    for attr, key in (('type', 'type'), ('method', 'phase')):
        values = {tr.stats[key] for tr in st if key in tr.stats}
        want = values.pop() if len(values) == 1 else None
        different = len(values) > 1
        if attr == 'method' and want is not None:
            want = want[-1].upper()
        with warnings.catch_warnings(record=True) as wlist:
            warnings.simplefilter('always')
            ctx.same(attr, getattr(st, attr), want)
        msgs = [str(w.message) for w in wlist]
        if different:
            ctx.ok('warning', any(key in x for x in msgs), str(msgs))
        else:
            ctx.ok('no-warning', not msgs, str(msgs))
        ctx.sig(attr, want, different)
    ctx.ok('unmodified', gen.snap(st) == keep)
    new = ctx.choice(['P', 'S', 'PP', 'Ps'])
    st.method = new
    ctx.same('setter', [tr.stats.phase for tr in st], [new] * n)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        ctx.same('setter', st.method, new[-1].upper() if n else None)
        st.type = 'profile'
        ctx.same('setter', st.type, 'profile' if n else None)
    ctx.same('setter', [tr.stats.type for tr in st], ['profile'] * n)


FIELDS = [('event_magnitude', 'mag', 1), ('distance', 'dist', 1),
          ('back_azimuth', 'baz', 1), ('box_pos', 'pos', 2),
          ('slowness', 'slow', 2)]


@case('string', 120, 5000)
def case_string(ctx):
    from rf import RFStream
    from rf.rfstream import RFTrace
    tr = RFTrace(trace=plain_trace(ctx))
    s = tr.stats
    anonymous = ctx.p(.2)
    if anonymous:
        s.network = s.station = s.location = ''
        s.channel = '??' + ctx.choice('LQT')
    epoch = ctx.p(.3)
    if epoch:  # no absolute time, e.g. stack
        s.starttime = UTC(0)
    elif ctx.p(.2):
        s.starttime = UTC(-ctx.u(1, 10**9))
    s.pop('onset', None)
    has_onset = ctx.p(.85)
    if has_onset:
        s.onset = s.starttime + ctx.choice([0., 10., ctx.u(-20, 60)])
    if ctx.p(.7):
        s.type = ctx.choice(['rf', 'rf', 'profile', 'harmonic'])
    if ctx.p(.7):
        s.phase = ctx.choice(['P', 'S', 'PP', 'SKS', 'PcS', 'ScP', 'p'])
    values = {}
    for key, name, dig in FIELDS:
        if ctx.p(.5):
            values[key] = ctx.choice([
                ctx.u(-100, 400), 0, 0., ctx.i(0, 90), np.float64(7.25),
                np.float32(3.5), np.int64(4), 1e5])
            s[key] = values[key]
    if ctx.p(.4):
        s.moveout = ctx.choice(['Ps', 'Ppss', 'Sp'])
    ctx.desc = {'stats': {k: str(v) for k, v in s.items()}}
    ctx.sig(has_onset, s.get('type'), s.get('phase'), sorted(values))
    keep = gen.snap(tr)
    out = str(tr)
    ctx.ok('str', gen.snap(tr) == keep, 'trace modified')
    ctx.ok('str', isinstance(out, str) and '\n' not in out)
    ctx.same('str', str(RFStream([tr])), '1 Trace(s) in Stream:\n' + out)
    many = RFStream([tr.copy(), tr.copy()])
    ctx.same('str', str(many).count(out), 2)
    if not has_onset:
        t = Trace(data=tr.data, header=tr.stats)
        ctx.same('plain-str', out, str(t))
        return
    if not anonymous or 'type' not in s:
        ctx.ok('str', tr.id in out, out)
    else:
        ctx.ok('str', '(%s)' % s.channel[-1] in out or tr.id in out, out)
    if 'type' in s:
        ctx.ok('str-type', out.startswith(
            (s.phase[-1].upper() if 'phase' in s else '') + 'rf '), out)
        if s.type != 'rf':
            ctx.ok('str-type', s.type in out.split(' | ')[0], out)
    m = re.search(r'(-?[\d.]+)s - (-?[\d.]+)s', out)
    if ctx.ok('str-window', m is not None, out):
        ctx.close('str-window', [float(m.group(1)), float(m.group(2))],
                  [s.starttime - s.onset, s.endtime - s.onset], atol=.0501)
    if not epoch:
        ctx.ok('str-window', 'onset:%s' % s.onset in out, out)
    ctx.ok('str', '%s Hz' % s.sampling_rate in out and
           '%d samples' % s.npts in out, out)
    for key, name, dig in FIELDS:
        m = re.search(r'\b%s:(-?[\d.]+)' % name, out)
        if key in values:
            if ctx.ok('str-header', m is not None, '%s: %s' % (name, out)):
                ctx.close('str-header', float(m.group(1)),
                          float(values[key]), atol=.501 * 10. ** -dig +
                          1e-7 * abs(float(values[key])))
        else:
            ctx.ok('str-header', m is None, out)
    ctx.ok('str-header', ('(%s moveout)' % s.moveout in out) if 'moveout' in s
           else 'moveout' not in out, out)
    ctx.same('str-header', '(masked)' in out,
             bool(np.ma.count_masked(tr.data)))
