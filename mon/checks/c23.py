"""
C23: component iteration partitions the stream into event-station groups
"""
import numpy as np
from obspy import Stream, Trace, UTCDateTime as UTC

from mon import gen
from mon.checks.c18 import similar_ids
from mon.core import case

PROP = 'C23'
SCALE = 5
TECHNIQUE = 'runtime monitor of component iteration, partition oracle on object identity'
NOTE = 'held on sampled streams, keys and numbers of components'
RULE = ('streams of 0-60 traces with similar ids, several components and '
        'events in random order, keys of different type, all kinds of '
        'number_components')
ASSUMPTIONS = ['values of key headers have different string representations']
REQUIRED = {'partition': 150, 'order': 150, 'selected': 150, 'length': 150,
            'again': 150, 'class': 200, 'key:None': 14, 'key:onset': 12,
            'key:event_id': 14, 'key:starttime': 20, 'n:int': 30,
            'n:tuple': 30, 'n:None': 16, 'empty': 2, 'large-groups': 20,
            'via-rf': 5}


def make(ctx, cls, trcls):
    ids = similar_ids(ctx, ctx.i(1, 6))
    if ctx.p(.2):  # the component letter is part of the band code
        ids += [i[:3] + (c,) for i in ids[:2] for c in ('BZZ', 'BZ', 'ZZ')]
        ids = sorted(set(ids))
    long = 'smi:local/event/of/catalog/' if ctx.p(.3) else ''
    nev = ctx.i(1, 4)
    t0 = UTC(1.3e9)
    events = []
    for j in range(nev):
        events.append({'onset': t0 + ctx.choice([j * 1000., 1e-3 * j,
                                               1e-5 * j]),
                       'event_id': long + ctx.choice(['a', 'ab', 'a.b']) + str(j),
                       'event_time': t0 + 10. * j,
                       'back_azimuth': 10.25 + j / 1000.})
    traces = []
    for net, sta, loc, cha in ids:
        for e in events:
            for c in ctx.choice(['ZNE', 'ZNE', 'ZN', 'Z', 'LQT', 'ZNE12']):
                if ctx.p(.1):
                    continue
                tr = trcls(data=np.arange(ctx.i(1, 5)), header={
                    'network': net, 'station': sta, 'location': loc,
                    'channel': cha[:-1] + c, 'starttime': e['onset'] - 10})
                tr.stats.update(e)
                traces.append(tr)
    if traces and ctx.p(.2):  # repeated components
        traces.append(ctx.choice(traces).copy())
    return cls([traces[i] for i in ctx.rng.permutation(len(traces))])


@case('iterate', 300, 40000)
def case_iterate(ctx):
    from rf import IterMultipleComponents, RFStream
    from rf.rfstream import RFTrace
    if ctx.p(.8):
        st = make(ctx, RFStream, RFTrace)
    else:
        st = make(ctx, Stream, Trace)
    if ctx.p(.02):
        st = st[:0]
    if not len(st):
        ctx.ev('empty')
    key = ctx.choice([None, 'onset', 'event_id', 'starttime', 'event_time',
                      'back_azimuth', 'npts', 'station'])
    n = ctx.choice([None, None, 1, 2, 3, 5, (2, 3), (1, 3), (3,), (4, 5), (),
                    [2, 3], (1, 2, 3, 4, 5, 6)])
    ctx.ev('key:%s' % key)
    ctx.ev('n:%s' % ('None' if n is None else
                     'int' if isinstance(n, int) else 'tuple'))
    ctx.desc = {'ids': [tr.id for tr in st], 'key': key, 'n': n}
    ctx.sig(key, n, len(st) // 5)
    # independent grouping
    groups = []
    for tr in st:
        for g in groups:
            o = g[0]
            if (o.stats.network, o.stats.station, o.stats.location,
                    o.stats.channel[:-1]) == (
                    tr.stats.network, tr.stats.station, tr.stats.location,
                    tr.stats.channel[:-1]) and (
                        key is None or o.stats[key] == tr.stats[key]):
                g.append(tr)
                break
        else:
            groups.append([tr])
    want = [g for g in groups if n is None or
            (len(g) == n if isinstance(n, int) else len(g) in n)]
    if any(len(g) > 3 for g in want):
        ctx.ev('large-groups')
    before = [id(tr) for tr in st], gen.snap(st)
    kw = {}
    if key is not None:
        kw['key'] = key
    if n is not None:
        kw['number_components'] = n
    it = IterMultipleComponents(st, **kw)
    got = [list(s) for s in it]
    ctx.same('length', len(it), len(want))
    for s in it:
        ctx.same('class', type(s), type(st))
    gid = sorted([id(tr) for tr in s] for s in got)
    wid = sorted([id(tr) for tr in g] for g in want)
    ctx.same('partition', sorted(sorted(x) for x in gid),
             sorted(sorted(x) for x in wid))
    ctx.same('order', gid, wid)
    ctx.same('selected', sum(map(len, got)), sum(map(len, want)))
    ctx.same('again', sorted([id(tr) for tr in s] for s in it), wid)
    ctx.same('unmodified', ([id(tr) for tr in st], gen.snap(st)), before)
    # nested iterations are independent
    if 0 < len(want) < 6:
        pairs = [(id(a[0]), id(b[0])) for a in it for b in it]
        ctx.same('nested', len(set(pairs)), len(want) ** 2)


@case('workflow', 10, 300, 1)
def case_workflow(ctx):
    """
    rf treats events and stations separately, result is the same as for each
    group of components alone
    """
    ids = [('CX', 'PB01', '', 'BH'), ('CX', 'PB01', '00', 'BH'),
           ('CX', 'PB0', '1', 'BH'), ('CX', 'PB01', '', 'HH')]
    ids = [ids[i] for i in ctx.rng.permutation(4)[:ctx.i(2, 3)]]
    st = gen.data_stream(ctx, nev=2, sr=4., npts=300, ids=ids)
    ctx.desc = {'ids': ids, 'onset': str(st[0].stats.onset)}
    from rf import RFStream
    groups = {}
    for tr in st:
        groups.setdefault((tr.id[:-1], tr.stats.onset.ns), []).append(
            tr.copy())
    st.rf()
    have = {(tr.id, tr.stats.onset.ns): tr for tr in st}
    ctx.same('number', len(have), 3 * len(groups))
    for k, g in groups.items():
        one = RFStream(g).rf()
        for tr in one:
            o = have.get((tr.id, tr.stats.onset.ns))
            if ctx.ok('via-rf', o is not None, tr.id):
                ctx.close('via-rf', o.data, tr.data, atol=1e-9)
