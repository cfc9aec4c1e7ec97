"""
C12: rf() equals the documented sequence of processing steps
"""
import numpy as np

from mon import gen
from mon.core import case

PROP = 'C12'
SCALE = 2
TECHNIQUE = 'differential runtime monitor: the pipeline is replayed step by step with ObsPy calls on independent copies of each event group'
NOTE = 'held on sampled option combinations, component sets, events and stations'
RULE = ('streams of 1-4 events and 1-2 stations with all combinations of '
        'method, filter, trim, downsample, rotate, deconvolve and options')
ASSUMPTIONS = ['filter, trim, decimate and rotate of ObsPy and '
               'RFStream.deconvolve of a single group define the single '
               'steps']
REQUIRED = {'data': 400, 'method': 30, 'negated-Q': 60, 'mirrored': 80,
            'onset': 400, 'filter': 23, 'trim': 25, 'downsample': 11,
            'no-deconvolution': 8, 'rotate:ZNE->LQT': 27, 'rotate:NE->RT': 23,
            'invalid-method': 20, 'custom': 7, 'method-from-phase': 34,
            'header': 400, 'same-window': 15, 'same-event-time': 15,
            'trim-zero-none': 6, 'single-component': 20, 'components-start': 10}


def groups(st):
    out = {}
    for tr in st:
        key = (tr.stats.network, tr.stats.station, tr.stats.location,
               tr.stats.channel[:-1], tr.stats.get('vid') or
               tr.stats.event_time.ns)
        out.setdefault(key, []).append(tr)
    return out


def custom(rsp, src, tshift=10, **kw):
    for tr in rsp:
        tr.data = tr.data - 0.5 * src.data.max() + tshift
    return rsp


def replay(ctx, st, method, kw):
    """process each group alone, dict of traces"""
    from rf import RFStream
    out = {}
    for key, traces in groups(st).items():
        g = RFStream([tr.copy() for tr in traces])
        if kw.get('filter'):
            opts = dict(kw['filter'])
            for tr in g:
                tr.filter(opts['type'], **{k: v for k, v in opts.items()
                                           if k != 'type'})
        if kw.get('trim'):
            for tr in g:
                on = tr.stats.onset
                tr.trim(*(t if t is None else on + t for t in kw['trim']))
        if kw.get('downsample'):
            for tr in g:
                sr = tr.stats.sampling_rate
                if sr > kw['downsample']:
                    tr.decimate(int(round(sr / kw['downsample'])))
        rot = kw.get('rotate', 'ZNE->LQT')
        if rot and len(g) > 1:
            g.rotate(rot, back_azimuth=traces[0].stats.back_azimuth,
                     inclination=traces[0].stats.inclination)
        for tr in g:
            if tr.stats.channel[-1] == 'Q':
                tr.data = -1 * tr.data
                ctx.ev('negated-Q')
        dec = kw.get('deconvolve', 'time')
        if dec and len(g) > 1:
            opts = {k: v for k, v in kw.items() if k not in (
                'method', 'filter', 'trim', 'downsample', 'rotate',
                'deconvolve')}
            opts.setdefault('winsrc', method)
            if opts.get('source_components') is None:
                opts['source_components'] = {'P': 'LZ', 'S': 'QR'}[method]
            g.deconvolve(dec, **opts)
        for tr in g:
            if method == 'S':
                on = tr.stats.onset - tr.stats.starttime
                last = (len(tr) - 1) / tr.stats.sampling_rate
                tr.data = np.array(tr.data)[::-1]
                tr.stats.onset = tr.stats.starttime + (last - on)
                ctx.ev('mirrored')
            tr.stats.type = 'rf'
            if tr.stats.phase[-1] != method or ctx.mixed:
                tr.stats.phase = method
            out[key + (tr.stats.channel[-1],)] = tr
    return out


def options(ctx, method, sr):
    kw = {}
    if ctx.p(.4):
        kw['filter'] = ctx.choice([
            {'type': 'bandpass', 'freqmin': .1, 'freqmax': .35 * sr},
            {'type': 'lowpass', 'freq': .2 * sr, 'corners': 2},
            {'type': 'highpass', 'freq': .05, 'zerophase': True}])
        ctx.ev('filter')
    if ctx.p(.4):
        kw['trim'] = (-ctx.u(15, 25), ctx.u(22, 40))
        if ctx.p(.3):
            kw['trim'] = ctx.choice([
                (None, kw['trim'][1]), (kw['trim'][0], None),
                (0, kw['trim'][1]), [0., None]])
            ctx.ev('trim-zero-none')
        ctx.ev('trim')
    if ctx.p(.35) and sr in (8., 10., 20.):
        kw['downsample'] = sr / ctx.choice([2, 2, 4]) if sr != 10. else 5.
        if ctx.p(.3):
            kw['downsample'] = 2 * sr  # no effect
        if ctx.p(.5):
            kw['downsample'] = int(kw['downsample'])
        else:  # rates are floats
            kw['downsample'] = ctx.choice([float, np.float64])(
                kw['downsample'])
            ctx.ev('downsample-float')
        ctx.ev('downsample')
    elif ctx.p(.5) and sr == 12.5:
        kw['downsample'] = ctx.choice([2.5, 6.25])
        ctx.ev('downsample')
        ctx.ev('downsample-float')
    return kw


@case('pipeline', 140, 7000, 5)
def case_pipeline(ctx):
    method = ctx.choice('PS')
    sr = ctx.choice([4., 5., 8., 10., 12.5, 20.])
    ids = [gen.seed_id(ctx)[:3] + (ctx.choice(['BH', 'HH']),)]
    if ctx.p(.4):
        ids.append((ids[0][0], ids[0][1][:4] + 'b',
                    ids[0][2], ids[0][3]) if ctx.p(.5) else
                   ids[0][:2] + (ctx.choice(['77', '88']), ids[0][3]))
    kw = options(ctx, method, sr)
    rot = ctx.choice(['default', 'ZNE->LQT', 'NE->RT', 'NE->RT', None])
    comps = 'ZNE'
    if rot is None:
        comps = ctx.choice(['LQT', 'LQ', 'ZRT', 'ZR', 'LQ', 'ZR'])
    elif rot == 'NE->RT' and ctx.p(.2):  # horizontals only
        comps = 'NE'
        ctx.ev('NE')
    nev = ctx.i(1, 3)
    if comps in ('LQ', 'ZR') and ctx.p(.4):
        nev = ctx.i(14, 18) // len(ids)
        ctx.ev('two-components')
    if rot != 'default':
        kw['rotate'] = rot
    ctx.ev('rotate:%s' % (rot if rot != 'default' else 'ZNE->LQT'))
    st = gen.data_stream(ctx, nev, comps, method, sr=sr,
                         npts=int(ctx.u(62, 80) * sr), onset=ctx.u(26, 30),
                         ids=ids)
    ds = kw.get('downsample')
    rates = [r for r in (4., 5., 8., 10., 20.) if r != sr and (
        not ds or r < ds or r > ds and r % ds == 0)]
    if rates and ctx.p(.4):  # events with another sampling rate
        sr2 = ctx.choice(rates)
        if 'filter' in kw and sr2 < sr:
            kw['filter'] = {'type': 'lowpass', 'freq': .2 * sr2}
        more = gen.data_stream(ctx, ctx.i(1, 2), comps, method, sr=sr2,
                               npts=int(ctx.u(62, 80) * sr2),
                               onset=ctx.u(26, 30), ids=ids)
        traces = st.traces + more.traces
        st.traces = [traces[i] for i in ctx.rng.permutation(len(traces))]
        ctx.ev('mixed-rates')
    elif ctx.p(.3):  # other events, cut in the same or overlapping windows
        more = gen.data_stream(ctx, 1, comps, method, sr=sr,
                               npts=len(st[0]), onset=ctx.u(26, 30), ids=ids)
        shift = ctx.choice([0, 0, ctx.i(-9, 9) / sr])
        first = {tr.id[:-1]: tr.stats for tr in st}
        for tr in more:
            old = tr.stats.starttime
            tr.stats.starttime = first[tr.id[:-1]].starttime + shift
            for k in ('onset', 'event_time'):
                tr.stats[k] += tr.stats.starttime - old
        traces = st.traces + more.traces
        st.traces = [traces[i] for i in ctx.rng.permutation(len(traces))]
        ctx.ev('same-window')
    if ds and ctx.p(.5):  # clock drift, rates are slightly off
        drift = 1 + ctx.u(-2e-5, 2e-5)
        for tr in st:
            tr.stats.sampling_rate *= drift
        ctx.ev('drift')
    if ctx.p(.2):  # single components are neither rotated nor deconvolved
        gs = list(groups(st).values())
        for g in gs[int(bool(ctx.p(.8))):]:
            if ctx.p(.6):
                keep = ctx.choice(g)
                st.traces = [tr for tr in st if tr is keep or
                             not any(tr is t for t in g)]
                ctx.ev('single-component')
    ctx.mixed = False
    if ctx.p(.25):  # groups are defined by id and onset only
        same = st[0].stats.event_time if ctx.p(.5) else None
        for tr in st:
            tr.stats.vid = tr.stats.event_time.ns
            if same is None:
                del tr.stats.event_time
            else:
                tr.stats.event_time = same
        ctx.ev('same-event-time')
    if ctx.p(.5):
        ctx.ev('method-from-phase')
        if ctx.p(.4):
            for tr in st:
                tr.stats.phase = {'P': 'Pdiff'[:1] + 'P', 'S': 'SKS'}[method]
    else:
        kw['method'] = method
        ctx.ev('method')
        if ctx.p(.3):
            ctx.mixed = True
            every = ctx.p(.5)
            for tr in st:
                if every or ctx.p(.5):
                    tr.stats.phase = 'P' if method == 'S' else 'S'
            if len({tr.stats.phase for tr in st}) == 1 and \
                    st[0].stats.phase == method:
                ctx.mixed = False
    dec = ctx.choice(['default', 'time', 'waterlevel', 'waterlevel', 'freq',
                      'iterative', 'iterative', 'multitaper', None, '',
                      'func'])
    if comps == 'NE':
        dec = None
    if nev > 6 and dec in ('multitaper', 'time', 'default'):
        dec = ctx.choice(['waterlevel', 'iterative', 'time'])
    if dec != 'default':
        kw['deconvolve'] = dec
    if not dec:
        ctx.ev('no-deconvolution')
    else:
        if dec == 'func':
            kw['func'] = custom
            ctx.ev('custom')
        elif dec in ('default', 'time'):
            kw['solve_toeplitz'] = 'scipy'
        if dec == 'iterative':
            kw['itmax'] = ctx.i(2, 20)
        if dec == 'multitaper' and kw.get('trim'):
            kw['trim'] = (-25., 40.)
        if dec != 'multitaper' and ctx.p(.4):
            kw['winsrc'] = ctx.choice([
                'P', 'S', (-5, ctx.u(12, 20), 2), (-10, 15, 5)])
        elif dec == 'multitaper':
            kw['winsrc'] = (-10, 15, 5)
        if ctx.p(.2) and dec != 'func':
            kw['normalize'] = ctx.choice([None, 0, 1])
        if ctx.p(.2):
            src = {'P': 'LZ', 'S': 'QR'}[method]
            if ctx.p(.5):
                src = {'P': 'QR', 'S': 'LZ'}[method]
            kw['source_components'] = src
    if kw.get('trim') and kw['trim'][0] and ctx.p(.3):  # components start at different times
        for tr in st:
            # still before the first time of trim
            n = ctx.i(0, int((25.5 + kw['trim'][0]) *
                             tr.stats.sampling_rate))
            tr.trim(tr.stats.starttime + n / tr.stats.sampling_rate)
        ctx.ev('components-start')
    ctx.desc = {'kw': {k: str(v) if callable(v) else v
                       for k, v in kw.items()}, 'method': method, 'sr': sr,
                'comps': comps, 'ids': ids, 'h': float(st[0].data[0]),
                'n': len(st)}
    ctx.sig(method, dec, rot, comps, len(ids), 'filter' in kw, 'trim' in kw,
            'downsample' in kw, 'winsrc' in kw)
    want = replay(ctx, st, method, kw)
    ret = st.rf(**kw)
    ctx.same('in-place', ret is st, True)
    got = {}
    for key, traces in groups(st).items():
        for tr in traces:
            k = key + (tr.stats.channel[-1],)
            ctx.ok('unique', k not in got)
            got[k] = tr
    ctx.same('traces', set(got), set(want))
    ctx.same('number', len(st), len(want))
    for k in want:
        a, b = got[k], want[k]
        ctx.close('data', a.data, b.data, rtol=1e-7, msg=str(k))
        ctx.close('onset', a.stats.onset - a.stats.starttime,
                  b.stats.onset - b.stats.starttime, atol=3e-6)
        ctx.ok('starttime', abs(a.stats.starttime - b.stats.starttime) <
               2e-6)
        ex = ('processing', 'onset', 'starttime', 'endtime')
        ctx.same('header', gen.snap(gen.header_of(a, ex)),
                 gen.snap(gen.header_of(b, ex)))
        ctx.same('type', a.stats.type, 'rf')
        ctx.same('phase', a.stats.phase[-1], method)
    ctx.same('stream-method', (st.type, st.method), ('rf', method))


@case('excluded', 60, 3000, 5)
def case_excluded(ctx):
    """the stream holds the traces returned by the deconvolution"""
    from rf import RFStream
    from rf.rfstream import RFTrace
    method = ctx.choice('PS')
    sr = ctx.choice([4., 5.])
    rot = ctx.choice(['ZNE->LQT', 'NE->RT'])
    st = gen.data_stream(ctx, ctx.i(1, 3), 'ZNE', method, sr=sr,
                         npts=int(65 * sr), onset=27.)
    comps = {'ZNE->LQT': 'LQT', 'NE->RT': 'ZRT'}[rot]
    kw = {'rotate': rot}
    kind = ctx.choice(['response_components', 'func-new', 'func-fewer'])
    if kind == 'response_components':
        rc = kw['response_components'] = ctx.choice([comps[:2], comps[1:],
                                                     comps[2], comps[0]])
        kw['deconvolve'] = ctx.choice(['time', 'waterlevel', 'iterative'])
        if kw['deconvolve'] == 'iterative':
            kw['itmax'] = 5
    else:
        kw['deconvolve'] = 'func'

        def func(rsp, src, tshift=10, **more):
            rsp = RFStream(sorted(rsp, key=lambda tr: tr.id))
            if kind == 'func-new':
                rsp = RFStream([RFTrace(data=tr.data + tshift,
                                        header=tr.stats) for tr in rsp])
            else:
                rsp = RFStream([tr for tr in rsp if tr is not rsp[0]])
            return rsp
        kw['func'] = func
    ctx.desc = {'kind': kind, 'rot': rot, 'method': method,
                'kw': {k: str(v) for k, v in kw.items()
                       if k != 'func'}, 'h': float(st[0].data[0])}
    ctx.sig(kind, rot, method, kw['deconvolve'], kw.get(
        'response_components'))
    ctx.mixed = False
    want = replay(ctx, st, method, kw)
    st.rf(**kw)
    got = {}
    for key, traces in groups(st).items():
        for tr in traces:
            got[key + (tr.stats.channel[-1],)] = tr
    ctx.same('traces', set(got), set(want))
    ctx.same('number', len(st), len(want))
    for k in got:
        ctx.close('data', got[k].data, want[k].data, rtol=1e-7)
        ctx.same('type', (got[k].stats.type, got[k].stats.phase[-1]),
                 ('rf', method))


@case('invalid', 40, 1500, 5)
def case_invalid(ctx):
    st = gen.data_stream(ctx, 1, 'LQT', 'P', sr=4., npts=250, onset=25.)
    bad = ctx.choice(['Q', '', 'PS', 'p', 0, 'no-phase', 'mixed', 'other'])
    kw = {'rotate': None, 'deconvolve': ctx.choice([None, 'waterlevel'])}
    if bad == 'no-phase':
        for tr in st:
            del tr.stats.phase
    elif bad == 'mixed':
        for tr, ph in zip(st, 'PSP'):
            tr.stats.phase = ph
    elif bad == 'other':
        for tr in st:
            tr.stats.phase = 'PKiK'
    else:
        kw['method'] = bad
    ctx.desc = {'bad': bad, 'kw': kw}
    before = gen.snap(st)
    try:
        st.rf(**kw)
    except ValueError:
        ctx.ok('invalid-method', True)
    else:
        ctx.ok('invalid-method', False, 'no ValueError for %r' % bad)
    ctx.same('invalid-unchanged', gen.snap(st), before)
