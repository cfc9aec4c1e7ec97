import os
import sys

import numpy as np
import obspy
import obspyh5

from mon import gen
from mon.checks.c01 import EXT, make_h5able, random_stream, uniq_ids
from mon.core import case
from mon.iomodel import HEADERS
from rf import RFStream, read_rf

PROP = 'C02'
SCALE = 3
TECHNIQUE = 'snapshot monitor around every write, fault injection at every file operation (audit hook, h5py wrappers)'
NOTE = 'faults are enumerated for each sampled stream and format: n-th open/h5py call fails for all n'
LEVEL = 'fault_enumeration'
RULE = ('random streams and sequences of writes to Q, SAC, H5 of which some '
        'fail (missing directory, unknown format, exception in the format '
        'plugin, in the n-th open or in the n-th h5py call); snapshots of '
        'stream and H5 index before/after each write and the contents of the '
        'files compared to a write of a pristine copy; non-trivial if at '
        'least one snapshot was compared; distinct by hash of the parameters')
ASSUMPTIONS = ['format specific containers stats.sac, stats.sh may be created '
               'by a write and are not part of the snapshot']
REQUIRED = {'write-ok': 111, 'write-failed': 100, 'memory': 300,
            'file-contents': 111, 'fault:open': 20, 'fault:h5py': 10}

EXCLUDE = ('sac', 'sh', 'hdf', 'mseed', '_format')


def snapshot(stream):
    return tuple((tr.id, gen.snap(tr.data), id(tr),
                  gen.snap({k: tr.stats[k] for k in tr.stats.keys()
                            if k not in EXCLUDE})) for tr in stream)


def contents(path):
    """Contents of all files independent of internal creation times"""
    out = []
    formats = {v: k for k, v in EXT.items()}
    for f in sorted(os.listdir(path)):
        fmt = formats.get(os.path.splitext(f)[1])  # no guess of the format
        try:
            st = read_rf(os.path.join(path, f), fmt)
        except Exception:
            continue
        st.traces.sort(key=lambda tr: (tr.id, str(tr.stats.starttime),
                                       tr.data.tobytes()))
        out.append((f, tuple((tr.id, gen.snap(tr.data),
                    gen.snap(gen.header_of(tr))) for tr in st)))
    return out


class Fault(Exception):
    pass


class OpenFault(object):

    """Let the n-th open for writing below a directory fail"""

    def __init__(self):
        self.n = None
        self.count = 0
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if self.n is None or event != 'open':
            return
        if not isinstance(args[0], (str, bytes)):
            return
        path = os.fsdecode(args[0])
        if not path.startswith(self.base):
            return
        self.count += 1
        if self.count == self.n:
            raise Fault('injected')

    def arm(self, base, n):
        self.base, self.n, self.count = base, n, 0

    def disarm(self):
        self.n = None
        return self.count


HOOK = None


def open_fault():
    global HOOK
    if HOOK is None:
        HOOK = OpenFault()
    return HOOK


class H5Fault(object):

    """Let the n-th call of h5py functions used for writing fail"""

    def __init__(self, n):
        self.n = n
        self.count = 0

    def _wrap(self, f):
        def wrapper(*args, **kwargs):
            self.count += 1
            if self.count == self.n:
                raise Fault('injected')
            return f(*args, **kwargs)
        return wrapper

    def __enter__(self):
        import h5py
        self.old = [(h5py.File, '__init__', h5py.File.__init__),
                    (h5py.Group, 'create_dataset', h5py.Group.create_dataset),
                    (h5py.AttributeManager, '__setitem__',
                     h5py.AttributeManager.__setitem__)]
        for obj, attr, f in self.old:
            setattr(obj, attr, self._wrap(f))
        return self

    def __exit__(self, *args):
        for obj, attr, f in self.old:
            setattr(obj, attr, f)


def gen_stream(ctx):
    for _ in range(10):
        stream, models = random_stream(ctx, ntr=ctx.i(1, 3))
        make_h5able(ctx, stream, models)
        if uniq_ids(stream):
            return stream
    return None


def do_write(ctx, stream, fmt, d, fname='x', via_trace=False, **kw):
    f = os.path.join(d, fname + EXT.get(fmt, '.x'))
    if via_trace:
        stream[0].write(f, fmt, **kw)
    else:
        stream.write(f, fmt, **kw)


def check_memory(ctx, stream, before, index, msg):
    after = snapshot(stream)
    for a, b in zip(before, after):
        ctx.same('memory', b[0], a[0], msg + ' seed id')
        ctx.ok('memory', a[1] == b[1], lambda: msg + ' waveform changed')
        if not ctx.ok('memory', a[3] == b[3], lambda: '%s headers %s' % (
                msg, [(x, y) for x, y in zip(a[3][1], b[3][1])
                      if x != y][:3] or (a[3], b[3]))):
            pass
    ctx.ok('memory', [a[2] for a in before] == [b[2] for b in after],
           lambda: msg + ' traces replaced')
    ctx.same('h5-index', obspyh5._INDEX, index, msg)


@case('sequence', 90, 3000)
def sequence(ctx):
    stream = gen_stream(ctx)
    if stream is None:
        return ctx.trivial()
    pristine = stream.copy()
    custom = ctx.p(.3)
    obspyh5.set_index('waveforms/{network}_{station}_{location}_{channel}_'
                      '{starttime}' if custom else 'standard')
    index = obspyh5._INDEX
    steps = []
    for k in range(ctx.i(3, 7)):
        fmt = ctx.choice(['SAC', 'Q', 'H5', 'Q', 'q', 'h5'])
        up = fmt.upper()
        kind = ctx.choice(['ok', 'ok', 'ok', 'nodir', 'format', 'plugin',
                           'mode', 'header', 'header'])
        via = ctx.p(.2)
        steps.append((fmt, kind, via))
        bad = None
        if kind == 'header':  # value which cannot be written
            bad = ctx.choice(stream.traces)
            key, val = {'SAC': ('onset', 'x'), 'H5': ('event_time', 'x'),
                        'Q': ('pp_latitude', np.arange(2.))}[up]
            old_val = bad.stats.get(key)
            bad.stats[key] = val
            ctx.ev('bad-header')
        before = snapshot(stream)
        d = ctx.tmpdir()
        msg = '%s %s' % (fmt, kind)
        if kind == 'ok':
            kw = {'sh_compat': True} if up == 'Q' and ctx.p(.2) else {}
            f = os.path.join(d, 'x' + EXT[up])
            (stream[0] if via else stream).write(f, fmt, **kw)
            ctx.ev('write-ok')
            check_memory(ctx, stream, before, index, msg)
            # same as write of pristine copy
            d2 = ctx.tmpdir()
            p = pristine.copy()
            f = os.path.join(d2, 'x' + EXT[up])
            (p[0] if via else p).write(f, fmt, **kw)
            ca, cb = contents(d), contents(d2)
            ctx.ok('file-contents', len(ca) > 0 and ca == cb, lambda: (
                '%s after %s: %s != %s' % (fmt, steps, ca, cb)))
            continue
        old = obspy.Stream.write
        try:
            if kind == 'nodir':
                f = os.path.join(d, 'no', 'dir', 'x' + EXT[up])
            else:
                f = os.path.join(d, 'x' + EXT[up])
            f2 = 'UNKNOWN' if kind == 'format' else fmt
            kw = {}
            if kind == 'mode' and up == 'H5':
                kw = {'mode': 'nonsense'}
            elif kind == 'mode':
                kw = {'byteorder': 'nonsense'}
            if kind == 'plugin':
                late = ctx.p(.5)

                def failing(self, *args, **kwargs):
                    if late:
                        old(self, *args, **kwargs)
                    raise Fault('injected')
                obspy.Stream.write = failing
            (stream[0] if via else stream).write(f, f2, **kw)
            ctx.ev('write-no-failure')
        except Exception:
            ctx.ev('write-failed')
        finally:
            obspy.Stream.write = old
        check_memory(ctx, stream, before, index, msg)
        if bad is not None:
            if old_val is None:
                bad.stats.pop(key)
            else:
                bad.stats[key] = old_val
    ctx.desc = {'steps': steps, 'ids': [tr.id for tr in stream],
                'custom': custom, 'n': [len(tr) for tr in stream]}
    for s in steps:
        ctx.sig(*s)
    obspyh5.set_index('standard')


@case('empty', 6, 60)
def empty(ctx):
    """nothing is written for an empty stream, settings are kept"""
    d = ctx.tmpdir()
    fmt = ctx.choice(['SAC', 'Q', 'H5', 'q', 'h5', 'sac'])
    kw = ctx.choice([{}, {'sh_compat': True}, {'mode': 'a'}])
    ctx.desc = {'fmt': fmt, 'kw': kw}
    index = obspyh5._INDEX
    stream = RFStream()
    if ctx.p(.5):
        stream = gen_stream(ctx) or stream
        stream.traces[:] = []
    stream.write(os.path.join(d, 'x.' + fmt), fmt, **kw)
    ctx.same('empty', os.listdir(d), [])
    ctx.same('empty', len(stream), 0)
    ctx.same('empty', obspyh5._INDEX, index)
    ctx.sig(fmt, *kw)


@case('faults', 40, 1200)
def faults(ctx):
    """n-th file operation fails, for all n"""
    stream = gen_stream(ctx)
    if stream is None:
        return ctx.trivial()
    pristine = stream.copy()
    fmt = ctx.choice(['SAC', 'Q', 'H5'])
    via = ctx.p(.2)
    index = obspyh5._INDEX
    ctx.desc = {'fmt': fmt, 'via': via, 'ids': [tr.id for tr in stream],
                'type': stream[0].stats.get('type')}
    n = 0
    failed = 0
    while n < 60:
        n += 1
        before = snapshot(stream)
        d = ctx.tmpdir()
        f = os.path.join(d, 'x' + EXT[fmt])
        obj = stream[0] if via else stream
        done = False
        if fmt == 'H5':
            with H5Fault(n) as fault:
                try:
                    obj.write(f, fmt)
                    done = True
                except Fault:
                    ctx.ev('fault:h5py')
        else:
            hook = open_fault()
            hook.arm(d, n)
            try:
                obj.write(f, fmt)
                done = True
            except Fault:
                ctx.ev('fault:open')
            finally:
                hook.disarm()
        check_memory(ctx, stream, before, index, '%s fault %d' % (fmt, n))
        ctx.ev('write-ok' if done else 'write-failed')
        if done:
            p = pristine.copy()
            d2 = ctx.tmpdir()
            (p[0] if via else p).write(os.path.join(d2, 'x' + EXT[fmt]), fmt)
            ctx.ok('file-contents', contents(d) == contents(d2))
            break
        failed += 1
    ctx.ok('fault-reached', failed > 0)
    ctx.sig(fmt, via, failed)
