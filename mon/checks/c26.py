"""
C26: files are created, changed and deleted only at the output path
"""
import contextlib
import glob
import io
import os
import tempfile

import numpy as np

from mon import cli, gen, hooks
from mon.core import case
from mon.iomodel import guessed, rand_headers

PROP = 'C26'
TECHNIQUE = 'runtime monitor: interpreter audit events for all file system changes plus snapshots of directory trees and open file descriptors, checked online against the set of files which belong to the named output'
NOTE = 'held on all observed file system events of the sampled commands, formats and API calls'
RULE = ('reads, writes, batch commands (also failing ones) and API calls '
        'inside directories populated with unrelated files and near misses '
        'of the output names')
ASSUMPTIONS = ['file system changes by extension modules without audit event '
               '(libhdf5) are seen by the directory snapshots only',
               'caches of matplotlib in its own cache directory are not '
               'counted']
REQUIRED = {'audit': 100, 'unchanged': 100, 'no-files:rf': 3,
            'no-files:harmonics': 3, 'write:H5': 6, 'write:Q': 7,
            'write:SAC': 5, 'read': 20, 'batch:data': 8, 'batch:calc': 8,
            'batch:plot': 2, 'batch:convert': 4, 'batch:stack': 3,
            'batch:profile': 3, 'open-files': 60, 'failing': 10,
            'temp-left': 60, 'observed-writes': 60, 'many-traces': 2}

_AUDIT = []


def audit():
    # one hook for each (forked) process
    if not _AUDIT or _AUDIT[0][0] != os.getpid():
        _AUDIT[:] = [(os.getpid(), hooks.FileAudit())]
    return _AUDIT[0][1]


def open_files(path):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            f = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if f.startswith(path + os.sep):
            out.append(os.path.relpath(f, path))
    return sorted(out)


@contextlib.contextmanager
def watch(ctx, path, allowed, must=None):
    """
    Nothing in path changes except for files for which allowed(rel) is True

    must: set of relative file names which have to exist afterwards
    """
    import matplotlib
    path = os.path.realpath(path)
    skip = [os.path.realpath(d) + os.sep for d in (
        matplotlib.get_cachedir(), matplotlib.get_configdir())]
    before = hooks.tree(path)
    fds = open_files(path)
    tmp = os.path.realpath(ctx.tmpdir())
    oldtmp = tempfile.tempdir
    tempfile.tempdir = tmp
    aud = audit()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            with aud:
                yield
    finally:
        log = list(aud.log)
        tempfile.tempdir = oldtmp
    after = hooks.tree(path)
    bad = []
    for entry in log:
        if entry[0] in ('shutil.copyfile', 'subprocess.Popen') and (
                entry[0][0] == 's' and 'opyfile' in entry[0] or
                any('uname' in str(f) for f in entry[1:])):
            # the respective open events count; Python's platform module
            continue
        for f in entry[1:]:
            r = os.path.realpath(f) if os.path.isabs(f) else f
            if r == os.devnull or (r + os.sep).startswith(tmp + os.sep):
                continue
            if any(r.startswith(s) for s in skip):
                continue
            if r.startswith(path + os.sep):
                rel = os.path.relpath(r, path)
                if allowed(rel):
                    ctx.ev('observed-writes')
                    continue
            bad.append((entry[0], f))
    ctx.ok('audit', not bad, lambda: 'unexpected changes %s' % bad[:5])
    ch = [n for n in set(before) | set(after)
          if before.get(n, 0) != after.get(n, 0) and
          not allowed(n.rstrip(os.sep))]
    ctx.ok('unchanged', not ch, lambda: 'changed files %s' % sorted(ch)[:5])
    if must is not None:
        new = {n for n in after if not n.endswith('/')}
        ctx.ok('created', must <= new, lambda: 'missing %s' % sorted(
            must - new))
    ctx.same('open-files', open_files(path), fds)
    ctx.same('temp-left', sorted(hooks.tree(tmp)), [])


def neighbours(ctx, path, names):
    """create unrelated files with similar names"""
    for n in names:
        if ctx.p(.7):
            f = os.path.join(path, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if not os.path.exists(f):
                with open(f, 'wb') as fh:
                    fh.write(ctx.rng.bytes(ctx.i(0, 50)))


def nothing(rel):
    return False


@case('api', 24, 500, 3)
def case_api(ctx):
    """functions without file argument"""
    import rf
    from rf import RFStream, get_profile_boxes, read_rf, rfstats
    from rf.deconvolve import (deconv_iterative, deconv_time,
                               deconv_waterlevel)
    path = ctx.tmpdir()
    neighbours(ctx, path, ['a', 'conf.json', 'x.h5', 'model.dat', 'P.QHD'])
    done = []
    with cli.cwd(path):
        with watch(ctx, path, nothing):
            st = gen.data_stream(ctx, nev=ctx.i(2, 4), sr=5., npts=350)
            for what in ctx.rng.permutation(
                    ['rf', 'moveout', 'ppoints', 'profile', 'stack',
                     'harmonics', 'read', 'rfstats', 'deconv', 'plot',
                     'copy', 'fail', 'slice', 'iter'])[:8]:
                done.append(what)
                if what == 'rf':
                    s2 = st.copy().rf(
                        deconvolve=ctx.choice(['time', 'waterlevel',
                                               'iterative']))
                    str(s2)
                elif what == 'moveout':
                    st.copy().moveout(phase=ctx.choice(['Ps', 'Ppps']))
                elif what == 'ppoints':
                    st.ppoints(50)
                elif what == 'profile':
                    s2 = st.copy()
                    for tr in s2:
                        tr.stats.pp_latitude = tr.stats.station_latitude
                        tr.stats.pp_longitude = tr.stats.station_longitude
                    s = s2[0].stats
                    s2.profile(get_profile_boxes(
                        (s.station_latitude, s.station_longitude), 90,
                        [-10, 0, 10]))
                elif what == 'stack':
                    st.stack()
                elif what == 'harmonics':
                    s2 = st.copy()
                    for tr in s2:
                        tr.stats.channel = tr.stats.channel[:2] + {
                            'Z': 'L', 'N': 'Q', 'E': 'T'}[tr.stats.channel[2]]
                    s2.trim2(-5, 20, 'onset').harmonics(components='QT')
                elif what == 'read':
                    read_rf()
                    rf.rfstream.read_rf(None)
                elif what == 'rfstats':
                    rfstats(event=gen.event(ctx, lat=0, lon=0, depth=10),
                            station={'latitude': 50, 'longitude': 0,
                                     'elevation': 0})
                elif what == 'deconv':
                    a = ctx.rng.normal(size=50)
                    deconv_time([a], a, 0)
                    deconv_waterlevel([a], a, 10.)
                    deconv_iterative([a], a, 10.)
                elif what == 'plot':
                    import matplotlib.pyplot as plt
                    st.select(component='Z').plot_rf()
                    plt.close('all')
                elif what == 'copy':
                    st.copy().sort().select(component='Z')
                elif what == 'fail':
                    for f in (lambda: st.copy().rf(rotate='X->Y'),
                              lambda: st.copy().moveout(phase='Xs'),
                              lambda: read_rf('not_there'),
                              lambda: rf.batch.run_commands('calc', bla=1)):
                        try:
                            import rf.batch
                            f()
                        except Exception:
                            ctx.ev('failing')
                elif what == 'slice':
                    st.slice2(-5, 5, 'onset')
                elif what == 'iter':
                    inv = gen.inventory([{
                        'net': 'A', 'sta': 'B', 'locs': [('', 'BH', 'ZNE')],
                        'lat': 50, 'lon': 0, 'elev': 0}])
                    list(rf.iter_event_data(
                        [gen.event(ctx, lat=0, lon=0, depth=10)], inv,
                        lambda **kw: st[:0]))
                ctx.ev('no-files:' + what)
    ctx.desc = {'done': done}
    ctx.sig(*done[:2])


def random_headers(ctx, st):
    for tr in st:
        rand_headers(ctx, tr, prob=.5)
        tr.stats.event_time = tr.stats.starttime - 500 - ctx.i(0, 100)
        tr.stats.type = 'rf'
    return st


@case('write', 60, 1500, 4)
def case_write(ctx):
    from rf import read_rf
    path = ctx.tmpdir()
    fmt = ctx.choice(['Q', 'SAC', 'H5', 'MSEED'])
    sub = ctx.choice(['', 'sub', 'a b'])
    ext = {'Q': '.QHD', 'SAC': '.SAC', 'H5': '.h5', 'MSEED': '.ms'}[fmt]
    name = os.path.join(sub, ctx.choice(['out', 'data', 'o.x']) + ext)
    os.makedirs(os.path.join(path, sub), exist_ok=True)
    stem = name[:-len(ext)]
    # case insensitive names are used in Q format
    allow = {name}
    if fmt == 'Q':
        allow |= {stem + '.QBN'}
    n = 1
    st = random_headers(ctx, gen.data_stream(
        ctx, nev=ctx.i(1, 2), sr=4., npts=100))
    if fmt != 'SAC' and ctx.p(.2):  # larger files
        ctx.ev('many-traces')
        for k in range(ctx.choice([18, 35])):
            for tr in st[:3].copy():
                tr.stats.starttime += 1000 * (k + 1)
                tr.stats.onset += 1000 * (k + 1)
                st.append(tr)
    if fmt == 'SAC':
        st = st[:1] if ctx.p(.5) else st
        n = len(st)
        if n > 1:
            allow = {'%s%02d%s' % (stem, i + 1, ext) for i in range(n)}
    neighbours(ctx, path, [stem, stem + '1' + ext, stem + '.bak', name + '~',
                           name + '.tmp', stem + '.H5', stem + '.QHD',
                           stem + '.QBN', stem + '.SAC', 'x.SAC',
                           os.path.join(sub, 'x.QBN')][0:ctx.i(3, 11)])
    for f in allow:
        f = os.path.join(path, f)
        if os.path.exists(f) and (fmt == 'H5' or ctx.p(.5)):
            os.remove(f)
    fail = ctx.p(.2)
    ctx.desc = {'fmt': fmt, 'name': name, 'n': n, 'fail': fail}
    ctx.sig(fmt, sub, fail)
    with cli.cwd(path):
        target = name if ctx.p(.5) else os.path.join(path, name)
        with watch(ctx, path, allow.__contains__,
                   None if fail else allow):
            if fail:
                # fails after some traces have been written
                st[-1].data = np.array([object()] * 3)
                try:
                    st.write(target, fmt)
                except Exception:
                    ctx.ev('failing')
            elif len(st) == 1 and ctx.p(.5):
                st[0].write(target, fmt)
            else:
                st.write(target, fmt)
        ctx.ev('write:' + fmt)
        if fail:
            return
        with watch(ctx, path, nothing):
            s2 = read_rf(target if n == 1 else stem + '[0-9][0-9]' + ext,
                         None if ctx.p(.5) and guessed(
                             fmt, glob.glob(stem + '*')) else fmt)
            # modification of data read before does not alter the file
            for tr in s2:
                tr.data[:] = 0
                tr.stats.onset = tr.stats.starttime
            ctx.ev('read', len(s2))
            del s2
        with watch(ctx, path, nothing):
            try:
                read_rf(ctx.choice(['nothing', 'noth*', sub or '.']), fmt)
            except Exception:
                ctx.ev('failing')


@case('batch', 24, 800, 1)
def case_batch(ctx):
    path = ctx.tmpdir()
    ds = cli.Dataset(ctx, path, 'P', holes=False, nsta=ctx.i(1, 2))
    fmt = ctx.choice(['Q', 'SAC', 'H5'])
    opts = {'request_window': list(ds.window), 'pp_depth': 50}
    s = ds.stations[0]
    conf = ds.config(
        options=opts, format=fmt, boxbins=[-120, 120, 4],
        boxes={'latlon0': [s['lat'], s['lon']], 'azimuth': 0,
               'width': 2000})
    deep = ctx.choice(['', '', 'res/'])
    name = lambda n: deep + n
    with cli.cwd(path):
        cli.write_conf('conf.json', conf)
        if deep:
            os.mkdir('res')
        sid = '%s.%s.' % (s['net'], s['sta'])
        neighbours(ctx, path, ['d/x', 'd.txt', 'r/%s/x' % sid, 'r/y', 'm.QHD',
                               'm2.h5', 'rf', 'd1/x', 'D.h5', 'c.h5.bak',
                               's/x.SAC', 'p/profile_L_x.pdf', 'ss/s',
                               'xx.h5', deep + 'c/x', deep + 'c.x'])
        files = {}

        def run(args, out, kind=None, fmt=fmt, must=True):
            root = out
            keep = set(hooks.tree(path))

            def allowed(rel):
                if rel in keep and rel not in files.get(out, ()):
                    return False
                if rel + '/' in keep:
                    return False
                if rel == root:
                    # output directory
                    return True
                if rel.startswith(root + '/'):
                    return True
                if kind == 'plot':
                    return False
                ends = {'H5': ['.h5'], 'Q': ['.QHD', '.QBN'], 'SAC': []}[fmt]
                return rel in [root + e for e in ends]
            with watch(ctx, path, allowed):
                t, code = cli.cli(*args)
            new = set(hooks.tree(path)) - keep
            if must:
                ctx.ok('batch-created', len(new) > 0, lambda: '%s %s' % (
                    args, t))
            files.setdefault(out, set()).update(new)
            ctx.ev('batch:' + args[0])
        d, r, m = name('d'), name('r'), name('m')
        run(['data', d], d)
        run(['calc', d, r], r)
        run(['moveout', r, m], m)
        if ctx.p(.3):
            run(['data', 'calc', 'moveout', name('x')], name('x'))
        todo = list(ctx.rng.permutation(
            ['stack', 'profile', 'convert', 'plot', 'fail', 'again',
             'print', 'create']))[:4]
        ctx.desc = {'fmt': fmt, 'todo': todo, 'deep': deep}
        ctx.sig(fmt, *todo)
        new = [f for f in ('Q', 'SAC', 'H5') if f != fmt][ctx.i(0, 1)]
        for what in todo:
            if what == 'stack':
                run(['stack', m, name('s')], name('s'))
            elif what == 'profile':
                run(['profile', m, name('p')], name('p'), must=False)
                if os.path.exists(name('p')) or os.path.exists(
                        name('p') + '.h5') or os.path.exists(
                        name('p') + '.QHD'):
                    run(['plot-profile', name('p'), name('pp')], name('pp'),
                        'plot')
            elif what == 'convert':
                run(['convert', m, name('c'), new], name('c'), fmt=new)
            elif what == 'plot':
                run(['plot', r, name('pl')], name('pl'), 'plot')
            elif what == 'again':
                # same results again
                run(['calc', d, r], r, must=False)
            elif what == 'print':
                with watch(ctx, path, nothing):
                    cli.cli('print', 'events')
            elif what == 'create':
                ok = {'new/' + n for n in (
                    'conf.json', 'example_events.xml', 'example_data.mseed',
                    'example_inventory.xml')}
                os.makedirs('new', exist_ok=True)
                tut = ctx.p(.5)
                if not tut:
                    ok = {'new/conf.json'}
                with watch(ctx, path, ok.__contains__, ok):
                    cli.cli('-c', 'new/conf.json', 'create',
                            *(['-t'] if tut else []))
                ctx.ev('batch:create')
            else:
                with watch(ctx, path, nothing):
                    for a in (['-c', 'nothing', 'calc', d, 'f'],
                              ['--events', 'nothing', 'calc', d, 'f'],
                              ['calc', 'nothing', 'f'],
                              ['data', 'calc', 'calc', 'f'],
                              ['convert', 'nothing', 'f', 'SAC'],
                              ['stack', 'nothing', 'f']):
                        try:
                            cli.cli(*a)
                        except Exception:
                            pass
                        ctx.ev('failing')
