"""
C16: delay times and model layers agree with ray theory in a layered model
"""
import os

import numpy as np

from mon import gen, ref
from mon.core import case

PROP = 'C16'
SCALE = 8
TECHNIQUE = 'runtime monitor of model objects and delay times, oracle is an independent layer by layer ray theoretical model'
NOTE = 'held on sampled models, slownesses and phases'
RULE = ('random models given as arrays, lists or files with and without '
        'number of intermediate points, iasp91; random slownesses up to and '
        'beyond the turning point; converted phases and multiples')
ASSUMPTIONS = ['layers have the velocity of their upper support point',
               '1 degree is 111.2 km, slowness given for a flat model']
REQUIRED = {'layers': 100, 'delay': 300, 'surface': 300, 'turning': 38,
            'vertical-slowness': 300, 'stretch': 150, 'odd-phase': 50,
            'inputs': 100, 'reload': 40, 'form:list': 16, 'form:array': 7,
            'form:file3': 5, 'form:file4': 8, 'iasp91': 6}
PHASES = ['Ps', 'Sp', 'Ppps', 'Ppss', 'Psss', 'Pppp', 'Ssps', 'Sspp', 'Sssp',
          'Spss', 'Spps', 'Sppp', 'ps', 'PS', 'Ppppps', 'Pspsps']


def random_model(ctx):
    nl = ctx.i(1, 12)
    dz = [ctx.choice([0., ctx.u(.5, 60), ctx.u(5, 60)]) if 0 < j < nl - 1 else
          ctx.u(2, 60) for j in range(nl)]
    z = np.r_[0, np.cumsum(dz)]
    vp = np.linspace(5, ctx.u(6, 11), nl + 1)
    vs = vp / ctx.u(1.6, 1.9)
    if ctx.p(.5):  # low velocity zones
        vp = vp * ctx.rng.uniform(.85, 1.15, nl + 1)
        vs = vs * ctx.rng.uniform(.85, 1.15, nl + 1)
    z, vp, vs = np.round(z, 3), np.round(vp, 3), np.round(vs, 3)
    n = [ctx.i(0, 5) for _ in range(nl + 1)] if ctx.p(.6) else None
    return z, vp, vs, n


def write_model(ctx, z, vp, vs, n):
    fname = os.path.join(ctx.tmpdir(), 'model.dat')
    with open(fname, 'w') as f:
        if ctx.p(.7):
            f.write('# comment\n# depth vp vs\n')
        for j in range(len(z)):
            row = [z[j], vp[j], vs[j]] + ([] if n is None else [n[j]])
            f.write('  '.join(str(x) for x in row) + '\n')
    return fname


def get_model(ctx):
    """model object, reference model"""
    from rf.simple_model import SimpleModel, load_model
    form = ctx.choice(['list', 'array', 'int', 'file', 'file', 'iasp91',
                       'tuple'])
    if form == 'iasp91':
        ctx.ev('iasp91')
        return load_model(), ref.iasp91(), 'iasp91'
    z, vp, vs, n = random_model(ctx)
    if form == 'int':  # integer support points
        z = np.round(z)
        vp, vs = np.round(vp), np.maximum(1, np.round(vs))
        args = [z.astype(int), vp.astype(int), vs.astype(int)]
        if ctx.p(.5):
            args = [list(map(int, a)) for a in args]
    elif form == 'array':
        args = [z.copy(), vp.copy(), vs.copy()]
        ctx.ev('form:array')
    elif form in ('list', 'tuple'):
        ty = list if form == 'list' else tuple
        args = [ty(map(float, a)) for a in (z, vp, vs)]
        ctx.ev('form:list')
    if form == 'file':
        ctx.ev('form:file%d' % (3 if n is None else 4))
        fname = write_model(ctx, z, vp, vs, n)
        m = load_model(fname)
        lay = ref.Layered(z, vp, vs, n)
        if ctx.p(.5):  # file with same name and other content
            other = random_model(ctx)
            check_layers(ctx, load_model(write_model(ctx, *other)),
                         ref.Layered(*other))
            ctx.ev('same-name')
        m2 = load_model(fname)
        for name in ('z', 'dz', 'vp', 'vs'):
            ctx.ok('reload', np.array_equal(getattr(m, name),
                                            getattr(m2, name)), name)
        return m, lay, form
    if n is not None:
        args.append(np.array(n) if ctx.p(.5) else list(n))
    before = gen.snap(args)
    if n is not None and ctx.p(.3):
        m = SimpleModel(*args[:3], n=args[3])
    else:
        m = SimpleModel(*args)
    lay = ref.Layered(z, vp, vs, n)
    ctx.ok('inputs', gen.snap(args) == before, 'support points modified')
    # results do not depend on later changes of the arguments
    return m, lay, form


def check_layers(ctx, m, lay):
    n = len(lay.top)
    for name, want in (('z', lay.top), ('dz', lay.h), ('vp', lay.vp),
                       ('vs', lay.vs)):
        ctx.close('layers', getattr(m, name), want, atol=1e-9, rtol=1e-12,
                  msg='%s of %d layers' % (name, n))


def turning(lay, p, waves):
    """True for tops of layers reached by all waves"""
    bad = np.zeros(len(lay.top), bool)
    for w in waves:
        v = lay.vp if w == 'P' else lay.vs
        bad |= (p / ref.DEG2KM * v > 1)
    k = int(np.argmax(bad)) if bad.any() else len(bad)
    reach = np.arange(len(bad)) <= k
    return reach


@case('delays', 120, 20000)
def case_delays(ctx):
    m, lay, form = get_model(ctx)
    ctx.desc = {'form': form, 'z': list(lay.top[:12]),
                'vp': list(lay.vp[:12])}
    check_layers(ctx, m, lay)
    before = {k: np.array(getattr(m, k)) for k in ('z', 'dz', 'vp', 'vs')}
    for _ in range(6):
        p = ctx.choice([ctx.u(.5, 9), ctx.u(4, 9), ctx.u(9, 20), 6.4, 0.])
        phase = ctx.choice(PHASES)
        if ctx.p(.3):
            phase = ''.join(ctx.choice('PSps') for _ in range(
                ctx.choice([2, 4, 6])))
            if len(set(phase.upper())) == 1:
                phase = 'P' + phase[1:]
                phase = phase[:-1] + 's'
        ctx.desc.update(p=p, phase=phase)
        ctx.sig(form, phase.upper(), len(lay.top) // 5)
        qp, qs = m.calculate_vertical_slowness(p, phase)
        ph = phase.upper()
        if 'P' in ph:
            ctx.close('vertical-slowness', qp, lay.q(p, 'P'), atol=1e-10,
                      msg='P')
        if 'S' in ph:
            ctx.close('vertical-slowness', qs, lay.q(p, 'S'), atol=1e-10,
                      msg='S')
        t = m.calculate_delay_times(p, phase)
        want = lay.delays(p, phase)
        ctx.close('delay', t, want, atol=1e-8, msg='%s p=%s' % (phase, p))
        ctx.ok('surface', len(t) and t[0] == 0, lambda: str(t[:2]))
        reach = turning(lay, p, [w for w in 'PS' if w in ph])
        ctx.ok('reach', np.array_equal(np.isfinite(t), reach),
               lambda: '%s p=%s finite %s reached %s' % (
                   phase, p, np.isfinite(t).sum(), reach.sum()))
        if not reach.all():
            ctx.ev('turning')
        # default phase, stretching pairs times of same depths
        if ctx.p(.3):
            ctx.close('delay', m.calculate_delay_times(p),
                      lay.delays(p, 'PS'), atol=1e-8, msg='default phase')
            a, b = m.calculate_vertical_slowness(p)
            ctx.close('vertical-slowness', a, lay.q(p, 'P'), atol=1e-10)
            ctx.close('vertical-slowness', b, lay.q(p, 'S'), atol=1e-10)
        pref = ctx.choice([ctx.u(4, 9), 6.4])
        r0, r1 = want, lay.delays(pref, phase)
        ok = np.isfinite(r0) & np.isfinite(r1)
        k = len(ok) if ok.all() else int(np.argmin(ok))
        if k > 3:
            x0, x1 = m.stretch_delay_times(p, phase, pref)
            ctx.same('stretch-length', len(x0), len(x1))
            ctx.ok('stretch-finite', np.all(np.isfinite(x0)) and
                   np.all(np.isfinite(x1)))
            s = -1 if ph[0] == 'S' else 1
            have = set(zip(np.round(x0, 7), np.round(x1, 7)))
            pairs = list(zip(np.round(s * r0[:k - 1] + 0., 7),
                             np.round(s * r1[:k - 1] + 0., 7)))
            near = [any(abs(a - c) < 1e-6 and abs(b - d) < 1e-6
                        for c, d in have) for a, b in pairs[::max(
                            1, len(pairs) // 8)]]
            ctx.ok('stretch', all(near), lambda: '%s p=%s ref=%s: %s of %s '
                   'depths in stretching' % (phase, p, pref, sum(near),
                                             len(near)))
    odd = ctx.choice(['P', 'S', 'Pps', 'Ppp', 'Sppps'])
    try:
        m.stretch_delay_times(6.5, odd)
    except ValueError:
        ctx.ok('odd-phase', True)
    else:
        ctx.ok('odd-phase', False, odd)
    for k, v in before.items():
        ctx.ok('inputs', np.array_equal(v, getattr(m, k)),
               'model attribute %s changed' % k)


@case('intermediate', 40, 4000)
def case_intermediate(ctx):
    """
    intermediate points do not change the velocities at support points and
    halve, third, ... the intervals
    """
    from rf.simple_model import SimpleModel
    z, vp, vs, _ = random_model(ctx)
    n = [ctx.i(0, 6) for _ in z]
    m0, m = SimpleModel(z, vp, vs), SimpleModel(z, vp, vs, n)
    ctx.desc = {'z': list(z), 'n': n}
    ctx.same('number', len(m.z), len(m0.z) + sum(n[1:]))
    ctx.close('thickness', np.sum(m.dz), z[-1] - z[0], rtol=1e-12)
    k = 0
    for i in range(len(z) - 1):
        j = n[i + 1] + 1
        ctx.close('equal-parts', m.dz[k:k + j], np.ones(j) * (
            z[i + 1] - z[i]) / j, atol=1e-9)
        ctx.close('support', [m.z[k], m.vp[k], m.vs[k]],
                  [z[i], vp[i], vs[i]], atol=1e-12)
        if z[i + 1] > z[i]:
            for a, b in ((m.vp, vp), (m.vs, vs)):
                ctx.close('interpolated', a[k:k + j], np.interp(
                    m.z[k:k + j], [z[i], z[i + 1]], [b[i], b[i + 1]]),
                    atol=1e-9)
        k += j
    ctx.raises('lengths', SimpleModel, z, vp[:-1], vs)


@case('moho', 20, 2000)
def case_moho(ctx):
    """closed form of delay times in a crust over half space"""
    from rf.simple_model import SimpleModel
    H, a, k = ctx.u(10, 70), ctx.u(5.5, 7), ctx.u(1.6, 1.95)
    b = a / k
    p = ctx.u(4, 8.8)
    ctx.desc = {'H': H, 'a': a, 'k': k, 'p': p}
    m = SimpleModel([0, H, 200.], [a, 8., 8.], [b, 4.5, 4.5])
    ps = p / 111.2
    qa, qb = np.sqrt(a ** -2 - ps ** 2), np.sqrt(b ** -2 - ps ** 2)
    for phase, want in (('Ps', H * (qb - qa)), ('Ppps', H * (qb + qa)),
                        ('Ppss', 2 * H * qb), ('Psss', H * (3 * qb - qa)),
                        ('Pppp', 2 * H * qa), ('Sp', H * (qa - qb)),
                        ('Sspp', 2 * H * qa), ('Sssp', H * (qa + qb))):
        t = m.calculate_delay_times(p, phase)
        ctx.close('closed-form', t[1], want, atol=1e-9, msg=phase)
