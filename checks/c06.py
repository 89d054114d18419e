"""Field arithmetic: every expression of +, -, unary - and scaling up to a depth over pools of fields, against pointwise arithmetic."""
import itertools
import numpy as np
import vlib, problems as pr

PROPERTY = 'C06'
RULE = ('State: an expression (tree) evaluated on real field objects, identified by the operators and leaves; non-trivial: at least one operator. '
        'Depth 1 and 2 are complete over the pool, deeper levels keep one object for each combination of coefficients and operand class.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, so
    import os
    os.environ['TRACEON_THREADS'] = '1'
    so = vlib.build_backend()
    t = vlib.import_traceon(so)
    vlib.silence(t)


PROBES = {'radial': [(0.1, 0., 0.2), (0.05, -0.2, 0.7), (0., 0., -0.5), (-0.4, 0.3, 1.1)],
          '3d': [(0.3, 0.2, 0.8), (2., -1., 0.5), (0.4, 0.5, 3.)],
          'axial': [(0., 0., 0.2), (0.05, -0.02, 0.7), (0., 0.01, -0.45), (0., 0., 5.)]}


def pool(family):
    E, Sym, solve = t.excitation, t.excitation.Symmetry, t.solver.solve_direct
    if family == '3d':
        m1, m2 = pr.tri_mesh(t, pr.triangles_3d(4)), pr.tri_mesh(t, [(n, np.array(p) * 1.3 + 0.1) for n, p in pr.triangles_3d(3)])

        m4, m5 = (pr.tri_mesh(t, [(n, np.array(p) + d) for n, p in pr.triangles_3d(4)]) for d in (0.5, 1e-4))

        def mk(m, f):
            e = E.Excitation(m, Sym.THREE_D)
            f(e)
            return solve(e)

        def mixed(e):
            e.add_voltage(a=7.)
            e.add_magnetostatic_potential(b=-3.)
        return {'E1': mk(m1, lambda e: e.add_voltage(a=10., b=-3.)), 'E2': mk(m1, lambda e: e.add_voltage(a=-4, b=25.)),
                'E3': mk(m2, lambda e: e.add_voltage(a=3.)), 'M': mk(m1, lambda e: e.add_magnetostatic_potential(a=2., b=5.)), 'X': mk(m2, mixed),
                'E4': mk(m4, lambda e: e.add_voltage(a=6., b=-5.)), 'E5': mk(m5, lambda e: e.add_voltage(a=6., b=-5.))}
    m1 = pr.line_mesh(t, pr.radial_segments(4), tris=pr.COIL)
    m2 = pr.line_mesh(t, [(n, tuple(np.array(a) * 1.2 + 0.05), tuple(np.array(b) * 1.2 + 0.05)) for n, a, b in pr.radial_segments(3)])
    m4, m5 = (pr.line_mesh(t, [(n, (a[0], a[1] + d), (b[0], b[1] + d)) for n, a, b in pr.radial_segments(4)],
                           tris=[(n, [(r, z + d) for r, z in p]) for n, p in pr.COIL]) for d in (0.5, 1e-4))

    def mk(m, f):
        e = E.Excitation(m, Sym.RADIAL)
        f(e)
        return solve(e)

    def mag(e):
        e.add_current(coil=5., coil2=-2.)
        e.add_magnetizable(a=10.)

    def mixed(e):
        e.add_voltage(b=7.)
        e.add_current(coil=2.)
        e.add_magnetostatic_potential(a=-3.)
    d = {'E1': mk(m1, lambda e: e.add_voltage(a=10., b=-3.)), 'E2': mk(m1, lambda e: (e.add_voltage(a=-4, b=25.), e.add_dielectric(c=2.))),
         'E3': mk(m2, lambda e: e.add_voltage(a=3.)), 'M': mk(m1, mag), 'X': mk(m1, mixed),
         'E4': mk(m4, lambda e: e.add_voltage(a=6., b=-5.)), 'E5': mk(m5, lambda e: (e.add_voltage(a=6., b=-5.), e.add_current(coil=1.)))}
    if family == 'radial':
        d['C'] = mk(m1, lambda e: e.add_current(coil2=3.))
        d['C4'] = mk(m4, lambda e: e.add_current(coil2=3.))
        return d
    return {k: t.interpolation.FieldRadialAxial(f, -0.6, 1.4, N=7) for k, f in d.items()}


def observe(f, probes):
    out = []
    for p in probes:
        p = np.array(p)
        out += [f.electrostatic_potential_at_point(p), *f.electrostatic_field_at_point(p), f.magnetostatic_potential_at_point(p), *f.magnetostatic_field_at_point(p)]
    return np.array(out, float)


SCALARS = [2, -0.5, 0, np.float64(1.5)]


def cases(tier, seed):
    out = []
    for family in ('radial', '3d', 'axial'):
        names = ['E1', 'E2', 'E3', 'E4', 'E5', 'M', 'X'] + (['C', 'C4'] if family == 'radial' else [])
        for a in names:
            out.append(dict(kind='trees', family=family, first=a, depth=3 if tier == 'thorough' else 2))
        out.append(dict(kind='deep', family=family, depth=4 if tier == 'thorough' else 3, cap=4000 if tier == 'thorough' else 400))
        out.append(dict(kind='trace', family=family))
        out.append(dict(kind='reject', family=family))
    return out


def unary():
    yield '-', lambda f: -f, lambda c: -c
    for s in SCALARS:
        yield f'{s!r}*', lambda f, s=s: s * f, lambda c, s=s: s * c
        yield f'*{s!r}', lambda f, s=s: f * s, lambda c, s=s: s * c


BINARY = [('+', lambda f, g: f + g, lambda a, b: a + b), ('-', lambda f, g: f - g, lambda a, b: a - b)]


def close(a, b, scale):
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * scale)


class Space:
    def __init__(self, family, rec):
        self.family, self.rec = family, rec
        self.pool = pool(family)
        self.names = sorted(self.pool)
        self.probes = PROBES[family]
        self.obs = np.array([observe(self.pool[n], self.probes) for n in self.names])
        self.scale = np.max(np.abs(self.obs)) + np.zeros(self.obs.shape[1])
        self.leaves = [(n, self.pool[n], np.eye(len(self.names))[i]) for i, n in enumerate(self.names)]

    def judge(self, expr, make, coef):
        """Evaluate on the real objects and compare with the model; returns the object."""
        rec = self.rec
        rec.step()
        f = rec.call(f'C06/{self.family}/operator', make)
        rec.state((self.family, expr))
        try:
            got = observe(f, self.probes)
        except Exception as e:
            rec.violation(f'C06/{self.family}/unusable', f'{expr}: the result {type(f).__name__} cannot be evaluated: {type(e).__name__} {e}')
            return None
        want = coef @ self.obs
        rec.check(close(got, want, self.scale * max(1., np.sum(np.abs(coef)))), f'C06/{self.family}/pointwise',
                  lambda: f'{expr}: got {got[:8]}, pointwise {want[:8]} (electric potential, field, magnetic potential, field at {self.probes[0]})')
        return f

    def unchanged(self):
        for i, n in enumerate(self.names):
            self.rec.check(np.array_equal(observe(self.pool[n], self.probes), self.obs[i]), f'C06/{self.family}/operand-changed', f'operand {n} changed')


def run(case, rec):
    if case['kind'] == 'reject':
        return run_reject(case, rec)
    if case['kind'] == 'trace':
        return run_trace(case, rec)
    s = Space(case['family'], rec)
    if case['kind'] == 'trees':
        # every tree that starts with the leaf `first` and has up to `depth` operators, the other operands being leaves
        level = [l for l in s.leaves if l[0] == case['first']]
        for depth in range(case['depth']):
            new = []
            for expr, f, c in level:
                for name, op, mop in unary():
                    g = s.judge(f'({name} {expr})', lambda: op(f), mop(c))
                    if g is not None:
                        new.append((f'({name} {expr})', g, mop(c)))
                for ln, lf, lc in s.leaves:
                    for name, op, mop in BINARY:
                        for e, o, m in ((f'({expr}{name}{ln})', lambda: op(f, lf), mop(c, lc)), (f'({ln}{name}{expr})', lambda: op(lf, f), mop(lc, c))):
                            g = s.judge(e, o, m)
                            if g is not None:
                                new.append((e, g, m))
            level = new
            s.unchanged()
            if depth == 1 and case['depth'] == 3:    # one representative for each combination of coefficients
                level = list({tuple(np.round(c, 6)): (e, f, c) for e, f, c in level}.values())
        rec.trace(len(level))
        rec.outcome(len(level))
        return
    # deep: both operands compound, states merged by coefficients
    seen = {tuple(c): (e, f, c) for e, f, c in s.leaves}
    level = list(seen.values())
    for depth in range(case['depth']):
        new = []
        every = list(seen.values())
        for (e1, f1, c1), (e2, f2, c2) in itertools.product(level, every):
            for name, op, mop in BINARY:
                c = mop(c1, c2)
                k = tuple(np.round(c, 9) + 0.)
                if k in seen or len(new) >= case['cap']:
                    continue
                g = s.judge(f'({e1}{name}{e2})', lambda: op(f1, f2), c)
                if g is not None:
                    seen[k] = (f'({e1}{name}{e2})', g, c)
                    new.append(seen[k])
        level = new
        for e, f, c in new[::7]:
            for name, op, mop in unary():
                s.judge(f'({name} {e})', lambda: op(f), mop(c))
        rec.trace(len(new))
        s.unchanged()
    # in place forms
    for (e1, f1, c1), (e2, f2, c2) in itertools.product(s.leaves, s.leaves):
        def aug(kind):
            x = f1
            if kind == '+=':
                x += f2
            elif kind == '-=':
                x -= f2
            else:
                x *= 3
            return x
        for kind, c in (('+=', c1 + c2), ('-=', c1 - c2), ('*=', 3 * c1)):
            s.judge(f'({e1}{kind}{e2})', lambda: aug(kind), c)
    s.unchanged()


def run_trace(case, rec):
    """The combined field that is traced is the one that is reported: trajectories of two expressions for the same field agree, and those of
    different fields do not."""
    s = Space(case['family'], rec)
    p = s.pool
    bounds = [(-0.6, 0.6), (-0.6, 0.6), (-0.55, 1.3)] if case['family'] != '3d' else [(0., 1.), (0., 1.), (0.5, 3.)]
    start = np.array([0.01, 0.02, 1.]) if case['family'] != '3d' else np.array([0.3, 0.2, 1.])
    vel = t.tracing.velocity_vec(200., [0.1, 0.02, -1.])

    def go(f):
        rec.step()
        T, P = rec.call('C06/trace', lambda: f.get_tracer(bounds)(start, vel))
        return P[-2]
    base = {n: go(p[n]) for n in s.names}
    for n in s.names:
        f = p[n]
        for e, g in ((f'0.5*{n}+{n}*0.5', lambda: 0.5 * f + f * 0.5), (f'-(-{n})', lambda: -(-f)), (f'3*{n}-2*{n}', lambda: 3 * f - 2 * f)):
            rec.state((case['family'], 'trace', e))
            rec.check(np.allclose(go(g()), base[n], rtol=1e-6, atol=1e-6), 'C06/trace/differs', lambda: f'{e}: trajectory ends at {go(g())}, that of {n} at {base[n]}')
        zero = go(f - f)
        rec.check(np.allclose(zero[:2] - start[:2], (zero[2] - start[2]) * np.array([-0.1, -0.02]), atol=1e-7), 'C06/trace/zero', lambda: f'{n}-{n}: {zero}')
    for a, b in itertools.combinations(s.names, 2):
        x, y = go(p[a] + p[b]), go(p[b] + p[a])
        rec.state((case['family'], 'trace', a, b))
        rec.check(np.allclose(x, y, rtol=1e-6, atol=1e-6), 'C06/trace/commute', lambda: f'{a}+{b}: {x}, {b}+{a}: {y}')
        y = go((p[a] + p[b]) - p[b])
        rec.check(np.allclose(base[a], y, rtol=1e-5, atol=1e-5), 'C06/trace/differs', lambda: f'{a}+{b}-{b}: {y}, {a}: {base[a]}')
    rec.trace()
    s.unchanged()


def run_reject(case, rec):
    s = Space(case['family'], rec)
    others = {f: pool(f) for f in ('radial', '3d', 'axial') if f != case['family']}
    for n, f in s.pool.items():
        bad = {'f+1': lambda: f + 1, '1+f': lambda: 1 + f, 'f-2.': lambda: f - 2., '2-f': lambda: 2 - f, 'f*f': lambda: f * f, 'f*str': lambda: f * 'a',
               'f*None': lambda: f * None, 'None+f': lambda: None + f, 'f+str': lambda: f + 'a'}
        for fam, p in others.items():
            for m, g in p.items():
                bad[f'f+{fam}:{m}'] = lambda g=g: f + g
                bad[f'f-{fam}:{m}'] = lambda g=g: f - g
                bad[f'f*{fam}:{m}'] = lambda g=g: f * g
        for what, fun in bad.items():
            rec.step()
            rec.state((case['family'], n, what))
            rec.raises(f'C06/{case["family"]}/meaningless', fun)
        try:
            r = f / 2
        except TypeError:
            r = None
        if r is not None:
            rec.check(np.allclose(observe(r, s.probes), s.obs[s.names.index(n)] / 2), 'C06/division', 'f/2')
        try:
            r = sum([f, f])
        except TypeError:
            r = None
        if r is not None:
            rec.check(np.allclose(observe(r, s.probes), s.obs[s.names.index(n)] * 2), 'C06/sum', 'sum([f, f])')
    if case['family'] == 'axial':
        f = pool('radial')['E1']
        Ax = t.interpolation.FieldRadialAxial
        a = Ax(f, -1, 1, N=7)
        for g in (Ax(f, -1, 1, N=8), Ax(f, -1, 1.001, N=7)):
            rec.raises('C06/axial/other-sampling', lambda: a + g)
            rec.raises('C06/axial/other-sampling', lambda: a - g)
    s.unchanged()
    rec.trace()
