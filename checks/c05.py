"""Superposition: for every assignment of excitations to the groups of small geometries, the fields of solve_direct_superposition are the unit
fields, and recombine to the directly solved field."""
import itertools, os
import numpy as np
import vlib, problems as pr

PROPERTY = 'C05'
RULE = ('State: one assignment of an excitation (or none) to every group. Non-trivial: at least one non-zero fixed excitation. '
        'Every assignment of the alphabet is executed.')
CASE_TIMEOUT = 600

LINE = [None, ('V', 5), ('V', -3.), ('V', 0.), ('D', 3.), ('P', 2.), ('M', 10.)]
COILS = [None, ('I', 4.), ('I', 0.), ('I', -7)]


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


SEGS = [('a', (1., 0.), (1., 0.4)), ('b', (1.2, 0.6), (1.2, 1.)), ('c', (0.3, 1.3), (0.8, 1.3)), ('b', (0.7, -0.5), (1.1, -0.4)), ('d', (0.4, 2.), (0.9, 2.1))]
PROBES = [(0.1, 0., 0.2), (0.05, -0.2, 0.7), (0., 0., -0.5)]
PROBES3 = [(0.3, 0.2, 0.8), (2., -1., 0.5), (0.4, 0.5, 3.)]


def mesh(family):
    if family == 'radial':
        return pr.line_mesh(t, SEGS, tris=pr.COIL)
    if family == 'radial4':
        return pr.line_mesh(t, SEGS, higher=True, tris=pr.COIL)
    return pr.tri_mesh(t, [(n, p) for n, (_, p) in zip('abcabca', pr.triangles_3d(6))])


def groups(family):
    if family == '3d':
        return ['a', 'b', 'c'], []
    return (['a', 'b', 'c'] if family == 'radial' else ['a', 'b', 'c', 'd']), (['coil', 'coil2'] if family == 'radial' else ['coil2'])


def excite(m, family, ass):
    E = t.excitation
    e = E.Excitation(m, E.Symmetry.THREE_D if family == '3d' else E.Symmetry.RADIAL)
    for n, x in ass.items():
        if x is None:
            continue
        {'V': e.add_voltage, 'D': e.add_dielectric, 'P': e.add_magnetostatic_potential, 'M': e.add_magnetizable, 'I': e.add_current}[x[0]](**{n: x[1]})
    return e


def observe(f, probes):
    out = []
    for p in probes:
        p = np.array(p)
        out += [f.electrostatic_potential_at_point(p), *f.electrostatic_field_at_point(p), f.magnetostatic_potential_at_point(p), *f.magnetostatic_field_at_point(p)]
    return np.array(out, float)


def cases(tier, seed):
    out = []
    for a, b in itertools.product(range(len(LINE)), repeat=2):
        out.append(dict(family='radial', first=[a, b]))
        if b == 0:
            out.append(dict(family='3d', first=[a]))
        if tier == 'thorough':
            out.append(dict(family='radial4', first=[a, b]))
    out.append(dict(family='radial', first=None))
    out.append(dict(family='3d', first=None))
    return out


def run(case, rec):
    family = case['family']
    m = mesh(family)
    if case['first'] is None:
        return run_functions(m, family, rec)
    lines, coils = groups(family)
    rest = [LINE] * (len(lines) - len(case['first'])) + [COILS] * len(coils)
    for tail in itertools.product(*rest):
        ass = dict(zip(lines + coils, [LINE[i] for i in case['first']] + list(tail)))
        judge(m, family, ass, rec)


def solve(m, family, ass, rec, key):
    return observe(rec.call(key, lambda: t.solver.solve_direct(excite(m, family, ass))), PROBES3 if family == '3d' else PROBES)


FIXED = 'VPI'


def judge(m, family, ass, rec):
    fixed = {n: x[1] for n, x in ass.items() if x is not None and x[0] in FIXED}
    nonzero = {n: v for n, v in fixed.items() if v != 0}
    where = f'{family} {dict((n, x) for n, x in ass.items() if x is not None)}'
    if not fixed:
        return
    rec.state((family, tuple(sorted((n, x) for n, x in ass.items() if x))))
    exc = excite(m, family, ass)
    d = rec.call('C05/superposition', lambda: t.solver.solve_direct_superposition(exc))
    rec.step(2 + len(nonzero))
    if not rec.check(sorted(d) == sorted(nonzero), 'C05/keys', lambda: f'{where}: fields of {sorted(d)}, non-zero fixed excitations are {sorted(nonzero)}'):
        return
    probes = PROBES3 if family == '3d' else PROBES
    obs = {n: rec.call('C05/evaluate', lambda: observe(f, probes)) for n, f in d.items()}
    total = solve(m, family, ass, rec, 'C05/direct')
    scale = np.max(np.abs(total)) + max([np.max(np.abs(o)) for o in obs.values()], default=0.) + 1e-300
    got = sum((nonzero[n] * obs[n] for n in nonzero), np.zeros_like(total))
    rec.check(np.allclose(got, total, rtol=0, atol=1e-8 * scale), 'C05/recombine',
              lambda: f'{where}: superposition {got[:8]}, direct {total[:8]} (electric potential and field, magnetic potential and field at {probes[0]})')
    for n in nonzero:
        unit = {k: x if x is None or x[0] not in FIXED else (x[0], 1. if k == n else 0.) for k, x in ass.items()}
        want = solve(m, family, unit, rec, 'C05/unit')
        s = np.max(np.abs(want)) + 1e-300
        rec.check(np.allclose(obs[n], want, rtol=0, atol=1e-8 * s), 'C05/unit-field', lambda: f'{where}: field of {n} is {obs[n][:8]}, at unit excitation with all others zero {want[:8]}')
    # other applied values, through the arithmetic of the fields
    if nonzero:
        w = {n: (-1.5 if i % 2 else 4.) * (i + 1) for i, n in enumerate(sorted(nonzero))}
        other = {k: x if k not in w else (x[0], w[k]) for k, x in ass.items()}
        want = solve(m, family, other, rec, 'C05/direct')
        fields = [w[n] * d[n] for n in sorted(w)]
        f = fields[0]
        for g in fields[1:]:
            f = f + g
        got = rec.call('C05/evaluate', lambda: observe(f, probes))
        s = np.max(np.abs(want)) + max(np.max(np.abs(o)) for o in obs.values())
        rec.check(np.allclose(got, want, rtol=0, atol=1e-7 * s), 'C05/recombine', lambda: f'{where}: weights {w}: superposition {got[:8]}, direct {want[:8]}')
    rec.outcome((len(nonzero), tuple(sorted({x[0] for x in ass.values() if x}))))
    rec.trace()


def run_functions(m, family, rec):
    """Voltage functions have no unit field: they are rejected."""
    E = t.excitation
    for n, k in itertools.permutations(groups(family)[0], 2):
        e = excite(m, family, {n: ('V', 5.)})
        e.add_voltage(**{k: lambda x, y, z: 1. + x})
        rec.state((family, 'fun', n, k))
        rec.step()
        rec.raises('C05/voltage-function', lambda: t.solver.solve_direct_superposition(e))
    rec.trace()
