"""Initial velocity vectors have the requested energy and direction: the full product of energies, lattice directions, lengths and kinds of arguments; spherical
and planar angles on a lattice that covers every octant; malformed arguments; the first sample of a traced trajectory."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C24'
RULE = 'State: (energy, direction, length of the direction, kind of argument) or (energy, angles). Every product of the alphabet is executed; non-trivial: every one.'
CASE_TIMEOUT = 300


def setup(tier, seed):
    global t, T, DEEP
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    T = t.tracing
    DEEP = tier != 'quick'


ENERGIES = [1e-12, 0.5, 1, 25., 1000, np.float64(39999.), np.int64(300), np.float32(2.5), 40001., 1e6, 1e200]
LENGTHS = [1., 1e-3, 7., 1e5, 1e-8, 1e-160, 1e-300, 5e-324, 1e160, 1e300]
AXIS = (-2, -1, 0, 1, 3)
KINDS = {'list': list, 'tuple': tuple, 'array': np.array, 'column': lambda d: np.array([d, d]).T[:, 0], 'reversed': lambda d: np.array(d[::-1])[::-1], 'fixed': lambda d: frozen(np.array(d)), 'floats': lambda d: [float(x) for x in d]}


def frozen(a):
    a.flags.writeable = False
    return a


def cases(tier, seed):
    out = [{'kind': 'vector', 'e': i} for i in range(len(ENERGIES))]
    out += [{'kind': 'integer', 'e': i} for i in range(len(ENERGIES))]
    out += [{'kind': 'spherical', 'e': i} for i in range(len(ENERGIES))]
    out += [{'kind': 'plane', 'e': i} for i in range(len(ENERGIES))]
    out += [{'kind': 'malformed'}]
    out += [{'kind': 'trajectory', 'field': f} for f in ('radial', '3d', 'axial', 'axial3')]
    return out


def run(case, rec):
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)
    rec.trace()


def judge(key, v, eV, d, what, rec):
    d = np.array(d, float)
    d = d / np.max(np.abs(d))
    d /= np.linalg.norm(d)
    ok = isinstance(v, np.ndarray) and v.shape == (3,)
    return rec.check(ok and np.all(np.abs(v - float(eV) * d) <= 4e-15 * float(eV)), key, lambda: f'{what()} = {v!r}, expected {float(eV) * d}')


def run_vector(e, rec):
    eV = ENERGIES[e]
    for d in itertools.product(AXIS, repeat=3):
        if not any(d):
            continue
        for s, (kn, kind) in itertools.product(LENGTHS, KINDS.items()):
            a = kind([x * s for x in d])
            before = np.array(a, copy=True)
            rec.state((e, d, s, kn))
            if s == 5e-324:
                dd = np.sign(d) * np.abs(d)
            else:
                dd = d
            v = rec.call('C24/vector', lambda: T.velocity_vec(eV, a))
            rec.step()
            judge('C24/vector', v, eV, dd, lambda: f'velocity_vec({eV!r}, {a!r})', rec)
            rec.check(np.array_equal(before, np.array(a)), 'C24/argument', lambda: f'velocity_vec({eV!r}, ...) changed its argument {before} to {a}')
            if isinstance(v, np.ndarray) and isinstance(a, np.ndarray):
                rec.check(not np.shares_memory(v, a), 'C24/argument', lambda: f'the result of velocity_vec({eV!r}, {a!r}) is the argument')
        rec.outcome((e, d))


def run_integer(e, rec):
    eV = ENERGIES[e]
    for d in itertools.product((-1, 0, 2, 3 * 10**9), repeat=3):
        if not any(d):
            continue
        for a in (list(d), np.array(d), np.array(d, dtype=np.float32), np.array([[x, 0] for x in d])[:, 0]):
            rec.state((e, d, str(getattr(a, 'dtype', 'list'))))
            before = np.array(a, copy=True)
            judge('C24/vector', rec.call('C24/vector', lambda: T.velocity_vec(eV, a)), eV, before, lambda: f'velocity_vec({eV!r}, {a!r})', rec)
            rec.check(np.array_equal(before, np.array(a)), 'C24/argument', lambda: f'velocity_vec({eV!r}, ...) changed its argument')
            rec.step()
        rec.outcome((e, d))


def angles():
    n = 24 if not DEEP else 96
    return [2 * np.pi * i / n for i in range(-n, n + 1)] + [1e-9, -1e-9, 1e-3, np.pi - 1e-9, 100., -77.7, 0, 1, -3]


def run_spherical(e, rec):
    eV = ENERGIES[e]
    for th, ph in itertools.product(angles(), repeat=2):
        rec.state((e, th, ph))
        v = rec.call('C24/spherical', lambda: T.velocity_vec_spherical(eV, th, ph))
        rec.step()
        judge('C24/spherical', v, eV, [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], lambda: f'velocity_vec_spherical({eV!r}, {th!r}, {ph!r})', rec)
    rec.outcome(e)


def run_plane(e, rec):
    eV = ENERGIES[e]
    for al in angles():
        rec.state((e, al))
        for kw, s in (({}, -1), ({'downward': True}, -1), ({'downward': False}, 1), ({'downward': np.bool_(True)}, -1), ({'downward': np.bool_(False)}, 1), ({'downward': np.float64(al) > -np.inf}, -1)):
            v = rec.call('C24/plane', lambda: T.velocity_vec_xz_plane(eV, al, **kw))
            rec.step()
            judge('C24/plane', v, eV, [np.sin(al), 0., s * np.cos(al)], lambda: f'velocity_vec_xz_plane({eV!r}, {al!r}, {kw})', rec)
        for down, s in ((True, -1), (False, 1)):
            v = rec.call('C24/plane', lambda: T.velocity_vec_xz_plane(eV, al, down))
            judge('C24/plane', v, eV, [np.sin(al), 0., s * np.cos(al)], lambda: f'velocity_vec_xz_plane({eV!r}, {al!r}, {down})', rec)
    rec.outcome(e)


def run_malformed(rec):
    nan, inf = float('nan'), float('inf')
    for eV in (0, 0., -0., -1, -1e-300, -inf, nan, inf):
        for what, f in (('velocity_vec', lambda: T.velocity_vec(eV, [0., 0, 1])), ('velocity_vec_spherical', lambda: T.velocity_vec_spherical(eV, .3, .2)), ('velocity_vec_xz_plane', lambda: T.velocity_vec_xz_plane(eV, .3)),
                        ('velocity_vec_xz_plane', lambda: T.velocity_vec_xz_plane(eV, .3, downward=False))):
            rec.state(('energy', eV, what))
            rec.step()
            rec.raises('C24/energy', f)
    for d in ([0, 0, 0], [0., -0., 0.], np.zeros(3), [1., 0.], [1., 0, 0, 0], 1., [[1., 0, 0]], [[1.], [0.], [0.]], [], [nan, 0, 1], [0, 0, inf], [-inf, 1, 0], [nan] * 3, np.zeros((3, 3)), np.eye(3), np.ones((3, 1))):
        rec.state(('direction', str(d)))
        rec.step()
        rec.raises('C24/direction', lambda: T.velocity_vec(10., d))
    for a, b in ((nan, 0.), (0., nan), (inf, 0.), (1., inf)):
        rec.state(('angle', a, b))
        rec.step()
        rec.raises('C24/angle', lambda: T.velocity_vec_spherical(10., a, b))
    for a in (nan, inf, -inf):
        rec.state(('angle', a))
        rec.step()
        rec.raises('C24/angle', lambda: T.velocity_vec_xz_plane(10., a))
    rec.outcome('malformed')


def make(kind):
    E = t.excitation
    if kind == '3d' or kind == 'axial3':
        e = E.Excitation(pr.tri_mesh(t, [(n, p) for n, (_, p) in zip('ababab', pr.triangles_3d(6))]), E.Symmetry.THREE_D)
    else:
        e = E.Excitation(pr.line_mesh(t, pr.radial_segments(3)), E.Symmetry.RADIAL)
    e.add_voltage(a=1., b=-1.)
    f = t.solver.solve_direct(e)
    if kind.startswith('axial'):
        return (t.interpolation.FieldRadialAxial(f, -1., 1., N=20) if kind == 'axial' else f)
    return f


def run_trajectory(field, rec):
    f = make(field)
    for d, eV, x in itertools.product(itertools.product((-1, 0, 1.5), repeat=3), (0.5, 30, 2000.), ((0., 0., 0.), (.1, -.2, .3))):
        if not any(d):
            continue
        v = T.velocity_vec(eV, d)
        x = np.array(x)
        keep = v.copy(), x.copy()
        tr = f.get_tracer(((-.5, .5), (-.5, .5), (-.5, .5)))
        rec.state((field, d, eV, tuple(x)))
        times, pos = rec.call('C24/trajectory', lambda: tr(x, v))
        rec.step()
        speed = np.sqrt(2 * eV * ref.E_CHARGE / ref.M_E)
        want = np.concatenate([x, speed * np.array(d) / np.linalg.norm(d)])
        rec.check(times[0] == 0 and np.all(np.abs(pos[0] - want) <= 1e-8 * np.array([1, 1, 1, speed, speed, speed])), 'C24/trajectory', lambda: f'trajectory in a field ({field}) from {x} with {eV} eV along {d} starts with {pos[0]}, expected {want}')
        rec.check(np.array_equal(v, keep[0]) and np.array_equal(x, keep[1]), 'C24/argument', lambda: 'tracing changed the initial position or velocity')
    rec.outcome(field)
