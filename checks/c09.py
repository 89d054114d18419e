"""Traced trajectories: every start position/direction of a lattice around the bounds for every tracer class, and every number of samples next to the internal storage
boundaries, with well-formedness checked on every sample and prefix agreement between runs that differ in bounds only."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C09'
RULE = ('State: (tracer, bounds, start, velocity). Every sample of every trajectory is checked. Non-trivial: trajectories with more than one sample.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


KINDS = ['empty', 'empty3', 'elec', 'mag', 'coil', 'mixed', 'elec3', 'mag3', 'mixed3', 'axial-elec', 'axial-mag', 'axial-mixed', '3daxial', 'python']
_made = {}


class Obj:
    pass


def make(kind):
    """bounds -> tracer, called with (position, velocity, atol)."""
    if kind in _made:
        return _made[kind]
    S, E, T = t.solver, t.excitation, t.tracing
    SEG = [('a', (0.5, -0.2), (0.5, 0.2)), ('b', (0.5, 0.5), (0.9, 0.5))]
    TRI = [('a', ((0.5, 0, 0), (0.5, 0.5, 0), (0.8, 0, 0.5))), ('b', ((-0.6, 0, 0.3), (-0.6, -0.5, 0), (-0.8, 0, 0.5)))]
    if kind == 'empty':
        f = S.FieldRadialBEM()
    elif kind == 'empty3':
        f = S.Field3D_BEM()
    elif kind in ('elec', 'mag', 'coil', 'mixed'):
        e = E.Excitation(pr.line_mesh(t, SEG, tris=pr.COIL if kind in ('coil', 'mixed') else None), E.Symmetry.RADIAL)
        if kind in ('elec', 'mixed'):
            e.add_voltage(a=5., b=-3.)
        if kind == 'mag':
            e.add_magnetostatic_potential(a=500., b=-300.)
        if kind in ('coil', 'mixed'):
            e.add_current(coil=3000., coil2=-2000.)
        f = S.solve_direct(e)
    elif kind in ('elec3', 'mag3', 'mixed3'):
        e = E.Excitation(pr.tri_mesh(t, TRI), E.Symmetry.THREE_D)
        if kind in ('elec3', 'mixed3'):
            e.add_voltage(a=5., **({'b': -3.} if kind == 'elec3' else {}))
        if kind in ('mag3', 'mixed3'):
            e.add_magnetostatic_potential(b=-300., **({'a': 500.} if kind == 'mag3' else {}))
        f = S.solve_direct(e)
    elif kind.startswith('axial'):
        make(kind[6:])
        f = t.interpolation.FieldRadialAxial(_made['field-' + kind[6:]], -0.3, 0.4, 30)
    elif kind == '3daxial':
        if not hasattr(T, 'Tracer3DAxial') or not hasattr(t.backend, 'axial_coefficients_3d'):
            return None
        from scipy.interpolate import CubicSpline
        make('elec3')
        g = _made['field-elec3']
        f = Obj()
        f.z = np.linspace(-0.3, 0.4, 30)
        q = g.electrostatic_point_charges
        c = CubicSpline(f.z, t.backend.axial_coefficients_3d(q.charges, q.jacobians, q.positions, f.z)).c
        f.electrostatic_coeffs = np.ascontiguousarray(np.moveaxis(c, 0, -1))
        f.magnetostatic_coeffs = np.zeros_like(f.electrostatic_coeffs)
        _made[kind] = lambda b: T.Tracer3DAxial(f, b)
        return _made[kind]
    elif kind == 'python':
        if not hasattr(t.backend, 'trace_particle'):
            return None
        acc = lambda x, y, z, vx, vy, vz: np.array([3. * x, -2. * y + vz * 1e-7, 5. + vx * 1e-7])

        def tracer(b):
            def run(x, v, atol=1e-10):
                v = np.asarray(v, float)
                n = np.linalg.norm(v)
                return t.backend.trace_particle(x, np.sqrt(-2 * n * ref.EM) * v / n, acc, np.array(b, float), atol)
            return run
        _made[kind] = tracer
        return tracer
    _made['field-' + kind] = f
    _made[kind] = f.get_tracer
    return _made[kind]


def si(v):
    v = np.asarray(v, float)
    n = np.linalg.norm(v)
    return np.sqrt(2 * n * ref.E_CHARGE / ref.M_E) * v / n


def well_formed(rec, res, x0, v0, bounds, where, atol=1e-10):
    b = np.array(bounds, float)
    ok = isinstance(res, tuple) and len(res) == 2
    if not rec.check(ok, 'C09/result', lambda: f'{where}: result {type(res)}'):
        return None
    T, P = map(np.asarray, res)
    N = len(T)
    if not rec.check(T.shape == (N,) and P.shape == (N, 6) and N >= 1, 'C09/shape', lambda: f'{where}: times {T.shape}, positions {P.shape}'):
        return None
    rec.check(np.all(np.isfinite(P)) and np.all(np.isfinite(T)), 'C09/finite', lambda: f'{where}: not all samples are finite')
    rec.check(np.array_equal(P[0, :3], np.asarray(x0, float)), 'C09/start-position', lambda: f'{where}: starts at {P[0, :3]}')
    rec.check(np.allclose(P[0, 3:], si(v0), rtol=1e-7, atol=0), 'C09/start-velocity', lambda: f'{where}: starts with velocity {P[0, 3:]}, should be {si(v0)}')
    rec.check(T[0] == 0., 'C09/start-time', lambda: f'{where}: first time {T[0]}')
    dt = np.diff(T)
    rec.check(np.all(dt > 0), 'C09/times', lambda: f'{where}: times do not increase at sample {np.flatnonzero(dt <= 0)[:3] + 1} of {N}: {T[max(0, np.flatnonzero(dt <= 0)[0] - 1):][:4]}')
    inside = np.all((b[:, 0] <= P[:, :3]) & (P[:, :3] <= b[:, 1]), axis=1)
    rec.check(np.all(inside[:-1]), 'C09/inside', lambda: f'{where}: sample {np.flatnonzero(~inside[:-1])[:3]} of {N} lies outside of the bounds')
    rec.check(not inside[-1], 'C09/last', lambda: f'{where}: last sample {P[-1, :3]} (of {N}) lies inside of the bounds')
    if N > 1:
        # every step follows from the velocities at its ends
        dx = np.diff(P[:, :3], axis=0)
        mean = (P[1:, 3:] + P[:-1, 3:]) / 2 * dt[:, None]
        allowed = 0.5 * dt * np.linalg.norm(np.diff(P[:, 3:], axis=0), axis=1) + 5 * atol + 1e-9
        bad = np.linalg.norm(dx - mean, axis=1) > allowed
        rec.check(not np.any(bad), 'C09/step', lambda: f'{where}: between sample {np.flatnonzero(bad)[0]} and the next (of {N}) the position changes by {dx[np.flatnonzero(bad)[0]]}, the velocity accounts for {mean[np.flatnonzero(bad)[0]]}')
    rec.step()
    rec.outcome((N, tuple(np.round(P[-1, :3], 5))))
    return T, P


BOUNDS = {'box': ((-0.02, 0.03), (-0.025, 0.02), (0.05, 0.11)), 'ints': ((-1, 1), (-1, 1), (-1, 1)), 'flat': ((-0.03, 0.03), (0., 0.), (-0.02, 0.04)), 'half': ((0., np.inf), (-0.02, 0.02), (-np.inf, 0.02))}
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(0.3, -0.2, 1.), (-0.05, 0.02, -1.), (2., 1., 0.1)]
ENERGIES = [0.01, 1., 1000., 30000.]


def starts(b, tier):
    out = []
    for lo, hi in b:
        lo_, hi_ = (lo if np.isfinite(lo) else -0.05), (hi if np.isfinite(hi) else 0.05)
        m = 0.37 * lo_ + 0.63 * hi_
        out.append([np.nextafter(lo_, -9), lo_, m, hi_, np.nextafter(hi_, 9)] if lo_ != hi_ else [lo_, np.nextafter(lo_, 9)])
    pts = list(itertools.product(*out))
    if tier == 'quick':
        # at most one coordinate next to a bound on the outside, everything on faces, edges and corners
        pts = [p for p in pts if sum(x in (o[0], o[-1]) for x, o in zip(p, out) if len(o) > 2) <= 1]
    return pts


def cases(tier, seed):
    out = []
    for kind in KINDS:
        for name in BOUNDS:
            for part in range(2 if tier == 'quick' else 4):
                out.append(dict(what='launch', kind=kind, bounds=name, part=part, parts=2 if tier == 'quick' else 4, tier=tier))
        out.append(dict(what='arguments', kind=kind))
    for kind in ('empty', 'empty3', 'axial-mag', 'axial-mixed', '3daxial'):
        for part in range(3):
            out.append(dict(what='blocks', kind=kind, part=part, tier=tier))
    if tier != 'quick':
        out += [dict(what='blocks', kind=k, part=0, tier=tier) for k in ('elec', 'coil', 'elec3', 'mixed3')]
    return sorted(out, key=lambda c: c['what'] != 'blocks')


def run(case, rec):
    {'launch': launch, 'blocks': blocks, 'arguments': arguments}[case['what']](case, rec)
    rec.trace()


def launch(case, rec):
    mk = make(case['kind'])
    if mk is None:
        return
    b = BOUNDS[case['bounds']]
    slow = case['kind'] in ('python', 'mixed', 'coil', 'mixed3')
    big = case['bounds'] == 'ints'
    tracer = rec.call('C09/get-tracer', lambda: mk(b))
    n = -1
    for x0 in starts(b, case['tier']):
        for d in DIRS:
            for ei, energy in enumerate(ENERGIES):
                n += 1
                if n % case['parts'] != case['part']:
                    continue
                if case['bounds'] == 'flat' and d[1] != 0 or (big or slow) and case['tier'] == 'quick' and (n // case['parts']) % (40 if big else 8):
                    continue
                # slow electrons may stay inside for ever
                if energy < 1000 and case['bounds'] != 'box' and case['kind'] not in ('empty', 'empty3'):
                    continue
                if not ends(case, x0, d):
                    continue
                v = energy * np.array(d) / np.linalg.norm(d)
                where = f'{case["kind"]} bounds {b} from {list(map(float, x0))} with {v.tolist()} eV'
                if rec.state((case['kind'], case['bounds'], x0, d, energy)) is False:
                    continue
                res = rec.call('C09/trace', lambda: tracer(np.array(x0), v))
                well_formed(rec, res, x0, v, b, where)


def ends(case, x0, d):
    """Whether a straight path leaves the bounds."""
    for k, (lo, hi) in enumerate(BOUNDS[case['bounds']]):
        if d[k] > 0 and np.isfinite(hi) or d[k] < 0 and np.isfinite(lo):
            return True
    return False


BIG = 1e9


def blocks(case, rec):
    mk = make(case['kind'])
    if mk is None:
        return
    B = int(getattr(t.backend, 'TRACING_BLOCK_SIZE', 10**5))
    v = t.tracing.velocity_vec(1000., [0., 0., 1.])
    x0 = np.array([0.01, 0.02, -0.2])
    one = mk(((-BIG, BIG), (-BIG, BIG), (-BIG, x0[2] + 3.)))(x0, v)
    heavy = case['kind'] in ('elec', 'coil', 'elec3', 'mixed3')
    lengths = [[B + k for k in (-3, -2, -1, 0, 1, 2, 3)], [2 * B + k for k in (-4, -3, -2, -1, 0, 1, 2)], [B // 2, 3 * B - 1, 3 * B + 7]][case['part']]
    if case['tier'] != 'quick' and not heavy:
        lengths = lengths + [[4 * B - k for k in range(1, 8)], [5 * B - 4], [6 * B]][case['part']]
    if heavy:
        lengths = [B - 1, B, B + 1, 2 * B]
    total = max(lengths) + 50
    zmax = one[1][-1, 2] + 0.011 * total
    long = mk(((-BIG, BIG), (-BIG, BIG), (-BIG, zmax)))(x0, v)
    ref_run = None
    for n in sorted(lengths, reverse=True):
        # the bound lies half a step before the sample that ends a trajectory of n samples
        if n < len(long[0]):
            zmax = float(long[1][n - 2, 2] + long[1][n - 1, 2]) / 2
        b = ((-BIG, BIG), (-BIG, BIG), (-BIG, zmax))
        where = f'{case["kind"]}, about {n} samples'
        rec.state((case['kind'], n))
        res = rec.call('C09/trace', lambda: mk(b)(x0, v))
        w = well_formed(rec, res, x0, v, b, where)
        if w is None:
            continue
        T, P = w
        rec.check(len(T) == n, 'C09/length', lambda: f'{where}: {len(T)} samples')
        rec.check(np.array_equal(P, long[1][:n]), 'C09/prefix', lambda: f'{where}: differs from the start of a longer trajectory')
        dt = np.diff(T)
        # away from the field the steps are equal
        far = P[:-1, 2] > 3.
        d = dt[far]
        rec.check(np.max(d) < 1.5 * np.median(d) and np.min(d[:-1]) > 0.5 * np.median(d), 'C09/gap', lambda: f'{where}: steps of {np.min(d)} to {np.max(d)} where there is no field, at sample {np.argmax(np.abs(dt - np.median(d)) * far)}')
        i = np.flatnonzero(far)
        line = P[i[0], :3] + P[i[0], 3:] * (T[i] - T[i[0]])[:, None]
        rec.check(np.allclose(P[i, :3], line, rtol=1e-9, atol=1e-7), 'C09/straight', lambda: f'{where}: not a straight line where there is no field')
        rec.check(np.allclose(P[i, 3:], P[i[0], 3:], rtol=1e-9), 'C09/straight', lambda: f'{where}: velocity changes where there is no field')
        if ref_run is None:
            ref_run = T, P
        else:
            m = len(T)
            rec.check(np.array_equal(T, ref_run[0][:m]) and np.array_equal(P, ref_run[1][:m]), 'C09/prefix', lambda: f'{where}: differs from the first {m} samples of a longer trajectory at sample {np.flatnonzero(np.any(P != ref_run[1][:m], axis=1) | (T != ref_run[0][:m]))[:2]}')
    m = len(one[0])
    if ref_run is not None:
        rec.check(np.array_equal(one[1], ref_run[1][:m]) and np.array_equal(one[0], ref_run[0][:m]), 'C09/prefix', lambda: f'{case["kind"]}: short trajectory differs from the start of a long one')


def arguments(case, rec):
    mk = make(case['kind'])
    if mk is None:
        return
    kind = case['kind']
    lists = [[-1, 1], [-2, 2], [0, 1]]
    x0, v = np.array([0., 0., 0.]), np.array([1., -2., 50.])
    want = rec.call('C09/trace', lambda: mk(((-1., 1.), (-2., 2.), (0., 1.)))(x0, v))
    forms = {'lists': lists, 'int array': np.array(lists), 'tuples': tuple(map(tuple, lists)), 'float32': np.array(lists, np.float32), 'transposed': np.array([[-1., -2., 0.], [1., 2., 1.]]).T, 'transposed ints': np.array([[-1, -2, 0], [1, 2, 1]]).T,
             'slice': np.array([[-1., 9., 1.], [-2., 9., 2.], [0., 9., 1.]])[:, ::2]}
    for n, b in forms.items():
        if kind == 'python' and 'transposed' in n:
            continue
        keep = repr(b)
        res = rec.call('C09/bounds-form', lambda: mk(b)(x0, v))
        rec.state((kind, n))
        rec.check(all(np.array_equal(p, q) for p, q in zip(res, want)), 'C09/bounds-form', lambda: f'{kind}: bounds as {n} give another trajectory')
        rec.check(repr(b) == keep, 'C09/argument-changed', lambda: f'{kind}: bounds as {n} were changed')
    tr = mk(lists)
    for n, (x, w) in {'list position': ([0., 0., 0.], v), 'int list': ([0, 0, 0], v), 'tuple': ((0, 0., 0), v), 'int array': (np.array([0, 0, 0]), v), 'int velocity': (x0, np.array([1, -2, 50])), 'view': (np.zeros((3, 2))[:, 0], np.array([1., 0, -2, 0, 50, 0])[::2])}.items():
        keep = repr((x, w))
        res = rec.call('C09/argument-form', lambda: tr(x, w))
        rec.state((kind, n))
        rec.check(all(np.array_equal(p, q) for p, q in zip(res, want)), 'C09/argument-form', lambda: f'{kind}: {n} gives another trajectory')
        rec.check(repr((x, w)) == keep, 'C09/argument-changed', lambda: f'{kind}: {n} was changed')
    # results belong to the caller
    first = tr(x0, v)
    keep = [a.copy() for a in first]
    second = tr(np.array([0.1, 0., 0.5]), v)
    rec.check(all(np.array_equal(a, b) for a, b in zip(first, keep)), 'C09/aliasing', lambda: f'{kind}: a second trace changed the first trajectory')
    for atol in (1e-5, 1e-8, 1e-10, 1e-12):
        res = rec.call('C09/trace', lambda: tr(x0, v, atol) if atol != 1e-8 else tr(x0, v, atol=atol))
        rec.state((kind, atol))
        well_formed(rec, res, x0, v, lists, f'{kind} atol={atol}', atol)
    for x, w in (([0., 0.], v), (np.zeros((1, 3)), v), (x0, np.array([1., 2.])), (np.zeros(4), v), (1., v)):
        rec.raises('C09/reject', tr, x, w)
    if kind != 'python':
        for b in (((-1, 1), (-1, 1)), ((-1, 1, 2),) * 3, (1, 2, 3)):
            rec.raises('C09/reject-bounds', lambda: mk(b)(x0, v))
        if hasattr(t.tracing, 'Tracer'):
            rec.raises('C09/base', lambda: t.tracing.Tracer(None, lists)(x0, v))
