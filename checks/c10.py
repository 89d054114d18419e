"""Motion of electrons: every field kind and representation times a lattice of launches, against an independent high-order integration of the force
from the field that the same object reports, energy conservation, and the effect of the tolerance."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C10'
RULE = 'State: (field kind, start, direction, energy). Compared at five places of every trajectory. Non-trivial: trajectories that the field bends.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


SEGS = [('a', (0.6, -1.), (0.6, -0.2)), ('b', (0.7, 0.2), (0.6, 1.)), ('c', (0.5, 1.3), (1.2, 1.5))]
TRIS = [('a', ((0.7, 0, 0), (0.9, 0.6, 0), (0.8, 0, 0.6))), ('b', ((-0.6, 0.4, 0.3), (-0.6, -0.5, 0), (-0.8, 0, 0.5))), ('c', ((0.1, 0.8, -0.5), (0.5, 0.7, 0.4), (-0.5, 0.7, 0.1)))]
COIL = [('coil', ((0.8, -.1), (1., -.1), (0.8, 0.2))), ('coil2', ((0.7, 0.6), (0.9, 0.6), (0.7, 0.8)))]
BASE = ['elec', 'mag', 'coil', 'coilmag', 'mixed']
KINDS = BASE + ['elec3', 'mag3', 'mixed3'] + ['axial-' + k for k in BASE] + ['sum', 'sum3', 'axial-sum', '3daxial', 'python']
_made = {}
BOX = ((-0.35, 0.35), (-0.35, 0.35), (-1.2, 1.2))


class Obj:
    pass


def make(kind):
    if kind in _made:
        return _made[kind]
    S, E, T = t.solver, t.excitation, t.tracing
    if kind in BASE:
        e = E.Excitation(pr.line_mesh(t, SEGS, tris=COIL if kind in ('coil', 'coilmag', 'mixed') else None), E.Symmetry.RADIAL)
        if kind == 'elec':
            e.add_voltage(a=500., b=-300.)
            e.add_dielectric(c=3.)
        if kind == 'mag':
            e.add_magnetostatic_potential(a=150., b=-200.)
            e.add_magnetizable(c=5.)
        if kind in ('coil', 'coilmag', 'mixed'):
            e.add_current(coil=400., coil2=-150.)
        if kind == 'coilmag':
            e.add_magnetizable(a=10.)
            e.add_magnetostatic_potential(c=30.)
        if kind == 'mixed':
            e.add_voltage(a=300., b=-200.)
            e.add_magnetizable(c=10.)
        f = S.solve_direct(e)
    elif kind in ('elec3', 'mag3', 'mixed3'):
        e = E.Excitation(pr.tri_mesh(t, TRIS), E.Symmetry.THREE_D)
        if kind == 'elec3':
            e.add_voltage(a=500., b=-300.)
            e.add_dielectric(c=3.)
        elif kind == 'mag3':
            e.add_magnetostatic_potential(a=150., b=-200.)
            e.add_magnetizable(c=3.)
        else:
            e.add_voltage(a=400.)
            e.add_magnetostatic_potential(b=150., c=-100)
        f = S.solve_direct(e)
    elif kind == 'sum':
        f = 0.5 * make('elec') - make('mag') + 2 * make('coil')
    elif kind == 'sum3':
        f = make('elec3') - 0.5 * make('mag3')
    elif kind == 'axial-sum':
        f = make('axial-elec') - make('axial-mag')
    elif kind.startswith('axial-'):
        f = t.interpolation.FieldRadialAxial(make(kind[6:]), -1., 1.1, 120)
    elif kind == '3daxial':
        if not hasattr(T, 'Tracer3DAxial') or not hasattr(t.backend, 'axial_coefficients_3d'):
            return None
        from scipy.interpolate import CubicSpline
        g = make('mixed3')
        f = Obj()
        f.z = np.linspace(-1., 1.1, 100)
        co = lambda q: np.ascontiguousarray(np.moveaxis(CubicSpline(f.z, t.backend.axial_coefficients_3d(q.charges, q.jacobians, q.positions, f.z)).c, 0, -1))
        f.electrostatic_coeffs, f.magnetostatic_coeffs = co(g.electrostatic_point_charges), co(g.magnetostatic_point_charges)
        f.electrostatic_field_at_point = lambda p: t.backend.field_3d_derivs(np.asarray(p), f.z, f.electrostatic_coeffs)
        f.magnetostatic_field_at_point = lambda p: t.backend.field_3d_derivs(np.asarray(p), f.z, f.magnetostatic_coeffs)
        f.get_tracer = lambda b: T.Tracer3DAxial(f, b)
        f.is_electrostatic = f.is_magnetostatic = lambda: True
    elif kind == 'python':
        if not hasattr(t.backend, 'trace_particle'):
            return None
        f = Obj()
        f.electrostatic_field_at_point = lambda p: np.array([300. * p[0], 100. * p[1] - 50, 500. * p[2]])
        f.magnetostatic_field_at_point = lambda p: np.array([50., -100 + 300 * p[2], 200.])

        def get_tracer(b):
            def run(x, v, atol=1e-10):
                n = np.linalg.norm(v)
                force = lambda *y: np.asarray(f.electrostatic_field_at_point(y[:3])) + ref.MU_0 * np.cross(y[3:], f.magnetostatic_field_at_point(y[:3]))
                return t.backend.trace_particle(x, np.sqrt(-2 * n * ref.EM) * v / n, force, np.array(b, float), atol)
            return run
        f.get_tracer = get_tracer
        f.is_electrostatic = f.is_magnetostatic = lambda: True
    _made[kind] = f
    return f


STARTS = [(0., 0., -1.), (0.1, -0.15, 0.9), (0.2, 0.1, 0.), (0., 0., 0.), (-0.25, 0., -0.3)]
DIRS = [(0., 0., 1.), (0., 0., -1.), (0.1, -0.05, 1.), (-0.1, 0.1, -1.), (1., 0., 0.), (0., -1., 0.2), (-0.7, 0.7, 0.3)]
ENERGIES = [200., 1500., 20000., 1e-4, 1.]     # the last two only where the field is electric


def cases(tier, seed):
    out = []
    for k in KINDS:
        for i in range(len(STARTS)):
            for e in range(len(ENERGIES) if k in ('elec', 'elec3', 'axial-elec', 'mixed3') else 3):
                if e < 3 or i:          # slow electrons on the axis are trapped in the well between the electrodes
                    out.append(dict(what='launch', kind=k, start=i, energy=e, tier=tier))
        out.append(dict(what='tolerance', kind=k))
    for k in BASE:
        out.append(dict(what='representation', kind=k))
    return out


def run(case, rec):
    {'launch': launch, 'tolerance': tolerance, 'representation': representation}[case['what']](case, rec)
    rec.trace()


def accel(f):
    return ref.lorentz(f.electrostatic_field_at_point, f.magnetostatic_field_at_point)


def reference(f, T, P, kind, at):
    """Positions at the sample numbers in `at`; the interpolated fields end abruptly, so these are integrated from sample to sample there."""
    out = []
    y, last = P[0], 0
    for i in at:
        y = ref.integrate(accel(f), y[:3], y[3:], T[i] - T[last], rtol=1e-11)
        out.append(y)
        last = i
    return np.array(out)


def launch(case, rec):
    kind = case['kind']
    f = rec.call('C10/field', lambda: make(kind))
    if f is None:
        return
    x0, energy = np.array(STARTS[case['start']]), ENERGIES[case['energy']]
    dirs = DIRS if case['tier'] != 'quick' else DIRS[case['start'] % 2::2] + DIRS[:1]
    box = BOX if 'axial' not in kind else ((-0.25, 0.25), (-0.25, 0.25), (-0.99, 1.09))
    if 'axial' in kind:
        x0 = 0.8 * x0
    for d in dirs:
        v = energy * np.array(d) / np.linalg.norm(d)
        where = f'{kind} from {x0.tolist()} with {np.round(v, 3).tolist()} eV'
        rec.state((kind, case['start'], d, energy))
        T, P = rec.call('C10/trace', lambda: f.get_tracer(box)(x0, v, 1e-12))
        N = len(T)
        n = N - 1
        if 'axial' in kind and n > 1:
            n -= 1                      # the last sample may lie beyond the end of the field
        if n < 1:
            continue
        at = sorted({max(1, n // 10), max(1, n // 4), n // 2 or 1, max(1, 3 * n // 4), n})
        want = reference(f, T, P, kind, at)
        got = P[at]
        bent = np.linalg.norm(got[-1, 3:] - P[0, 3:]) / np.linalg.norm(P[0, 3:])
        rec.count('bent by more than 1 %' if bent > 0.01 else 'nearly straight')
        rec.step(len(at))
        V = np.linalg.norm(P[0, 3:])
        scale = np.array([1e-8] * 3 + [3e-8 * V] * 3) * (1 + 30 * bent)
        if 'axial' in kind:
            scale = scale * 20
        err = np.abs(got - want)
        rec.check(np.all(err <= scale), 'C10/motion', lambda: f'{where}: at sample {at[int(np.argmax(np.any(err > scale, axis=1)))]} of {N} the state is {got[np.argmax(np.any(err > scale, axis=1))]}, integrating the reported field gives {want[np.argmax(np.any(err > scale, axis=1))]}')
        # acceleration at every step: the velocity changes by the force at the middle, to second order
        acc = accel(f)
        k = np.unique(np.linspace(0, n - 1, 12).astype(int)) if n > 1 else np.array([0])
        for i in k:
            h = T[i + 1] - T[i]
            F = [acc(P[j, :3], P[j, 3:]) for j in (i, i + 1)]
            mid = acc((P[i, :3] + P[i + 1, :3]) / 2 - h * (P[i + 1, 3:] - P[i, 3:]) / 8, (P[i, 3:] + P[i + 1, 3:]) / 2 - h * (F[1] - F[0]) / 8)
            dv = h * (F[0] + 4 * mid + F[1]) / 6
            rec.check(np.linalg.norm(P[i + 1, 3:] - P[i, 3:] - dv) <= 1e-4 * np.linalg.norm(dv) + 1e-9 * V, 'C10/force', lambda: f'{where}: between samples {i} and {i+1} the velocity changes by {P[i+1,3:]-P[i,3:]}, the force accounts for {dv}')
        if kind not in ('3daxial', 'python'):
            only_e, only_m = not f.is_magnetostatic(), not f.is_electrostatic()
            speed2 = np.sum(P[:, 3:]**2, axis=1)
            if only_m:
                rec.check(np.allclose(speed2, speed2[0], rtol=1e-8), 'C10/energy', lambda: f'{where}: speed changes by {np.max(np.abs(speed2/speed2[0]-1))/2} in a magnetic field')
            else:
                j = np.unique(np.linspace(0, n, 25).astype(int))
                H = np.array([0.5 * speed2[i] + ref.EM * f.electrostatic_potential_at_point(P[i, :3]) for i in j])
                tol = 1e-8 if 'axial' not in kind else 2e-5
                rec.check(np.all(np.abs(H - H[0]) <= tol * (0.5 * speed2[0] + 500 * abs(ref.EM))), 'C10/energy', lambda: f'{where}: energy changes by {np.max(np.abs(H - H[0])) / abs(ref.EM)} eV')
        rec.outcome((kind, tuple(np.round(P[-1, :3], 4))))


def tolerance(case, rec):
    kind = case['kind']
    f = rec.call('C10/field', lambda: make(kind))
    if f is None:
        return
    box = BOX if 'axial' not in kind else ((-0.25, 0.25), (-0.25, 0.25), (-0.99, 1.09))
    for x0, d, energy in (((0.1, 0., -0.8), (0.05, 0.02, 1.), 300.), ((-0.1, 0.1, 0.6), (0., 0.1, -1.), 1000.), ((0.1, 0.05, -0.1), (0.1, 0., 1.), 1e-4)):
        if energy < 1 and kind not in ('elec', 'elec3', 'axial-elec', 'mixed3'):
            continue
        x0, v = np.array(x0), energy * np.array(d) / np.linalg.norm(d)
        errs = {}
        for atol in (1e-4, 1e-6, 1e-8, 1e-10, 1e-13):
            T, P = rec.call('C10/trace', lambda: f.get_tracer(box)(x0, v, atol))
            n = max(1, len(T) - 2)
            w = reference(f, T, P, kind, [n])[0]
            errs[atol] = np.linalg.norm(P[n, :3] - w[:3])
            rec.state((kind, energy, atol))
            rec.step()
            rec.check(errs[atol] <= 300 * atol + 1e-8 * (20 if 'axial' in kind else 1), 'C10/tolerance', lambda: f'{kind}: with tolerance {atol} the position is {errs[atol]} off')
        rec.check(errs[1e-13] <= errs[1e-4] + 2e-8, 'C10/tighter', lambda: f'{kind}: errors by tolerance {errs}')
        T, P = f.get_tracer(box)(x0, v)
        T2, P2 = f.get_tracer(box)(x0, v, atol=1e-10)
        rec.check(np.array_equal(P, P2), 'C10/default-tolerance', f'{kind}: the default tolerance is not 1e-10')


def representation(case, rec):
    kind = case['kind']
    f, a = make(kind), make('axial-' + kind)
    box = ((-0.3, 0.3), (-0.3, 0.3), (-0.99, 1.))
    for x0, d in (((0., 0., -0.9), (0., 0., 1.)), ((0.02, 0.01, -0.9), (0.01, -0.02, 1.)), ((-0.03, 0., 0.95), (0., 0.01, -1.))):
        for energy in (2000., 20000.):
            x0_, v = np.array(x0), energy * np.array(d) / np.linalg.norm(d)
            T1, P1 = f.get_tracer(box)(x0_, v)
            T2, P2 = a.get_tracer(box)(x0_, v)
            z = 0.9 if d[2] > 0 else -0.9
            if P1[-1, 2] * z < 0.9 * abs(z) or abs(P1[-1, 2]) < 0.95:
                continue
            rec.state((kind, x0, energy))
            rec.step()
            p, q = (np.array([np.interp(z, *(o := (P[:, 2], P[:, k]) if d[2] > 0 else (P[::-1, 2], P[::-1, k]))) for k in (0, 1)]) for P in (P1, P2))
            rec.check(np.linalg.norm(p - q) < 1e-5, 'C10/representation', lambda: f'{kind} from {x0} with {energy} eV: at z={z} boundary elements give {p}, interpolation {q}')
