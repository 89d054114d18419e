"""Axial interpolation: every sample position with its floating point neighbours, every interval and the outside, for every small number of samples and every
field kind, against the boundary element field and the error that the series and the interpolation can have."""
import math, os
import numpy as np
from numpy.polynomial import chebyshev as Ch
import vlib, problems as pr

PROPERTY = 'C08'
RULE = ('State: (field kind, range, number of samples, point). Points: all samples and their floating point neighbours, five places in every interval, '
        'outside of both ends, each at several distances and azimuths from the axis. Non-trivial: points between the ends.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


SEGS = [('a', (1., -1.), (1., -0.2)), ('b', (1., 0.2), (1., 1.)), ('c', (0.8, 1.6), (1.6, 1.6)), ('d', (0.6, -2.), (0.9, -1.5)), ('a', (1.5, 2.5), (1.5, 3.5))]
COIL = [('coil', ((1.2, 0.), (1.7, 0.), (1.2, 0.5))), ('coil', ((1.7, 0.), (1.7, 0.5), (1.2, 0.5))), ('coil2', ((2., 1.), (2.5, 1.), (2.2, 1.4)))]
KINDS = ['elec', 'mag', 'coil', 'coilmag', 'mixed', 'sum']
_made = {}


def make(kind):
    if kind in _made:
        return _made[kind]
    E = t.excitation
    coils = kind in ('coil', 'coilmag', 'mixed')
    e = E.Excitation(pr.line_mesh(t, SEGS, tris=COIL if coils else None), E.Symmetry.RADIAL)
    if kind in ('elec', 'sum'):
        e.add_voltage(a=5., b=-3, d=100.)
        e.add_dielectric(c=4.)
    elif kind == 'mag':
        e.add_magnetostatic_potential(a=5., b=-3)
        e.add_magnetizable(c=4.)
    elif kind == 'coil':
        e.add_current(coil=3., coil2=-2)
    elif kind == 'coilmag':
        e.add_current(coil=3.)
        e.add_magnetizable(a=10., c=3)
        e.add_magnetostatic_potential(b=2.)
    elif kind == 'mixed':
        e.add_current(coil2=4.)
        e.add_voltage(a=5.)
        e.add_magnetizable(b=30)
    f = t.solver.solve_direct(e)
    if kind == 'sum':
        f = 2 * f - 0.5 * make('mag')[0]
    parts = []
    if kind in ('elec', 'mixed', 'sum'):
        parts.append('elec')
    if kind != 'elec':
        parts.append('mag')
    _made[kind] = f, parts, coils
    return _made[kind]


def dist(z, coils):
    s = np.linspace(0, 1, 101)[:, None]
    q = np.concatenate([np.array(a) + s * (np.array(b) - a) for _, a, b in SEGS] + ([np.array(p) for _, p in COIL] if coils else []))
    return float(np.min(np.hypot(q[:, 0], q[:, 1] - z)))


_X = np.cos(np.pi * (np.arange(26) + 0.5) / 26)
_cache = {}


def derivs(kind, part, z):
    """Potential on the axis and its derivatives up to order 8 from the boundary element field; distance to the sources; size of the series."""
    key = kind, part, z
    if key not in _cache:
        f, _, coils = make(kind)
        d = dist(z, coils)
        w = 0.45 * d
        field = f.electrostatic_field_at_point if part == 'elec' else f.magnetostatic_field_at_point
        pot = f.electrostatic_potential_at_point if part == 'elec' else f.magnetostatic_potential_at_point
        p0 = pot(np.array([0., 0., z])) + (f.current_potential_axial(z) if part == 'mag' and coils else 0.)
        c = Ch.chebfit(_X, [field(np.array([0., 0., z + w * x]))[2] for x in _X], 22)
        D = [p0] + [-Ch.chebval(0., Ch.chebder(c, k) if k else c) / w**k for k in range(8)]
        m = max(abs(D[k]) * d**k / math.factorial(k) for k in range(1, 9))
        _cache[key] = np.array(D), d, m
    return _cache[key]


FRACTIONS = [0.02, 0.25, 0.5, 0.77, 0.99]
RADII = [0., 1e-12, 1e-3, 0.06, 0.15, 0.3]     # as a fraction of the distance to the sources
ANGLES = [0., 0.7, np.pi, -2.2, -np.pi / 2]
POT = {0: 1., 2: 1 / 4, 4: 1 / 64, 6: 1 / 2304, 8: 1 / 147456}
FZ = {1: 1., 3: 1 / 4, 5: 1 / 64, 7: 1 / 2304}
ER = {2: 1 / 2, 4: 1 / 16, 6: 1 / 384, 8: 1 / 18432}


def order_error(k, h, N, m, d):
    """Bound on the interpolation error of derivative k."""
    b = lambda n: math.factorial(n) * m / d**n
    if k <= 6:
        return h**6 / 46080 * b(k + 6)
    e = 10 * h**4 * 5 / 384 * b(k + 4)
    if N < 4:
        e += h**2 * b(k + 2) + h**3 * b(k + 3)
    return e


RANGES = {'mid': (-1.5, 1.5), 'left': (-2.5, -0.1), 'int': (1, 4), 'tiny': (0.3, 0.31), 'far': (-30., -20.)}


def cases(tier, seed):
    out = []
    ns = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 29, 60] if tier == 'quick' else list(range(2, 41)) + [60, 100, 150, 301]
    for kind in KINDS:
        for rng in RANGES:
            for i in range(0, len(ns), 4):
                out.append(dict(what='axial', kind=kind, range=rng, ns=ns[i:i + 4], tier=tier))
        out.append(dict(what='default', kind=kind))
    out += [dict(what='reject')]
    out += [dict(what='3d', kind=k, N=N) for k in ('elec3', 'mag3') for N in (2, 3, 4, 5, 8, 16, 40)]
    return out


def run(case, rec):
    {'axial': axial, 'default': default, 'reject': reject, '3d': three}[case['what']](case, rec)
    rec.trace()


def axial(case, rec):
    kind = case['kind']
    f, parts, coils = make(kind)
    lo, hi = RANGES[case['range']]
    for N in case['ns']:
        ax = rec.call('C08/create', lambda: t.interpolation.FieldRadialAxial(f, lo, hi, N))
        check_axial(kind, case['range'], ax, N, lo, hi, rec)


def near(z):
    return [np.nextafter(z, -np.inf), z, np.nextafter(z, np.inf)]


def check_axial(kind, rng, ax, N, lo, hi, rec):
    f, parts, coils = make(kind)
    zs = np.linspace(lo, hi, N)
    h = (hi - lo) / (N - 1)
    rec.check(bool(ax.is_electrostatic()) == ('elec' in parts) and bool(ax.is_magnetostatic()) == ('mag' in parts), 'C08/kind', lambda: f'{kind}: is_electrostatic {ax.is_electrostatic()}, is_magnetostatic {ax.is_magnetostatic()}')
    for part in ('elec', 'mag'):
        pot = ax.electrostatic_potential_at_point if part == 'elec' else ax.magnetostatic_potential_at_point
        field = ax.electrostatic_field_at_point if part == 'elec' else ax.magnetostatic_field_at_point
        bem = f.electrostatic_field_at_point if part == 'elec' else f.magnetostatic_field_at_point
        bempot = f.electrostatic_potential_at_point if part == 'elec' else f.magnetostatic_potential_at_point
        if part not in parts:
            for z in [*zs, lo - 1, hi + 1, 0.5 * (lo + hi)]:
                p = np.array([0.05, 0.1, z])
                got = rec.call('C08/evaluate', lambda: (pot(p), *field(p)))
                rec.check(got == (0., 0., 0., 0.), 'C08/other-kind', lambda: f'{kind} {rng} N={N}: {part} part is {got} at {p}')
            continue
        # outside
        for z in (np.nextafter(lo, -np.inf), lo - 1e-9, lo - h, lo - 1, -1e6, np.nextafter(hi, np.inf), hi + 1e-9, hi + h, hi + 1, 1e6):
            for r in (0., 1e-3, 0.1, 0.5):
                p = np.array([r, -r, z])
                rec.state((kind, rng, N, part, p.tobytes()))
                got = rec.call('C08/evaluate', lambda: (pot(p), *field(p)))
                rec.check(got == (0., 0., 0., 0.), 'C08/outside', lambda: f'{kind} {rng} N={N} {part}: {got} at {p}, outside of [{lo}, {hi}]')
                rec.step()
        worst = max(derivs(kind, part, float(z))[2] for z in zs)
        dmin = min(derivs(kind, part, float(z))[1] for z in zs)
        bend = []
        for z in np.linspace(lo, hi, 5):
            D, d, m = derivs(kind, part, float(z))
            worst, dmin = max(worst, m), min(dmin, d)
        worst *= 3
        size = max(abs(derivs(kind, part, float(z))[0][0]) for z in zs)
        pts = []
        for i, z in enumerate(zs):
            pts += [(x, True) for x in near(z) if lo <= x <= hi]
            if i < N - 1 and N <= 60:
                pts += [(z + fr * (zs[i + 1] - z), False) for fr in (FRACTIONS if N <= 30 else FRACTIONS[1:4:2])]
        on_axis = {}
        for z, node in pts:
            z = float(z)
            D, d, m = derivs(kind, part, z if not node else float(zs[np.argmin(np.abs(zs - z))]))
            eps = 2e-7 * m + 1e-12 * size
            for ri, rr in enumerate(RADII):
                r = rr * d
                err = lambda k: 0. if node else order_error(k, h, N, worst, dmin)
                # the neighbours of a sample differ by the slope, which is far below these tolerances
                tail = 3 * max(m, 1e-2 * worst) * 0.3
                tp = sum(c * r**k * err(k) for k, c in POT.items()) + tail * rr**10 / (1 - rr**2)
                tz = sum(c * r**(k - 1) * err(k) for k, c in FZ.items()) + 10 * tail * rr**8 / (1 - rr**2)**2 / d
                te = sum(c * r**(k - 1) * err(k) for k, c in ER.items()) + 10 * tail * rr**9 / (1 - rr**2)**2 / d
                phi = ANGLES[ri % len(ANGLES)]
                for phi in (ANGLES if node and r and N <= 12 else [ANGLES[ri % len(ANGLES)]]):
                    p = np.array([r * np.cos(phi), r * np.sin(phi), z])
                    rec.state((kind, rng, N, part, p.tobytes()))
                    rec.step()
                    where = f'{kind} {rng} N={N} {part} at {p.tolist()}' + (' (sample)' if node else '')
                    P, F = rec.call('C08/evaluate', lambda: (pot(p), np.asarray(field(p))))
                    ref = np.asarray(bem(p))
                    # rounding of the series: coefficients of the higher terms are only known to rounding of the lower ones
                    rec.check(np.shape(P) == () and F.shape == (3,) and np.isfinite(P) and np.all(np.isfinite(F)), 'C08/finite', lambda: f'{where}: {P}, {F}')
                    rec.check(abs(F[2] - ref[2]) <= tz + eps / d * 1e-3 + 1e-11 * np.linalg.norm(ref), 'C08/field-z' + ('-sample' if node else ''), lambda: f'{where}: field {F}, of the boundary elements {ref}, difference {F[2] - ref[2]} allowed {tz + eps/d*1e-3}')
                    axisnoise = 1e-14 * (size + m * 10) / r if r > 1e-11 else 0.
                    rec.check(np.all(np.abs(F[:2] - ref[:2]) <= te + eps / d * 1e-3 + axisnoise), 'C08/field-r' + ('-sample' if node else ''), lambda: f'{where}: field {F}, of the boundary elements {ref}, difference {F[:2]-ref[:2]} allowed {te + eps/d*1e-3 + axisnoise}')
                    if not (part == 'mag' and coils):
                        w = bempot(p)
                    elif r == 0.:
                        w = D[0] - (z - float(zs[np.argmin(np.abs(zs - z))])) * 0 if node else D[0]
                    else:
                        # off the axis: series with the reference derivatives
                        w = sum((-1)**(k // 2) * c * r**k * D[k] for k, c in POT.items())
                    rec.check(abs(P - w) <= tp + eps * 1e-3 + (eps if r and part == 'mag' and coils else 0.), 'C08/potential' + ('-sample' if node else ''), lambda: f'{where}: potential {P}, of the boundary elements {w}, difference {P-w} allowed {tp + eps*1e-3}')
                    if node:
                        k = (int(np.argmin(np.abs(zs - z))), ri, phi)
                        v = np.concatenate([[P], F])
                        if k in on_axis:
                            rec.check(np.allclose(v, on_axis[k], rtol=1e-9, atol=1e-9 * (m + size)), 'C08/continuous', lambda: f'{where}: {v}, at the neighbouring number {on_axis[k]}')
                        on_axis[k] = v
                    rec.outcome(np.round(P, 9))
        # gradient
        for i in {0, N // 2 - 1, N - 2} if N > 2 else {0}:
            z = zs[i] + 0.4 * (zs[i + 1] - zs[i])
            D, d, m = derivs(kind, part, float(z))
            for r in (0., 0.1 * d, 0.2 * d):
                p = np.array([r * 0.6, -r * 0.8, z])
                s = min(1e-2, 0.1 * h)
                g = np.zeros(3)
                for j in range(3):
                    u = np.zeros(3)
                    u[j] = s
                    g[j] = -sum(w * (pot(p + k * u) - pot(p - k * u)) for k, w in {1: 3 / 4, 2: -3 / 20, 3: 1 / 60}.items()) / s
                b = lambda n: math.factorial(n) * worst / dmin**n
                tol = sum(c * (r + 3 * s)**(k - 1) * (k + 1) * order_error(k, h, N, worst, dmin) for k, c in ER.items()) + sum(c * r**(k - 1) * (order_error(k, h, N, worst, dmin) + h**5 / 100 * b(k + 5)) for k, c in FZ.items()) + 10 * m * (0.2)**8 / d
                tol += 1e-13 * (size + m) / s + 1e-6 * m / d * (s / d)**2
                rec.check(np.allclose(g, field(p), rtol=0, atol=tol), 'C08/gradient', lambda: f'{kind} {rng} N={N} {part} at {p.tolist()}: field {field(p)}, minus gradient {g}, allowed {tol}')


def default(case, rec):
    kind = case['kind']
    f, parts, coils = make(kind)
    for rng in ('mid', 'int'):
        lo, hi = RANGES[rng]
        ax = rec.call('C08/default-samples', lambda: t.interpolation.FieldRadialAxial(f, lo, hi))
        N = len(ax.z) if hasattr(ax, 'z') else 2
        check_axial(kind, rng, ax, N, lo, hi, rec)
        ax2 = rec.call('C08/create', lambda: t.interpolation.FieldRadialAxial(f, zmin=lo, zmax=hi, N=7))
        for z in np.linspace(lo, hi, 7):
            for q in ([0.1, 0, z], (0.1, 0., z), np.array([0.1, 0., z])):
                rec.check(np.allclose(np.asarray(ax2.magnetostatic_field_at_point(q)), ax2.magnetostatic_field_at_point(np.array([0.1, 0., z]))), 'C08/argument', lambda: f'{kind}: {q!r}')
    ax = t.interpolation.FieldRadialAxial(f, -1, 2, 4)
    for z in (-2, -1, 0, 1, 2, 3):
        for q in ([0, 0, z], np.array([1, 0, z])):
            got = rec.call('C08/integer-point', lambda: np.concatenate([ax.electrostatic_field_at_point(q), ax.magnetostatic_field_at_point(q), [ax.electrostatic_potential_at_point(q), ax.magnetostatic_potential_at_point(q)]]))
            q = np.array(q, float)
            want = np.concatenate([ax.electrostatic_field_at_point(q), ax.magnetostatic_field_at_point(q), [ax.electrostatic_potential_at_point(q), ax.magnetostatic_potential_at_point(q)]])
            rec.check(np.array_equal(got, want), 'C08/integer-point', lambda: f'{kind} at {q}: {got} for integers, {want} for floats')
    if len(parts) == 1:
        p = np.array([0.03, -0.02, 0.4])
        which = parts[0]
        rec.check(np.array_equal(ax.field_at_point(p), (ax.electrostatic_field_at_point if which == 'elec' else ax.magnetostatic_field_at_point)(p)), 'C08/dispatch', kind)
        rec.check(ax.potential_at_point(p) == (ax.electrostatic_potential_at_point if which == 'elec' else ax.magnetostatic_potential_at_point)(p), 'C08/dispatch', kind)


def reject(case, rec):
    f = make('elec')[0]
    F = t.interpolation.FieldRadialAxial
    for lo, hi, N in ((1., 1., 5), (1., 0., 5), (0., 1., 0), (0., 1., 1), (0., 1., -3)):
        rec.raises('C08/reject', F, f, lo, hi, N)
    rec.raises('C08/reject', F, F(f, 0., 1., 5), 0., 1., 5)
    ax = F(f, 0., 1., 5)
    for q in ([0., 0.], 0.3, [0., 0., 0., 0.], np.zeros((1, 3))):
        rec.raises('C08/point-shape', ax.electrostatic_field_at_point, q)
        rec.raises('C08/point-shape', ax.electrostatic_potential_at_point, q)
        rec.state(('reject', str(q)))


def multipoles(charges, jacobians, positions, z, shape):
    """Coefficients of r^(m+2 nu) cos(m phi) and sin(m phi) in the potential of point charges, from the power series of the sectoral terms
    rho^m/(rho^2 + (z-z0)^2)^(m+1/2) around z; and the sum of the absolute values of the contributions (before the azimuth)."""
    q = (charges[:, None] * jacobians).ravel() / (4 * np.pi)
    x, y, z0 = positions.reshape(-1, 3).T
    rho, mu = np.hypot(x, y), np.arctan2(y, x)
    _, _, NU, M = shape
    out, size = np.zeros(shape), np.zeros((len(z), 1, NU, M))
    for i, zi in enumerate(z):
        a0, a1 = rho**2 + (zi - z0)**2, 2 * (zi - z0)
        for m in range(M):
            e = -m - 0.5
            g = [a0**e]
            for n in range(1, 2 * NU - 1):
                g.append(((e - n + 1) * a1 * g[n - 1] + ((2 * e - n + 2) * g[n - 2] if n > 1 else 0.)) / (n * a0))
            lead = (2 if m else 1) * math.prod(range(1, 2 * m, 2)) / (2**m * math.factorial(m)) * rho**m * q
            for nu in range(NU):
                v = (-1)**nu * math.factorial(m) * math.factorial(2 * nu) / (4**nu * math.factorial(nu) * math.factorial(nu + m)) * lead * g[2 * nu]
                out[i, 0, nu, m], out[i, 1, nu, m] = np.sum(v * np.cos(m * mu)), np.sum(v * np.sin(m * mu))
                size[i, 0, nu, m] = np.sum(np.abs(lead) * math.factorial(m) * math.factorial(2 * nu) / (4**nu * math.factorial(nu) * math.factorial(nu + m)) * a0**(e - nu))
    return out, size


def three(case, rec):
    """The expansion of 3D fields around the axis, as the native library provides it."""
    from scipy.interpolate import CubicSpline
    E, B = t.excitation, t.backend
    if not all(hasattr(B, n) for n in ('axial_coefficients_3d', 'potential_3d_derivs', 'field_3d_derivs')):
        return
    e = E.Excitation(pr.tri_mesh(t, [('a', ((1, 0, 0), (2, 0, 0.3), (1, 1, 0.5))), ('b', ((-1, -1, 1), (-2, -1, 1.2), (-1, -2, 2))), ('a', ((-1.5, 0.5, -1), (-1, 1.5, -1), (-1, 1, 0)))]), E.Symmetry.THREE_D)
    if case['kind'] == 'elec3':
        e.add_voltage(a=5., b=-2.)
    else:
        e.add_magnetostatic_potential(a=5., b=-2.)
    f = t.solver.solve_direct(e)
    eff = f.electrostatic_point_charges if case['kind'] == 'elec3' else f.magnetostatic_point_charges
    pot = f.potential_at_point
    N, lo, hi = case['N'], -0.7, 0.9
    z = np.linspace(lo, hi, N)
    c = B.axial_coefficients_3d(eff.charges, eff.jacobians, eff.positions, z)
    want, size = multipoles(eff.charges, eff.jacobians, eff.positions, z, c.shape)
    for i, zi in enumerate(z):
        rec.state((N, i))
        rec.step()
        rec.check(np.all(np.abs(c[i] - want[i]) <= 1e-9 * size[i] + 1e-300), 'C08/3d-coefficients', lambda: f'3D: coefficients at z={zi}: {c[i].tolist()}, exact {want[i].tolist()}')
    s = CubicSpline(z, c).c if N > 3 else None
    if s is None:
        # two or three samples: the same layout from lower order
        full = CubicSpline(z, c)
        s = full.c
    k = np.zeros((4, *s.shape[1:]))
    k[4 - s.shape[0]:] = s
    co = np.ascontiguousarray(np.moveaxis(k, 0, -1))
    h = z[1] - z[0]
    size = max(abs(pot(np.array([0., 0., q]))) for q in z)
    for q in (np.nextafter(lo, -np.inf), lo - 1, np.nextafter(hi, np.inf), hi + 1):
        for r in (0., 0.1):
            p = np.array([r, r, q])
            got = rec.call('C08/3d-evaluate', lambda: (B.potential_3d_derivs(p, z, co), *B.field_3d_derivs(p, z, co)))
            rec.check(got == (0., 0., 0., 0.), 'C08/3d-outside', lambda: f'3D N={N}: {got} at {p}')
    for i, zi in enumerate(z):
        for q in [x for x in near(zi) if lo <= x <= hi] + ([zi + fr * h for fr in (0.25, 0.5, 0.9)] if i < N - 1 else []):
            node = abs(q - zi) < 1e-12
            for r in (0., 1e-12, 1e-6, 0.02, 0.1, 0.25):
                for phi in (0., 0.7, 2.1, np.pi, -2.4, -0.5):
                    p = np.array([r * np.cos(phi), r * np.sin(phi), q])
                    rec.state((N, p.tobytes()))
                    rec.step()
                    P, F = rec.call('C08/3d-evaluate', lambda: (B.potential_3d_derivs(p, z, co), np.asarray(B.field_3d_derivs(p, z, co))))
                    wp, wf = pot(p), np.asarray(f.field_at_point(p))
                    inter = 0. if node else (60 * h**4 if N > 3 else 5 * h**2) * size
                    slope = (60 * h**3 if N > 3 else 5 * h) * size
                    ser = 3 * size * r**8
                    rec.check(abs(P - wp) < 1e-10 * size + inter + ser, 'C08/3d-potential', lambda: f'3D N={N} at {p.tolist()}: potential {P}, boundary elements {wp}, allowed {inter+ser}')
                    rec.check(np.all(np.abs(F[:2] - wf[:2]) < 1e-9 * size + 3 * inter + 10 * size * r**7), 'C08/3d-field', lambda: f'3D N={N} at {p.tolist()}: field {F}, boundary elements {wf}')
                    rec.check(abs(F[2] - wf[2]) < 1e-9 * size + slope + 10 * size * r**8, 'C08/3d-field', lambda: f'3D N={N} at {p.tolist()}: field {F}, boundary elements {wf}')
