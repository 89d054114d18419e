"""Fields are minus the gradient of their potential, source free, and have the symmetry of the problem: every field kind at every point of a lattice that
has a point in each stratum (axis, decades next to it, planes and ends of elements, octants, far away)."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C07'
RULE = 'State: (field kind, lattice point). Non-trivial: a field with sources. Every point of the lattice is evaluated.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


SEGS = [('a', (1., 0.), (1., 0.4)), ('b', (0.3, 1.3), (0.8, 1.35)), ('c', (0., -1.), (0.5, -1.)), ('a', (1.5, 0.4), (2., 0.9)), ('b', (0.05, 2.5), (0.05, 2.7))]
TRIS = [('a', ((0, 0, 0), (1, 0, 0), (0, 1, 0))), ('b', ((0, 0, 2), (0, 1, 2), (1, 0, 2.5))), ('c', ((2, 0, 0), (2, 0, 1), (2, 1, 0))), ('a', ((-1, -1, 1), (-1, -2, 1), (-2, -1, 1.5)))]
KINDS = ['elec', 'mag', 'coil', 'coilmag', 'mixed', 'elec3', 'mag3', 'mixed3']
_made = {}


def make(kind):
    """(field, list of (element, charge) electric, magnetic, coils)"""
    if kind in _made:
        return _made[kind]
    E = t.excitation
    three = kind.endswith('3')
    if three:
        m = pr.tri_mesh(t, TRIS)
        e = E.Excitation(m, E.Symmetry.THREE_D)
    else:
        m = pr.line_mesh(t, SEGS, tris=pr.COIL if kind in ('coil', 'coilmag', 'mixed') else None)
        e = E.Excitation(m, E.Symmetry.RADIAL)
    coils = {}
    if kind.startswith('elec'):
        e.add_voltage(a=5., b=-3)
        e.add_dielectric(c=4.)
    elif kind in ('mag', 'mag3'):
        e.add_magnetostatic_potential(a=5., b=-3)
        e.add_magnetizable(c=4.)
    elif kind == 'coil':
        coils = dict(coil=3., coil2=-2)
    elif kind == 'coilmag':
        coils = dict(coil=3.)
        e.add_magnetizable(a=10., c=3)
        e.add_magnetostatic_potential(b=2.)
    elif kind == 'mixed':
        coils = dict(coil2=4.)
        e.add_voltage(a=5.)
        e.add_magnetizable(b=30)
    elif kind == 'mixed3':
        e.add_voltage(a=5.)
        e.add_magnetostatic_potential(b=3, c=-1)
    if coils:
        e.add_current(**coils)
    f = t.solver.solve_direct(e)
    _made[kind] = f, e, coils, three
    return _made[kind]


def bits(x):
    return [np.nextafter(x, -np.inf), x, np.nextafter(x, np.inf)]


def lattice(three, tier, part):
    if three:
        c = [-3., -1., 0., 0.3, 0.5, 1., 2.2] if tier == 'quick' else [-4., -3., -2., -1.5, -1., -0.5, -0.1, 0., 0.1, 0.3, 0.5, 0.8, 1., 1.3, 2., 2.2, 3.]
        pts = [np.array(p) for p in itertools.product(c, c, [-2., 0., 1., 1.5, 2., 2.5, 4.])]
        pts += [np.array(p) * s for p in itertools.product((-1, 0, 1), repeat=3) for s in (1e2, 1e4)]
        pts += [np.array([0.3, 0.2, 0.]) + np.array([0., 0., s * d]) for d in (1e-1, 1e-3, 1e-6, 1e-9) for s in (1, -1)]
        pts += [np.array([x, y, z]) for x, y, z in itertools.product(bits(1.), bits(0.), bits(0.))]
        return pts[part::8]
    rs = [0., 1e-300, 1e-15, *bits(1e-10), 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.25, 0.5, 0.7, *bits(1.), 1.5, 2.2, 5., 1e3]
    zs = [-1e3, -5., *bits(-1.), -0.5, *bits(0.), 0.2, 0.4, 0.65, 1.3, 1.325, 1.35, 2., 2.5, 2.6, 2.7, 3.3, 1e2]
    if tier != 'quick':
        rs += [0.03, 0.05, 0.06, 0.15, 0.3, 0.4, 0.6, 0.8, 0.9, 0.99, 1.01, 1.1, 1.25, 1.75, 2., 2.5, 3., 3.2, 3.5, 4., 10., 30., 100.]
        zs += list(np.linspace(-3, 4, 71)) + [-100., -30., -10., 10., 30., 1e3]
    return [np.array([r, 0., z]) for r, z in itertools.product(rs, zs)][part::8]


FD = {1: 3 / 4, 2: -3 / 20, 3: 1 / 60}


def fd(f, p, h):
    """Jacobian d f / d x_j, sixth order."""
    cols = []
    for j in range(3):
        e = np.zeros(3)
        e[j] = h
        cols.append(sum(w * (np.asarray(f(p + k * e)) - np.asarray(f(p - k * e))) for k, w in FD.items()) / h)
    return np.array(cols)


def rot(p, phi):
    c, s = np.cos(phi), np.sin(phi)
    return np.array([c * p[0] - s * p[1], s * p[0] + c * p[1], p[2]])


def distance(p, three, tris):
    """Distance to the nearest source (as a curve, a triangle or a cross-section in the half plane), by sampling."""
    if three:
        B = np.array([(a, b) for a in np.linspace(0, 1, 13) for b in np.linspace(0, 1 - a, 13)])
        q = np.concatenate([np.array(v[0]) + B[:, :1] * (np.array(v[1]) - v[0]) + B[:, 1:] * (np.array(v[2]) - v[0]) for _, v in TRIS])
        return float(np.min(np.linalg.norm(q - p, axis=1)))
    s = np.linspace(0, 1, 201)[:, None]
    q = np.concatenate([np.array(a) + s * (np.array(b) - a) for _, a, b in SEGS])
    r = np.hypot(p[0], p[1])
    d = np.min(np.hypot(q[:, 0] - r, q[:, 1] - p[2]))
    if tris:
        B = np.array([(a, b) for a in np.linspace(0, 1, 13) for b in np.linspace(0, 1 - a, 13)])
        q = np.concatenate([np.array(v[0]) + B[:, :1] * (np.array(v[1]) - v[0]) + B[:, 1:] * (np.array(v[2]) - v[0]) for _, v in pr.COIL])
        d = min(d, np.min(np.hypot(q[:, 0] - r, q[:, 1] - p[2])))
    return float(d)


def cases(tier, seed):
    return [dict(kind=k, part=i, tier=tier) for k in KINDS for i in range(8)]


PHIS = [0.3, np.pi / 2, 2.5, np.pi, -2.2, -np.pi / 2, -0.4]


def run(case, rec):
    kind = case['kind']
    f, e, coils, three = rec.call('C07/solve', lambda: make(kind))
    parts = []
    if kind in ('elec', 'elec3', 'mixed', 'mixed3'):
        parts.append(('elec', f.electrostatic_potential_at_point, f.electrostatic_field_at_point))
    if kind not in ('elec', 'elec3'):
        parts.append(('mag', f.magnetostatic_potential_at_point, f.magnetostatic_field_at_point))
    # sizes of the sources: the largest potential and field found near the elements
    for name, pot, field in parts:
        charges = kind != 'coil'
        for p in lattice(three, case['tier'], case['part']):
            rec.state((kind, p.tobytes()))
            d = distance(p, three, bool(coils))
            where = f'{kind} {name} at {p.tolist()}'
            P, F = rec.call('C07/evaluate', lambda: (pot(p), field(p)))
            rec.step()
            F = np.asarray(F)
            if not rec.check(np.shape(P) == () and F.shape == (3,) and np.isfinite(P) and np.all(np.isfinite(F)) or d < 1e-12, 'C07/finite', lambda: f'{where}: potential {P}, field {F}'):
                continue
            if d < 1e-12:
                continue
            L = np.linalg.norm(F)
            # integer and sequence arguments
            if np.all(p == np.round(p)) and np.max(np.abs(p)) < 1e3:
                for q in (p.astype(int), [int(x) for x in p], tuple(int(x) for x in p), tuple(p), np.stack([p, p])[:, ::1][0]):
                    got = rec.call('C07/argument', lambda: np.concatenate([[pot(q)], field(q)]))
                    rec.check(np.array_equal(got, np.concatenate([[P], F])), 'C07/argument', lambda: f'{where}: as {q!r} gives {got}')
            r = np.hypot(p[0], p[1])
            # close to the axis the closed form of the radial field loses digits, absolutely as 1/r
            amp = sum(map(abs, coils.values())) if name == 'mag' else 0.
            axis = (1e-14 * (abs(P) + L * d) + 1e-15 * amp) / r if not three and r >= 0.99e-10 else 0.
            slope = 10 * L / max(d, 1e-3)
            h = 0.004 * min(max(d, 1e-9), 100.) if d < 100 else 0.004 * d
            if h < 1e-6:
                h = None
            near_axis = not three and np.hypot(p[0], p[1]) < 0.3
            if h is not None:
                u = np.max(np.abs([pot(p + h * x) for x in np.vstack([np.eye(3), -np.eye(3)])])) if charges else 0.
                noise = 1e-12 * (u + L * d) / h
                g = -fd(pot, p, h) if charges else None
                if charges and not coils:
                    rec.check(np.allclose(F, g, rtol=0, atol=1e-7 * L + noise + axis), 'C07/gradient', lambda: f'{where}: field {F}, minus gradient {g}')
                J = fd(field, p, h)
                n2 = 1e-11 * (L + (np.max(np.abs(field(p + np.array([h, h, 0])))))) / h + 2 * axis / h + ((1e-14 * (abs(P) + L * d) + 1e-15 * amp) / h**2 if near_axis else 0.)
                scale = np.max(np.abs(J))
                slope = 3 * scale
                rec.check(abs(np.trace(J)) < 2e-6 * scale + n2, 'C07/divergence', lambda: f'{where}: divergence {np.trace(J)}, derivatives {J.tolist()}')
                rec.check(np.max(np.abs(J - J.T)) < 2e-6 * scale + n2, 'C07/curl', lambda: f'{where}: derivatives {J.tolist()} are not symmetric')
            if not three:
                r = p[0]
                floor = axis + 1e-9 * L
                rec.check(abs(F[1]) <= floor, 'C07/azimuthal', lambda: f'{where}: azimuthal component {F[1]}')
                for phi in PHIS:
                    q = rot(p, phi)
                    G = np.asarray(field(q))
                    rec.check(np.allclose(G, rot(F, phi), rtol=0, atol=floor + 1e-9 * L), 'C07/rotation', lambda: f'{where}: rotated by {phi} the field is {G}, should be {rot(F, phi)}')
                    rec.check(abs(pot(q) - P) <= 1e-9 * (abs(P) + L * d), 'C07/rotation', lambda: f'{where}: rotated by {phi} the potential is {pot(q)}, should be {P}')
                if r < 1e-2:
                    on = np.asarray(field(np.array([0., 0., p[2]])))
                    c = slope
                    rec.check(np.allclose(F, on, rtol=0, atol=axis + 1e-9 * L + c * r), 'C07/axis', lambda: f'{where}: field {F}, on the axis {on}')
                    rec.check(abs(P - pot(np.array([0., 0., p[2]]))) <= 1e-9 * abs(P) + c * r * d, 'C07/axis', lambda: f'{where}: potential is not continuous to the axis')
            # independent reference, where quadrature over the elements is accurate
            if d > (2. if three else 0.7 if coils else 0.5):
                w = reference(kind, name, e, f, coils, three, p)
                if w is not None:
                    wp, we = w
                    tol = 1e-5 if three else 1e-6
                    rec.check(np.allclose(F, we, rtol=0, atol=tol * np.linalg.norm(we) + axis), 'C07/reference-field', lambda: f'{where}: field {F}, of the sources {we}')
                    if wp is not None:
                        rec.check(abs(P - wp) < tol * max(abs(wp), np.linalg.norm(we) * d), 'C07/reference-potential', lambda: f'{where}: potential {P}, of the sources {wp}')
            rec.outcome(np.round(np.concatenate([[P], F]), 9).tobytes())
        if kind == 'coil' and name == 'mag' and case['part'] == 0:
            axial_potential(f, rec)
        # the dispatching methods
        p = np.array([0.3, -0.2, 3.1])
        if len(parts) == 1:
            rec.check(np.array_equal(f.field_at_point(p), field(p)) and f.potential_at_point(p) == pot(p), 'C07/dispatch', f'{kind}: field_at_point differs from {name} field')
        else:
            rec.raises('C07/dispatch-field', f.field_at_point, p)
            rec.raises('C07/dispatch-potential', f.potential_at_point, p)
        for q in (np.array([0.1, 0.2]), [1., 2., 3., 4.], 1.0, np.zeros((1, 3))):
            rec.raises('C07/point-shape', field, q)
            rec.raises('C07/point-shape', pot, q)
    rec.trace()


def axial_potential(f, rec):
    """The scalar potential of a coil on the axis has the axial field as slope."""
    for z in (-5., -1., 0., 0.25, 0.6, 1.2, 3., 20.):
        h = 1e-2
        g = -sum(w * (f.current_potential_axial(z + k * h) - f.current_potential_axial(z - k * h)) for k, w in FD.items()) / h
        F = f.magnetostatic_field_at_point(np.array([0., 0., z]))[2]
        rec.state(('axial', z))
        rec.step()
        rec.check(abs(g - F) < 1e-8 * max(abs(F), 1e-3), 'C07/current-potential', lambda: f'axial potential of the coil at {z}: minus slope {g}, field {F}')


_ref = {}


def reference(kind, name, e, f, coils, three, p):
    """Field of the electric charges from charge_on_elements, of the coils from Biot-Savart; None where magnetic charges contribute."""
    if name == 'elec':
        if kind not in _ref:
            a, _ = e.get_electrostatic_active_elements()
            _ref[kind] = a, [f.charge_on_elements([i]) / f.area_of_elements([i]) for i in range(len(a))]
        a, s = _ref[kind]
        if three:
            return sum(x * ref.tri_pot(v, p) for v, x in zip(a, s)), sum(x * ref.tri_E(v, p) for v, x in zip(a, s))
        r = p[0]
        Er, Ez = sum(x * ref.line_E(v, (r, p[2])) for v, x in zip(a, s))
        return sum(x * ref.line_pot(v, (r, p[2])) for v, x in zip(a, s)), np.array([Er, 0., Ez])
    if kind == 'coil':
        F = np.zeros(3)
        for n, I in coils.items():
            tr = [np.insert(np.array(q, float), 1, 0., axis=1) for m, q in pr.COIL if m == n]
            F = F + ref.coil_H(tr, I / sum(ref.tri_area(q) for q in tr), p)
        return None, F
    return None
