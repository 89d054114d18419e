"""Electrostatic excitations are honoured: every assignment of excitations to the groups of small meshes (the charges of the solution are put into
independent reference kernels), and closed geometries with known solutions through the field evaluation only."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C03'
RULE = ('State: (mesh layout, assignment of an excitation or none to every group), or (geometry, excitation values) for the analytic cases. '
        'Non-trivial: at least one voltage; every element is compared at its centre. All assignments of the alphabet are executed.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


def vfun_r(x, y, z):
    return 3. + 2. * x - z * z + 10 * y


def vfun_3(x, y, z):
    return 1. + 2. * x - 3. * y + 4. * z * x


ALPHABET = [None, ('V', 5), ('V', -2.5), ('V', 0.), ('F',), ('D', 4), ('D', 0.5), ('B',)]


# ---------------------------------------------------------------------------------------- layouts

def arc4(c, R, a0, a1):
    """Four node element on a circle (mesh order)."""
    a = [a0, a1, a0 + (a1 - a0) / 3, a0 + 2 * (a1 - a0) / 3]
    return [np.array([c[0] + R * np.cos(x), 0., c[1] + R * np.sin(x)]) for x in a]


def layout(name):
    """(mesh, symmetry). The elements of the groups are interleaved, some elements belong to no group."""
    E = t.excitation
    if name in ('straight', 'straight4'):
        segs = [(None, (3., 0.), (3., 0.4)), ('a', (1., 0.), (1., 0.4)), ('b', (1.2, 0.6), (1.2, 1.)), ('a', (0.3, 1.3), (0.8, 1.35)), ('c', (0.7, -0.5), (1.1, -0.4)),
                (None, (2., 2.), (2.4, 2.)), ('d', (0.4, 2.), (0.9, 2.1)), ('c', (1.5, 1.4), (1.6, 1.9))]
        if name == 'straight4':
            segs = segs[::-1]
        return pr.line_mesh(t, segs, higher=name == 'straight4'), E.Symmetry.RADIAL
    if name == 'curved4':
        els = [('b', arc4((2., 0.), 0.6, 0.2, 1.1)), (None, arc4((0., 4.), 1., 0.4, 0.8)), ('a', arc4((0.3, 1.5), 0.8, 1.2, 0.5)), ('c', arc4((1.2, -1.5), 0.5, 2.8, 1.9)),
               ('d', arc4((0., -3.), 0.8, 1.3, 0.6)), ('b', arc4((1.9, 2.6), 0.5, -0.3, 0.6))]
        pts = [p for _, e in els for p in e]
        g = {}
        for i, (n, _) in enumerate(els):
            if n:
                g.setdefault(n, []).append(i)
        return t.mesher.Mesh(points=pts, lines=[[4 * i, 4 * i + 1, 4 * i + 2, 4 * i + 3] for i in range(len(els))],
                             physical_to_lines={k: np.array(v) for k, v in g.items()}, ensure_outward_normals=False), E.Symmetry.RADIAL
    if name == 'solid':
        tris = [('d', ((0, 0, 0), (1, 0, 0), (0, 1, 0.2))), (None, ((5, 5, 5), (6, 5, 5), (5, 6, 5.2))), ('a', ((1, 0, 0), (1, 1, 0.3), (0, 1, 0.2))), ('b', ((0, 0, 1.5), (1, 0, 1.6), (0, 1, 1.4))),
                ('c', ((3, 0, 0), (3, 1, 0), (3, 0, 1))), ('a', ((-9, 0, 0), (-9, 1, 0), (-9.2, 0, 1))), ('c', ((0, 7, 0), (1, 7.2, 0), (0, 7, 1)))]
        return pr.tri_mesh(t, tris), E.Symmetry.THREE_D
    if name == 'slivers':
        # elongated triangles with the short edge first, second and last, seen from the side
        tris = [('a', ((0, 0, 0), (0.2, 0, 0), (0, 3, 0))), ('b', ((1.3, 0, 0.1), (1.2, 3, 0), (1.1, 0, 0))), ('c', ((-1.3, 3, 0), (-1.2, 0, 0.5), (-1.1, 0, 0.4))), ('d', ((0, 1, 1.2), (0.15, 1, 1.2), (0.1, 4, 1.5))),
                (None, ((0, 0, 5), (1, 0, 5), (0, 1, 5)))]
        return pr.tri_mesh(t, tris), E.Symmetry.THREE_D
    raise ValueError(name)


LAYOUTS = ['straight', 'straight4', 'curved4', 'solid', 'slivers']
PROBES = [(0.1, 0., 0.2), (0.05, -0.2, 0.7), (0., 0., -0.5), (-1.8, 0.4, 0.8), (0., 2.6, 4.), (0.2, 0.1, 9.)]
PROBES3 = [(0.3, 0.2, 0.8), (2., -1., 0.5), (0.4, 0.5, 3.), (-4., 2., 1.), (0.5, 1.5, -2.)]


def centre(el, three_d):
    if three_d:
        return np.mean(el, axis=0)
    P, _ = ref.line4(el, np.array([0.]))
    return np.array([P[0, 0], 0., P[0, 1]])


class Kernel:
    """Reference influence of every element of the mesh (in its original orientation) on every centre and probe."""

    def __init__(self, els, three_d):
        self.els, self.three_d = els, three_d
        n = len(els)
        self.c = np.array([centre(e, three_d) for e in els])
        self.nrm = [ref.tri_normal(e) if three_d else ref.line_normal(e) for e in els]
        self.P, self.F = np.zeros((n, n)), np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if three_d:
                    self.P[i, j] = ref.tri_pot(els[j], self.c[i])
                    # in the plane of the element itself the average of both sides is without normal component
                    self.F[i, j] = 0. if i == j else self.nrm[i] @ ref.tri_E(els[j], self.c[i])
                else:
                    p, a0 = self.c[i][[0, 2]], 0. if i == j else None
                    self.P[i, j] = ref.line_pot(els[j], p, a0)
                    self.F[i, j] = ref.line_E(els[j], p, a0, self.nrm[i])
        self.area = np.array([ref.tri_area(e) if three_d else ref.line_area(e) for e in els])
        probes = PROBES3 if three_d else PROBES
        self.PP = np.array([[ref.tri_pot(e, np.array(q)) if three_d else ref.line_pot(e, (np.hypot(q[0], q[1]), q[2])) for e in els] for q in probes])


_kern = {}


def kernel(name):
    if name not in _kern:
        m, sym = layout(name)
        three = sym == t.excitation.Symmetry.THREE_D
        _kern[name] = Kernel(m.points[m.triangles if three else m.lines], three)
    return _kern[name]


def excite(name, ass):
    m, sym = layout(name)
    e = t.excitation.Excitation(m, sym)
    fun = vfun_3 if sym == t.excitation.Symmetry.THREE_D else vfun_r
    # excitations are applied in either order of the groups
    if sum(ALPHABET.index(x) for _, x in ass) % 2:
        ass = ass[::-1]
    for n, x in ass:
        if x is None:
            continue
        if x[0] == 'V':
            e.add_voltage(**{n: x[1]})
        elif x[0] == 'F':
            e.add_voltage(**{n: fun})
        elif x[0] == 'D':
            e.add_dielectric(**{n: x[1]})
        else:
            e.add_electrostatic_boundary(n)
    return e, fun


def elements(mesh, three_d):
    return mesh.points[mesh.triangles if three_d else mesh.lines]


def judge(name, ass, rec):
    k = kernel(name)
    kinds = {n: x for n, x in ass if x is not None}
    if not any(x[0] in 'VF' for x in kinds.values()):
        return
    where = f'{name} {dict(kinds)}'
    rec.state((name, tuple(ass)))
    exc, fun = excite(name, ass)
    field = rec.call('C03/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    m = exc.mesh
    physical = m.physical_to_triangles if k.three_d else m.physical_to_lines
    els = elements(m, k.three_d)
    group = [next((n for n, ix in physical.items() if i in ix), None) for i in range(len(els))]
    # the charge density of each element of the mesh, through the list of active elements
    active, names = exc.get_electrostatic_active_elements()
    sigma = np.zeros(len(els))
    seen = 0
    for i, el in enumerate(els):
        if group[i] not in kinds:
            continue
        # all elements of the layouts have different centres
        j = [j for j in range(len(active)) if np.allclose(centre(active[j], k.three_d), centre(el, k.three_d), rtol=0, atol=1e-9)]
        if not rec.check(len(j) == 1, 'C03/active', lambda: f'{where}: element {i} occurs {len(j)} times among the active elements'):
            return
        q, a = field.charge_on_elements(j), field.area_of_elements(j)
        seen += 1
        rec.check(abs(a - k.area[_index(k, el)]) < 1e-6 * a, 'C03/area', lambda: f'{where}: area of element {i} is {a}, should be {k.area[_index(k, el)]}')
        sigma[_index(k, el)] = q / a
    rec.check(seen == len(active), 'C03/active', lambda: f'{where}: {len(active)} active elements, {seen} belong to groups with an excitation')
    scale = max(np.max(np.abs(k.P @ sigma)), np.max(np.abs(sigma)) * 0.1, 1e-3)
    tol = (2e-5 if k.three_d else 1e-6) * scale
    pot, flux = k.P @ sigma, k.F @ sigma
    for i, el in enumerate(els):
        x = kinds.get(group[i])
        ix = _index(k, el)
        if x is None:
            continue
        if x[0] in 'VF':
            want = x[1] if x[0] == 'V' else fun(*k.c[ix])
            rec.check(abs(pot[ix] - want) < tol, 'C03/voltage', lambda: f'{where}: the centre {k.c[ix]} of an element of {group[i]} is at {pot[ix]} V, applied {want} V')
        else:
            K = x[1] if x[0] == 'D' else 0.
            n = ref.tri_normal(el) if k.three_d else ref.line_normal(el)
            s = np.sign(n @ k.nrm[ix])
            out, ins = s * flux[ix] + sigma[ix] / 2, s * flux[ix] - sigma[ix] / 2
            rec.check(abs(out - K * ins) < tol * (1 + K), 'C03/dielectric',
                      lambda: f'{where}: at the centre {k.c[ix]} of an element of {group[i]} (relative permittivity {K}) the normal field is {out} outside and {ins} inside')
    # evaluation
    want = k.PP @ sigma
    probes = PROBES3 if k.three_d else PROBES
    got = np.array([rec.call('C03/evaluate', lambda: field.potential_at_point(np.array(p))) for p in probes])
    # long triangles are evaluated with quadrature, which is not exact close by
    near = 4e-3 * scale if name == 'slivers' else 5 * tol
    rec.check(np.allclose(got, want, rtol=0, atol=near), 'C03/potential', lambda: f'{where}: potential at {probes} is {got}, of the charges {want}')
    rec.outcome(np.round(sigma, 6).tobytes())
    rec.trace()


def _index(k, el):
    c = centre(el, k.three_d)
    return int(np.argmin(np.sum((k.c - c)**2, axis=1)))


# ---------------------------------------------------------------------------------------- analytic geometries

HARM_R = {'one': lambda x, y, z: 1., 'z': lambda x, y, z: z - 0.3, 'q': lambda x, y, z: z * z - (x * x + y * y) / 2, 'c': lambda x, y, z: z**3 - 1.5 * z * (x * x + y * y)}
HARM_3 = {'one': lambda x, y, z: 1., 'x': lambda x, y, z: x - 0.2, 'y': lambda x, y, z: y + 1, 'z': lambda x, y, z: 2 * z, 'xy': lambda x, y, z: x * y,
          'yz': lambda x, y, z: y * z, 'xx-yy': lambda x, y, z: x * x - y * y, 'q': lambda x, y, z: z * z - (x * x + y * y) / 2}


def grad(f, p, h=1e-4):
    p = np.array(p, float)
    return np.array([(f(*(p + h * e)) - f(*(p - h * e))) / (2 * h) for e in np.eye(3)])


def closed_radial(shape, reverse):
    P = t.geometry.Path
    if shape == 'sphere':
        p = P.arc([0., 0., 0.5], [0., 0., -0.5], [1., 0., 0.5]).arc_to([0., 0., 0.5], [0., 0., 1.5])
    elif shape == 'cylinder':
        p = P.line([0., 0., -0.6], [1., 0., -0.6]).line_to([1., 0., 1.4]).line_to([0., 0., 1.4])
    elif shape == 'cone':
        p = P.line([0., 0., -0.8], [1.2, 0., -0.2]).line_to([0.5, 0., 1.3]).line_to([0., 0., 1.5])
    if reverse:
        q = p
        p = P(lambda s: q(q.path_length - s), q.path_length, [q.path_length - b for b in q.breakpoints][::-1])
    p.name = 'wall'
    return p


INSIDE = [(0., 0., 0.3), (0.3, 0., 0.6), (-0.1, 0.35, 0.1), (0.2, 0.2, 0.9), (0., -0.4, 0.5)]


def ex_inside(case, rec):
    """A closed surface with a harmonic voltage function has that function as potential inside."""
    E = t.excitation
    shape, harm = case['shape'], case['harm']
    three = shape in ('box', 'ball')
    if three:
        S = t.geometry.Surface
        if shape == 'box':
            s = S.box([-0.9, -0.9, -0.7], [0.9, 1., 1.5])
            s.name = 'wall'
            m = s.mesh(mesh_size=case['size'])
        else:
            s = S.sphere(1.2).move(dz=0.5)
            s.name = 'wall'
            m = s.mesh(mesh_size=case['size'])
        exc = E.Excitation(m, E.Symmetry.THREE_D)
        f = HARM_3[harm]
    else:
        m = closed_radial(shape, case['reverse']).mesh(mesh_size=case['size'], higher_order=case['higher'])
        exc = E.Excitation(m, E.Symmetry.RADIAL)
        f = HARM_R[harm]
    fixed = harm == 'one' and case.get('fixed')
    V = case['V']
    exc.add_voltage(wall=V if fixed else (lambda x, y, z: V * f(x, y, z)))
    field = rec.call('C03/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    rec.state(tuple(sorted(case.items())))
    got = np.array([field.potential_at_point(np.array(p)) for p in INSIDE])
    want = np.array([V * f(*p) for p in INSIDE])
    s = abs(V)
    tol = case['tol']
    rec.check(np.allclose(got, want, rtol=0, atol=tol * s), 'C03/inside-potential', lambda: f'{case}: potential inside is {got}, should be {want}')
    gotE = np.array([field.field_at_point(np.array(p)) for p in INSIDE])
    wantE = np.array([-V * grad(f, p) for p in INSIDE])
    rec.check(np.allclose(gotE, wantE, rtol=0, atol=4 * tol * s), 'C03/inside-field', lambda: f'{case}: field inside is {gotE.tolist()}, should be {wantE.tolist()}')
    rec.trace()


def ex_coated(case, rec):
    """Conducting sphere of radius a with a dielectric coating to radius b (radial geometry)."""
    E, P = t.excitation, t.geometry.Path
    a, b, K, V = case['a'], case['b'], case['K'], case['V']
    core = P.arc([0., 0., 0.], [0., 0., -a], [a, 0., 0.]).arc_to([0., 0., 0.], [0., 0., a])
    coat = P.arc([0., 0., 0.], [0., 0., -b], [b, 0., 0.]).arc_to([0., 0., 0.], [0., 0., b])
    core.name, coat.name = 'core', 'coat'
    n = case['N']
    higher = case['higher']
    ms = [core.mesh(mesh_size=a / n, higher_order=higher), coat.mesh(mesh_size=b / n, higher_order=higher)]
    m = ms[0] + ms[1] if case['order'] == 'core' else ms[1] + ms[0]
    exc = E.Excitation(m, E.Symmetry.RADIAL)
    if case['order'] == 'core':
        exc.add_voltage(core=V)
        exc.add_dielectric(coat=K)
    else:
        exc.add_dielectric(coat=K)
        exc.add_voltage(core=V)
    field = rec.call('C03/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    rec.state(tuple(sorted(case.items())))
    Q = V / ((1 / a - 1 / b) / K + 1 / b)

    def exact(d):
        return V if d <= a else (Q * ((1 / d - 1 / b) / K + 1 / b) if d < b else Q / d)

    def exactE(p):
        d = np.linalg.norm(p)
        return (Q / d**3 / (K if d < b else 1.) if d > a else 0.) * np.array(p)
    pts = [u * np.array(w) / np.linalg.norm(w) for u in (0.4 * a, (a + b) / 2, 0.4 * a + 0.6 * b, 1.4 * b, 3 * b) for w in ((1, 0, 0.3), (0, -1, 1.), (0.2, 0.1, -1))]
    got = np.array([field.potential_at_point(p) for p in pts])
    want = np.array([exact(np.linalg.norm(p)) for p in pts])
    rec.check(np.allclose(got, want, rtol=0, atol=case['tol'] * abs(V)), 'C03/coated', lambda: f'{case}: potential {got.tolist()}, should be {want.tolist()}')
    g, w = np.array([field.field_at_point(p) for p in pts]), np.array([exactE(p) for p in pts])
    rec.check(np.allclose(g, w, rtol=0, atol=case['tol'] * 4 * np.max(np.abs(w))), 'C03/coated-field', lambda: f'{case}: field {g.tolist()}, should be {w.tolist()}')
    rec.trace()


def ex_plates(case, rec):
    """Two plates closed by a boundary: the potential is linear."""
    E = t.excitation
    V, W = case['V']
    if case['symmetry'] == 'radial':
        P = t.geometry.Path
        lo = P.line([0., 0., 0.], [1., 0., 0.])
        side = P.line([1., 0., 0.], [1., 0., 1.5])
        hi = P.line([1., 0., 1.5], [0., 0., 1.5])
        lo.name, side.name, hi.name = 'lo', 'side', 'hi'
        parts = [lo, side, hi]
        m = None
        for i in case['perm']:
            p = parts[i].mesh(mesh_size=case['size'], higher_order=case['higher'])
            m = p if m is None else m + p
        exc = E.Excitation(m, E.Symmetry.RADIAL)
    else:
        S = t.geometry.Surface
        x = case['axis']
        h, m = 0.5, None
        for i, make in enumerate((S.rectangle_yz, S.rectangle_xz, S.rectangle_xy)):
            for side in (-h, h):
                f = make(-h, h, -h, h).move(**{'d' + 'xyz'[i]: side})
                f.name = 'side' if i != x else 'lo' if side < 0 else 'hi'
                p = f.mesh(mesh_size=case['size'])
                m = p if m is None else m + p
        exc = E.Excitation(m, E.Symmetry.THREE_D)
    exc.add_voltage(lo=V, hi=W)
    exc.add_electrostatic_boundary('side')
    field = rec.call('C03/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    rec.state(str(sorted(case.items())))
    if case['symmetry'] == 'radial':
        pts = [(0., 0., 0.4), (0.3, 0., 0.75), (-0.2, 0.4, 1.1), (0.6, 0.1, 0.5)]
        u = [p[2] / 1.5 for p in pts]
        E0 = np.array([0, 0, -(W - V) / 1.5])
    else:
        pts = [(0., 0.1, 0.2), (0.25, 0., -0.1), (-0.2, 0.2, 0.1), (0.1, -0.2, -0.25)]
        u = [p[x] + 0.5 for p in pts]
        E0 = -(W - V) * np.eye(3)[x]
    got = np.array([field.potential_at_point(np.array(p)) for p in pts])
    want = np.array([V + (W - V) * q for q in u])
    s = max(abs(V), abs(W))
    rec.check(np.allclose(got, want, rtol=0, atol=case['tol'] * s), 'C03/plates', lambda: f'{case}: potential {got}, should be {want}')
    g = np.array([field.field_at_point(np.array(p)) for p in pts])
    rec.check(np.allclose(g, E0, rtol=0, atol=4 * case['tol'] * s), 'C03/plates-field', lambda: f'{case}: field {g.tolist()}, should be {E0}')
    rec.trace()


def cases(tier, seed):
    out = []
    full = tier == 'thorough'
    for name in LAYOUTS:
        for a in range(len(ALPHABET)):
            if full:
                out += [dict(kind='assign', layout=name, first=[a, b], second='full') for b in range(len(ALPHABET))]
            else:
                out.append(dict(kind='assign', layout=name, first=[a], second='reduced'))
    for shape in ('sphere', 'cylinder', 'cone'):
        for reverse in (False, True):
            for harm in HARM_R:
                for higher in ((True, False) if full or harm == 'z' else (True,)):
                    out.append(dict(kind='inside', shape=shape, reverse=reverse, harm=harm, higher=higher, size=0.08 if not full else 0.04, V=-7., fixed=reverse, tol=4e-4 if higher else 1e-3))
    for shape in ('box', 'ball'):
        for harm in HARM_3:
            out.append(dict(kind='inside', shape=shape, harm=harm, size=0.32 if not full else 0.2, V=5., fixed=True, tol=4e-3))
    for order, K, (a, b), higher in itertools.product(('core', 'coat'), (1., 2., 10, 0.5), ((0.5, 1.), (1., 1.3)), (True, False)):
        out.append(dict(kind='coated', order=order, K=K, a=a, b=b, V=-3. if order == 'core' else 12, N=20 if not full else 50, higher=higher, tol=4e-4 if higher else 1e-2))
    for perm in itertools.permutations(range(3)):
        for higher in (True, False):
            for V in ((0., 5.), (-2, 3.)):
                out.append(dict(kind='plates', symmetry='radial', perm=list(perm), higher=higher, V=V, size=0.07 if not full else 0.035, tol=4e-4 if higher else 1e-3))
    for axis in range(3):
        out.append(dict(kind='plates', symmetry='3d', axis=axis, V=(-2, 3.), size=0.18 if not full else 0.1, tol=4e-3))
    return out


def run(case, rec):
    kind = case['kind']
    if kind == 'assign':
        lead = [ALPHABET[i] for i in case['first']]
        A = ALPHABET if case['second'] == 'full' else None
        rest = 4 - len(lead)
        if A is not None:
            tails = itertools.product(A, repeat=rest)
        else:
            # all assignments over a smaller alphabet for the other groups
            tails = itertools.product([None, ('V', -2.5), ('F',), ('D', 4), ('B',)], repeat=rest)
        for tail in tails:
            judge(case['layout'], tuple(zip('abcd', lead + list(tail))), rec)
    elif kind == 'inside':
        ex_inside(case, rec)
    elif kind == 'coated':
        ex_coated(case, rec)
    else:
        ex_plates(case, rec)
