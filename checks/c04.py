"""Magnetostatic excitations are honoured, alone and together with electric ones: every assignment to the groups and coils of small meshes against an
independent reference solution (collocation with the reference kernels, Biot-Savart for the coils), and known solutions."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C04'
RULE = ('State: (mesh layout, assignment of an electric or magnetic excitation or none to every group, current or none to every coil), or (geometry, values) for '
        'the analytic cases. Non-trivial: at least one source. All assignments of the alphabet are executed.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, c03
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    import importlib.util
    spec = importlib.util.spec_from_file_location('c03', os.path.join(vlib.VERIF, 'checks', 'c03.py'))
    c03 = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(c03)
    c03.t = t


MAG = [None, ('P', 5), ('P', -2.5), ('P', 0.), ('M', 4), ('M', 0.5), ('N',)]
BOTH = [None, ('P', -2.5), ('M', 50), ('N',), ('V', 7), ('D', 3.), ('B',)]
COILS = [None, 3., -2]
TRIS = [('coil', ((2., 3.), (2.5, 3.), (2., 3.5))), ('coil2', ((3.8, 1.), (4.2, 1.), (4., 1.4))), ('coil', ((2.5, 3.), (2.6, 3.5), (2., 3.5))), (None, ((6., 0.), (7., 0.), (6., 2.))),
        ('coil3', ((5., 5.), (5.5, 5.), (5.2, 5.5))), ('coil2', ((3.8, 2.), (4.2, 2.), (4., 2.9)))]
PROBES, PROBES3 = [(0.1, 0., 0.2), (0.05, -0.2, 0.7), (0., 0., -0.5), (-1.8, 0.4, 0.8), (0., 0.1, 2.6)], [(0.3, -2., 0.8), (2., -1.5, 0.5), (0.4, 0.5, 3.5), (-4., 2., 1.)]


def layout(name, coils):
    E = t.excitation
    if name in ('straight', 'straight4'):
        segs = [(None, (3., 0.), (3., 0.4)), ('a', (1., 0.), (1., 0.4)), ('b', (1.2, 0.6), (1.2, 1.)), ('a', (0.3, 1.3), (0.8, 1.35)), ('c', (0.7, -0.5), (1.1, -0.4)),
                (None, (2., 2.), (2.4, 2.)), ('c', (1.5, 1.4), (1.6, 1.9))]
        if name == 'straight4':
            segs = segs[::-1]
        return pr.line_mesh(t, segs, higher=name == 'straight4', tris=TRIS if coils else None), E.Symmetry.RADIAL
    return c03.layout(name)


_kern = {}


class Kernel:
    def __init__(self, mesh, three):
        self.three = three
        els = mesh.points[mesh.triangles if three else mesh.lines]
        k = c03.Kernel(els, three)
        self.P, self.F, self.c, self.nrm = k.P, k.F, k.c, k.nrm
        self.probes = np.array(PROBES3 if three else PROBES)
        self.PP, self.PE = np.zeros((len(self.probes), len(els))), np.zeros((len(self.probes), 3, len(els)))
        for a, q in enumerate(self.probes):
            for b, e in enumerate(els):
                if three:
                    self.PP[a, b], self.PE[a, :, b] = ref.tri_pot_E(e, q)
                else:
                    r = np.hypot(q[0], q[1])
                    self.PP[a, b] = ref.line_pot(e, (r, q[2]))
                    Er, Ez = ref.line_E(e, (r, q[2]))
                    self.PE[a, :, b] = [q[0] / r * Er if r else 0., q[1] / r * Er if r else 0., Ez]
        # coils of unit current, at the probes and at the centres
        self.coil, self.coilc = {}, {}
        if not three and len(mesh.triangles):
            for n, ix in mesh.physical_to_triangles.items():
                tris = [mesh.points[x][:, [0, 2]] for x in mesh.triangles[ix]]
                tris = [np.insert(x, 1, 0., axis=1) for x in tris]
                density = 1 / sum(ref.tri_area(x) for x in tris)
                self.coil[n] = np.array([ref.coil_H(tris, density, q) for q in self.probes])
                self.coilc[n] = np.array([ref.coil_H(tris, density, q) for q in self.c])


def kernel(name, coils):
    if (name, coils) not in _kern:
        m, sym = layout(name, coils)
        _kern[name, coils] = Kernel(m, sym == t.excitation.Symmetry.THREE_D)
    return _kern[name, coils]


def excite(name, coils, ass, currents):
    m, sym = layout(name, coils)
    e = t.excitation.Excitation(m, sym)
    todo = list(ass) + [(n, ('I', x)) for n, x in currents if x is not None]
    if sum(hash_(x) for _, x in todo) % 2:
        todo = todo[::-1]
    for n, x in todo:
        if x is None:
            continue
        if x[0] == 'N':
            _quiet(lambda: e.add_magnetostatic_boundary(n))
        elif x[0] == 'B':
            e.add_electrostatic_boundary(n)
        else:
            {'P': e.add_magnetostatic_potential, 'M': e.add_magnetizable, 'V': e.add_voltage, 'D': e.add_dielectric, 'I': e.add_current}[x[0]](**{n: x[1]})
    return e


def hash_(x):
    return 0 if x is None else ord(x[0][0]) + (int(2 * x[1]) if len(x) > 1 else 0)


def reference(k, group, els, kinds, fixed, material, boundary, Hc):
    """Charges on the elements for one of the two problems."""
    act = [i for i in range(len(els)) if group[i] in kinds and kinds[group[i]][0] in (fixed, material, boundary)]
    sigma = np.zeros(len(els))
    if not act:
        return sigma
    A, b = [], []
    for i in act:
        x = kinds[group[i]]
        if x[0] == fixed:
            A.append(k.P[i, act])
            b.append(x[1])
        else:
            K = x[1] if x[0] == material else 0.
            n = ref.tri_normal(els[i]) if k.three else ref.line_normal(els[i])
            s = np.sign(n @ k.nrm[i])
            # outside = K * inside, with the average of both known from the kernels
            row = (1 - K) * s * k.F[i, act]
            row[act.index(i)] += (1 + K) / 2
            A.append(row)
            nn = n if k.three else np.array([n[0], 0., n[1]])
            b.append(-(1 - K) * nn @ Hc[i])
    sigma[act] = np.linalg.solve(np.array(A), np.array(b))
    return sigma


def judge(name, coils, ass, currents, rec):
    kinds = {n: x for n, x in ass if x is not None}
    cur = {n: x for n, x in currents if x is not None}
    elec = any(x[0] == 'V' for x in kinds.values())
    mag = bool(cur) or any(x[0] == 'P' for x in kinds.values())
    if not (elec or mag):
        return
    k = kernel(name, coils)
    where = f'{name} {dict(kinds)} {cur}'
    rec.state((name, tuple(ass), tuple(currents)))
    exc = excite(name, coils, ass, currents)
    # what the boundaries did to the mesh counts, nothing else may have changed it
    field = rec.call('C04/solve', lambda: _quiet(lambda: t.solver.solve_direct(exc)))
    rec.step()
    m = exc.mesh
    physical = m.physical_to_triangles if k.three else m.physical_to_lines
    els = m.points[m.triangles if k.three else m.lines]
    group = [next((n for n, ix in physical.items() if i in ix), None) for i in range(len(els))]
    Hc = sum((x * k.coilc[n] for n, x in cur.items()), np.zeros((len(els), 3)))
    sm = reference(k, group, els, kinds, 'P', 'M', 'N', Hc)
    se = reference(k, group, els, kinds, 'V', 'D', 'B', np.zeros((len(els), 3)))
    want = dict(mp=k.PP @ sm, mh=k.PE @ sm + sum((x * k.coil[n] for n, x in cur.items()), np.zeros((len(k.probes), 3))), ep=k.PP @ se, ee=k.PE @ se)
    get = dict(mp=field.magnetostatic_potential_at_point, mh=field.magnetostatic_field_at_point, ep=field.electrostatic_potential_at_point, ee=field.electrostatic_field_at_point)
    text = dict(mp='magnetostatic potential', mh='magnetic field', ep='electrostatic potential', ee='electric field')
    for q in want:
        got = np.array([rec.call('C04/evaluate', lambda: get[q](np.array(p))) for p in k.probes])
        s = max(np.max(np.abs(want[q])), np.max(np.abs(sm if q[0] == 'm' else se)) * 0.1, 1e-3)
        tol = (2e-4 if k.three else 1e-5) * s
        rec.check(got.shape == want[q].shape and np.allclose(got, want[q], rtol=0, atol=tol), 'C04/' + text[q].replace(' ', '-'),
                  lambda: f'{where}: {text[q]} at {k.probes.tolist()} is {got.tolist()}, reference {want[q].tolist()}')
    rec.check(field.is_electrostatic() == bool(elec) and field.is_magnetostatic() == bool(mag), 'C04/kind', lambda: f'{where}: is_electrostatic {field.is_electrostatic()}, is_magnetostatic {field.is_magnetostatic()}')
    rec.outcome(np.round(np.concatenate([sm, se]), 6).tobytes())
    rec.trace()


def _quiet(f):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


# ---------------------------------------------------------------------------------------- known solutions

def coil_mesh(shape, size, name):
    S = t.geometry.Surface
    if shape == 'square':
        s = S.rectangle_xz(1., 1.5, -0.25, 0.25)
    elif shape == 'tall':
        s = S.rectangle_xz(0.8, 0.9, -1., 1.)
    elif shape == 'wide':
        s = S.rectangle_xz(0.5, 2.5, 0.3, 0.5)
    else:
        s = S.disk_xz(2., 0.2, 0.5)
    s.name = name
    return s, s.mesh(mesh_size=size)


AREA = dict(square=0.25, tall=0.2, wide=0.4, disk=np.pi / 4)


def ex_coil(case, rec):
    """A coil and a second one somewhere else, meshed in different ways."""
    E = t.excitation
    s, m = coil_mesh(case['shape'], case['size'], 'one')
    s2, m2 = coil_mesh(case['shape2'], case['size2'], 'two')
    m2 = m2.move(dz=3.)
    mesh = m + m2 if case['order'] else m2 + m
    exc = E.Excitation(mesh, E.Symmetry.RADIAL)
    I, J = case['I']
    if I is not None:
        exc.add_current(one=I)
    if J is not None:
        exc.add_current(two=J)
    field = rec.call('C04/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    rec.state(str(sorted(case.items())))

    def H(shape, dz, p):
        p = np.array([p[0], p[1], p[2] - dz])
        r0 = np.hypot(p[0], p[1])
        if shape == 'disk':
            # polar quadrature
            u, w = np.polynomial.legendre.leggauss(24)
            u, w = (u + 1) / 4, w / 4
            th = 2 * np.pi * np.arange(48) / 48
            R, T = np.meshgrid(u, th, indexing='ij')
            W = (w * u)[:, None] * np.full(48, 2 * np.pi / 48) / AREA['disk']
            a, b = ref.loop_H(r0, p[2], 2. + R * np.cos(T), 0.2 + R * np.sin(T))
            Hr, Hz = np.sum(W * a), np.sum(W * b)
        else:
            x0, x1, z0, z1 = dict(square=(1., 1.5, -0.25, 0.25), tall=(0.8, 0.9, -1., 1.), wide=(0.5, 2.5, 0.3, 0.5))[shape]
            u, w = np.polynomial.legendre.leggauss(40)
            X, Z = np.meshgrid(x0 + (u + 1) / 2 * (x1 - x0), z0 + (u + 1) / 2 * (z1 - z0), indexing='ij')
            W = np.outer(w, w) / 4
            a, b = ref.loop_H(r0, p[2], X, Z)
            Hr, Hz = np.sum(W * a), np.sum(W * b)
        return np.array([p[0] / r0 * Hr, p[1] / r0 * Hr, Hz]) if r0 else np.array([0., 0., Hz])
    pts = [(0., 0., 0.), (0., 0., 2.), (0.2, 0.1, 1.3), (-0.3, 0., -0.4), (0., 4., 1.), (3., 3., 5.)]
    want = np.array([(I or 0) * H(case['shape'], 0., p) + (J or 0) * H(case['shape2'], 3., p) for p in pts])
    got = np.array([field.magnetostatic_field_at_point(np.array(p)) for p in pts])
    s = np.max(np.abs(want))
    # the disk is meshed with straight edges
    tol = (6e-3 if 'disk' in (case['shape'], case['shape2']) else 2e-4) * s
    rec.check(np.allclose(got, want, rtol=0, atol=tol), 'C04/coil', lambda: f'{case}: magnetic field at {pts} is {got.tolist()}, Biot-Savart {want.tolist()}')
    rec.trace()


def ex_sphere(case, rec):
    """Magnetizable sphere in the field of a large coil."""
    E, P = t.excitation, t.geometry.Path
    K, dz = case['K'], case['dz']
    p = P.arc([0., 0., dz], [0., 0., dz - 1.], [1., 0., dz]).arc_to([0., 0., dz], [0., 0., dz + 1.])
    p.name = 'ball'
    s = t.geometry.Surface.rectangle_xz(60., 60.5, dz - .25, dz + .25)
    s.name = 'coil'
    m = [p.mesh(mesh_size=case['size'], higher_order=case['higher']), s.mesh(mesh_size=0.3)]
    exc = E.Excitation(m[0] + m[1] if case['order'] else m[1] + m[0], E.Symmetry.RADIAL)
    if case['order']:
        exc.add_current(coil=case['I'])
        exc.add_magnetizable(ball=K)
    else:
        exc.add_magnetizable(ball=K)
        exc.add_current(coil=case['I'])
    field = rec.call('C04/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    rec.state(str(sorted(case.items())))
    H0 = case['I'] / (2 * 60.25)

    def exact(q):
        q = np.array(q) - [0, 0, dz]
        d = np.linalg.norm(q)
        if d < 1:
            return np.array([0, 0, 3 / (K + 2) * H0])
        c = (K - 1) / (K + 2) * H0
        return np.array([0, 0, H0]) + c * (3 * q[2] * q / d**5 - np.array([0, 0, 1]) / d**3)
    pts = [np.array(x) + [0, 0, dz] for x in ((0., 0., 0.), (0.3, 0.2, 0.4), (0., 0., 1.8), (1.5, 0.5, 0.3), (0., -1.2, -1.2))]
    got, want = np.array([field.magnetostatic_field_at_point(q) for q in pts]), np.array([exact(q) for q in pts])
    rec.check(np.allclose(got, want, rtol=0, atol=case['tol'] * abs(H0)), 'C04/sphere', lambda: f'{case}: magnetic field {got.tolist()}, should be {want.tolist()}')
    rec.trace()


def ex_plates(case, rec):
    """Two pole faces closed by a boundary: the potential is linear."""
    E, P = t.excitation, t.geometry.Path
    V, W = case['V']
    parts = [P.line([0., 0., 0.], [1., 0., 0.]), P.line([1., 0., 0.], [1., 0., 1.5]), P.line([1., 0., 1.5], [0., 0., 1.5])]
    m = None
    for i in case['perm']:
        parts[i].name = ('lo', 'side', 'hi')[i]
        p = parts[i].mesh(mesh_size=0.07, higher_order=case['higher'])
        m = p if m is None else m + p
    exc = E.Excitation(m, E.Symmetry.RADIAL)
    exc.add_magnetostatic_potential(lo=V, hi=W)
    _quiet(lambda: exc.add_magnetostatic_boundary('side'))
    field = rec.call('C04/solve', lambda: t.solver.solve_direct(exc))
    rec.step()
    rec.state(str(sorted(case.items())))
    pts = [(0., 0., 0.4), (0.3, 0., 0.75), (-0.2, 0.4, 1.1), (0.6, 0.1, 0.5)]
    want = np.array([V + (W - V) * p[2] / 1.5 for p in pts])
    got = np.array([field.potential_at_point(np.array(p)) for p in pts])
    s = max(abs(V), abs(W))
    rec.check(np.allclose(got, want, rtol=0, atol=1e-3 * s), 'C04/plates', lambda: f'{case}: potential {got}, should be {want}')
    g = np.array([field.field_at_point(np.array(p)) for p in pts])
    rec.check(np.allclose(g, [0, 0, -(W - V) / 1.5], rtol=0, atol=4e-3 * s), 'C04/plates-field', lambda: f'{case}: field {g.tolist()}')
    rec.trace()


def cases(tier, seed):
    out = []
    full = tier == 'thorough'
    for name in ('straight', 'straight4'):
        for a in range(len(MAG)):
            out.append(dict(kind='assign', layout=name, alphabet='mag', first=a))
        for a in range(len(BOTH)):
            out.append(dict(kind='assign', layout=name, alphabet='both', first=a))
    for name in ('curved4', 'solid'):
        for a in range(len(MAG)):
            out.append(dict(kind='assign', layout=name, alphabet='mag', first=a))
        for a in range(len(BOTH)):
            out.append(dict(kind='assign', layout=name, alphabet='both', first=a))
    shapes = ['square', 'tall', 'wide', 'disk']
    for shape, size in itertools.product(shapes, (0.3, 0.1)):
        for shape2 in (shapes if full else shapes[:2]):
            for order in (0, 1):
                for I in ((5., None), (None, -2), (3, 4.), (0.5, 0)):
                    out.append(dict(kind='coil', shape=shape, size=size, shape2=shape2, size2=0.2, order=order, I=I))
    for K, dz, higher, order in itertools.product((1., 3., 200, 0.2), (0., -2.), (True, False), (0, 1)):
        out.append(dict(kind='sphere', K=K, dz=dz, I=100., higher=higher, order=order, size=0.05, tol=3e-3 if higher else 3e-2))
    for perm in itertools.permutations(range(3)):
        for higher in (True, False):
            out.append(dict(kind='plates', perm=list(perm), higher=higher, V=(-2, 3.)))
    return out


def run(case, rec):
    if case['kind'] == 'assign':
        A = MAG if case['alphabet'] == 'mag' else BOTH
        name = case['layout']
        radial = name in ('straight', 'straight4')
        names = ['a', 'b', 'c'] if radial else ['a', 'b', 'c', 'd']
        other = A if radial else [x for x in A if x not in (('P', 0.), ('M', 0.5))]
        for tail in itertools.product(other, repeat=len(names) - 1):
            ass = tuple(zip(names, (A[case['first']],) + tail))
            if radial:
                for cur in itertools.product(COILS, repeat=2):
                    if cur != (None, None) and case['alphabet'] == 'mag' and sum(hash_(x) for _, x in ass) % 3:
                        # the coils enter linearly: one non-trivial pair for every assignment, all pairs for a third of them
                        if cur != (3., -2):
                            continue
                    judge(name, True, ass, tuple(zip(('coil', 'coil2'), cur)), rec)
            else:
                judge(name, False, ass, (), rec)
    else:
        dict(coil=ex_coil, sphere=ex_sphere, plates=ex_plates)[case['kind']](case, rec)
