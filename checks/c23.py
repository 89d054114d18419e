"""Charges and currents add up: every assignment of excitations to groups that lie in the cells of a grid, every union of cells as a closed surface: charge_on_elements equals the
flux of the computed field (Gauss), the circulation of H equals the enclosed current (Ampere), areas, and capacitances of spheres and concentric spheres."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C23'
RULE = ('State: (layout, excitation per group, form of the mesh, way of combining the fields, subset of groups or rectangle of cells) or (coil layout, currents, materials, cell) or (capacitor, radii, mesh). '
        'Assignments, subsets and rectangles are complete. Trivial: assignments without a source (not executed).')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, DEEP
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    DEEP = tier != 'quick'


# ---- radial: cells [i, i+1] x [j-1.5, j-.5]
R, Z = np.arange(4.), np.arange(4.) - 1.5
CELLS = [(i, j) for i in range(3) for j in range(3)]
GX, GW = np.polynomial.legendre.leggauss(40)
GX, GW = (GX + 1) / 2, GW / 2


def edges(f):
    """f(p) -> (in-plane vector, weighted by what has to be integrated): integrals over the edges of the grid, along r and along z."""
    H, V = np.zeros((3, 4, 2)), np.zeros((4, 3, 2))
    for i, j in itertools.product(range(3), range(4)):
        H[i, j] = sum(w * f(R[i] + x, Z[j]) for x, w in zip(GX, GW))
    for i, j in itertools.product(range(4), range(3)):
        V[i, j] = sum(w * f(R[i], Z[j] + x) for x, w in zip(GX, GW))
    return H, V


def rect_flux(H, V, c):
    i, j = c
    return H[i, j + 1][1] - H[i, j][1] + V[i + 1, j][0] - V[i, j][0]


def rect_circulation(H, V, c):
    i, j = c
    return H[i, j][0] + V[i + 1, j][1] - H[i, j + 1][0] - V[i, j][1]


def azimuth(r, z):
    """A plane through the axis other than y = 0, which depends on the point."""
    return 1.1 * z + .7 * r


def plane(field, r, z):
    a = azimuth(r, z)
    v = field(np.array([r * np.cos(a), r * np.sin(a), z]))
    return np.array([v[0] * np.cos(a) + v[1] * np.sin(a), v[2]])


RADIAL = {
    # every group in cells of its own; a in two cells
    'ring': [('a', (.5, (0, 0))), ('b', (1, (1, 1))), ('c', (2, (2, 0))), ('d', (3, (1, 2))), ('a', (4, (2, 2))), ('c', (0, (2, 0))), (None, (1, (0, 2)))],
    'axis': [('a', ('disc', (0, 1))), ('b', (1, (0, 2))), ('c', ('box', (1, 0))), ('d', (2, (2, 2))), ('b', ('disc', (0, 2)))],
    'wide': [('d', (4, (0, 0))), ('c', (3, (0, 1))), ('b', ('box', (1, 1))), ('a', ('box', (2, 2)))]}


def shape(kind, cell):
    x, y = R[cell[0]], Z[cell[1]]
    p = {.5: [((.3, .2), (.3, .7))], 1: [((.2, .3), (.8, .5))], 2: [((.7, .8), (.3, .8))], 3: [((.5, .2), (.5, .5)), ((.5, .5), (.7, .8))], 4: [((.8, .2), (.2, .3))], 0: [((.3, .2), (.6, .25))],
         'disc': [((0., .6), (.7, .6))], 'box': [((.2, .2), (.8, .2)), ((.8, .2), (.8, .7)), ((.8, .7), (.2, .8)), ((.2, .8), (.2, .2))]}[kind]
    return [((x + a, y + b), (x + c, y + d)) for (a, b), (c, d) in p]


def radial_mesh(layout, higher, scale=1., tris=None, prefix=''):
    segs = [(n and prefix + n, a, b) for n, (k, c) in RADIAL[layout] for a, b in shape(k, c)]
    m = pr.line_mesh(t, segs, higher in (True, 'curved'), tris)
    if higher == 'curved':          # a smooth map of the plane that keeps the cells
        p = m.points
        s = np.sin(2 * np.pi * p[:, 0]) * np.sin(2 * np.pi * (p[:, 2] + .5)) * np.isin(np.arange(len(p)), m.lines)
        m = t.mesher.Mesh(points=np.array([p[:, 0] + .05 * s, 0 * s, p[:, 2] - .06 * s]).T, lines=m.lines, physical_to_lines=m.physical_to_lines, triangles=m.triangles, physical_to_triangles=m.physical_to_triangles, ensure_outward_normals=False)
    return m.map_points(lambda q: scale * q) if scale != 1. else m


def cells_of(layout):
    out = {}
    for n, (_, c) in RADIAL[layout]:
        if n:
            out.setdefault(n, set()).add(c)
    return out


def fun(x, y, z):
    return 1. + x - .7 * z


def electric(e, exc, values='abcd'):
    val = dict(zip('abcd', (3., -1., 40., .4)))
    for g, k in exc.items():
        v = val[g]
        if k == 'V':
            e.add_voltage(**{g: v})
        elif k == 'F':
            e.add_voltage(**{g: fun})
        elif k == 'D':
            e.add_dielectric(**{g: abs(v) + .2})
        elif k == 'B':
            e.add_electrostatic_boundary(g)
    return e


def index_forms(ix):
    ix = [int(i) for i in ix]
    return [ix, np.array(ix, dtype=int), tuple(ix[::-1]), iter(ix)]


def subsets(names):
    return itertools.chain.from_iterable(itertools.combinations(names, n) for n in range(len(names) + 1))


def run_radial(layout, higher, first, scale, rec):
    S, E = t.solver, t.excitation
    where = cells_of(layout)
    for rest in itertools.product(('', 'V', 'F', 'D', 'B'), repeat=3):
        exc = {g: k for g, k in zip('abcd', (first, *rest)) if k}
        if not set(exc.values()) & set('VF') or (not DEEP and sum(k in 'FB' for k in rest) > 1):
            continue
        key = 'C23/gauss'
        e = electric(E.Excitation(radial_mesh(layout, higher, scale), E.Symmetry.RADIAL), exc)
        f = rec.call(key, lambda: S.solve_direct(e))
        if f is None:
            continue
        H, V = edges(lambda r, z: 2 * np.pi * r * scale**2 * plane(f.electrostatic_field_at_point, scale * r, scale * z))
        size = max(np.max(np.abs(H)), np.max(np.abs(V)))
        names = rec.call(key, lambda: e.get_electrostatic_active_elements())[1]
        rec.check(set(names) == set(exc), key, lambda: f'{exc}: active groups {set(names)}')
        flux = {g: sum(rect_flux(H, V, c) for c in where[g]) for g in where}
        for g in where:
            if g not in exc:
                rec.check(abs(flux[g]) <= 1e-7 * size, key, lambda: f'{exc}: the flux out of the cells of {g}, which has no excitation, is {flux[g]} of {size}')
        for k, sub in enumerate(subsets(sorted(exc))):
            ix = np.concatenate([names[g] for g in sub]).astype(int) if sub else []
            q = rec.call(key, lambda: f.charge_on_elements(index_forms(ix)[k % 4]))
            w = sum(flux[g] for g in sub)
            rec.state((layout, higher, scale, tuple(exc.items()), sub))
            rec.step()
            rec.check(q is not None and abs(q - w) <= 1e-7 * size, key, lambda: f'layout {layout} (higher order {higher}, scale {scale}), {exc}: charge of {sub} is {q}, the flux around it is {w}')
        # rectangles of cells
        for i0, i1, j0, j1 in itertools.product(range(3), range(1, 4), range(3), range(1, 4)):
            if i0 < i1 and j0 < j1:
                inside = {(i, j) for i in range(i0, i1) for j in range(j0, j1)}
                groups = [g for g in exc if where[g] <= inside]
                if any(where[g] & inside and g not in groups for g in exc):
                    continue
                w = sum(rect_flux(H, V, c) for c in inside)
                q = sum(f.charge_on_element(int(i)) for g in groups for i in names[g])
                rec.state((layout, higher, scale, tuple(exc.items()), (i0, i1, j0, j1)))
                rec.check(abs(q - w) <= 1e-7 * size, key, lambda: f'{exc}: charge of {groups} is {q}, the flux out of the rectangle of cells {(i0, i1, j0, j1)} is {w}')
        # areas
        els = f.electrostatic_point_charges
        if higher != 'curved':
            act = e.get_electrostatic_active_elements()[0]
            for i, el in enumerate(act):
                a, b = el[0], el[1]
                w = np.pi * (a[0] + b[0]) * np.linalg.norm(b - a)
                rec.check(np.isclose(f.area_of_element(i), w, rtol=1e-8), 'C23/area', lambda: f'area of the element {a} - {b} is {f.area_of_element(i)}, should be {w}')
            rec.check(np.isclose(f.area_of_elements(range(len(act))), sum(np.pi * (q[0][0] + q[1][0]) * np.linalg.norm(q[1] - q[0]) for q in act), rtol=1e-8), 'C23/area', 'sum of the areas')
        rec.outcome(tuple(sorted((g, round(float(v), 6)) for g, v in flux.items())))


def run_combine(layout, higher, rec):
    """Charges of sums, differences, multiples and superpositions of fields."""
    S, E = t.solver, t.excitation
    exc = {'a': 'V', 'b': 'V', 'c': 'D', 'd': 'V'}
    where = cells_of(layout)
    for part in (('a',), ('a', 'b'), ('b', 'd'), ('a', 'b', 'd')):
        e = electric(E.Excitation(radial_mesh(layout, higher), E.Symmetry.RADIAL), {g: k for g, k in exc.items() if g in part or k == 'D'})
        names = e.get_electrostatic_active_elements()[1]
        key = 'C23/combined'
        parts = rec.call(key, lambda: S.solve_direct_superposition(e))
        whole = rec.call(key, lambda: S.solve_direct(e))
        # the other field has other elements
        other = {'ring': 'axis', 'axis': 'wide', 'wide': 'ring'}[layout]
        e2 = electric(E.Excitation(radial_mesh(other, higher), E.Symmetry.RADIAL), {'a': 'V', 'b': 'D'})
        g = rec.call(key, lambda: S.solve_direct(e2))
        n2 = e2.get_electrostatic_active_elements()[1]
        val = dict(zip('abcd', (3., -1., 40., .4)))
        pool = {'superposition': (lambda: sum((val[n] * parts[n] for n in part[1:]), val[part[0]] * parts[part[0]]), 1., 0.), 'twice': (lambda: 2 * whole, 2., 0.), 'minus': (lambda: -whole, -1., 0.), 'difference': (lambda: 3 * whole - whole, 2., 0.),
                'sum': (lambda: whole + g, 1., 1.), 'sum-swapped': (lambda: g + whole, 1., 1.), 'mixed': (lambda: 2 * whole - .5 * g, 2., -.5), 'thrice': (lambda: whole + g + whole, 2., 1.)}
        wc = where
        for name, (make, x, y) in pool.items():
            f = rec.call(key, make)
            if f is None:
                continue
            H, V = edges(lambda r, z: 2 * np.pi * r * plane(f.electrostatic_field_at_point, r, z))
            size = max(np.max(np.abs(H)), np.max(np.abs(V)))
            n = len(f.electrostatic_point_charges.charges)
            rec.state((layout, higher, part, name))
            total, w = f.charge_on_elements(range(n)), sum(rect_flux(H, V, c) for c in CELLS)
            rec.check(abs(total - w) <= 1e-7 * size, key, lambda: f'{name}: the charges of all elements add up to {total}, the flux around everything is {w}')
            if n == len(whole.electrostatic_point_charges.charges):
                for q in names:
                    c, w = f.charge_on_elements(names[q]), sum(rect_flux(H, V, c) for c in where[q])
                    rec.check(abs(c - w) <= 1e-7 * size, key, lambda: f'{name}: charge of {q} {c}, flux {w}')
                    ww = x * whole.charge_on_elements(names[q])
                    rec.check(abs(c - ww) <= 1e-7 * size, key, lambda: f'{name}: charge of {q} {c}, should be {ww}')
            else:
                # the elements of both operands
                w = x * whole.charge_on_elements(range(len(whole.electrostatic_point_charges.charges))) + y * g.charge_on_elements(range(len(g.electrostatic_point_charges.charges)))
                rec.check(abs(total - w) <= 1e-7 * size, key, lambda: f'{name}: total charge {total}, should be {w}')
            rec.step()
        rec.outcome(('combined', layout, part))


# ---- three dimensional: cells [i, i+1] x [j, j+1] x [k, k+1], 2 in each direction
TRI3 = {'a': [((0, 0, 0), ((.2, .2, .3), (.8, .2, .3), (.2, .8, .5)))], 'b': [((1, 0, 0), ((.2, .3, .2), (.3, .8, .8), (.8, .5, .4))), ((1, 0, 0), ((.7, .2, .2), (.8, .7, .3), (.8, .2, .8)))],
        'c': [((0, 1, 1), ((.2, .2, .2), (.8, .2, .2), (.2, .8, .2))), ((0, 1, 1), ((.2, .2, .2), (.2, .2, .8), (.8, .2, .2))), ((0, 1, 1), ((.2, .2, .2), (.2, .8, .2), (.2, .2, .8))), ((0, 1, 1), ((.8, .2, .2), (.2, .2, .8), (.2, .8, .2)))],
        'd': [((1, 1, 0), ((.5, .5, .2), (.5, .8, .8), (.5, .2, .8))), ((1, 0, 1), ((.4, .4, .5), (.6, .4, .5), (.4, .8, .5)))]}
X2, W2 = np.polynomial.legendre.leggauss(14)
X2, W2 = (X2 + 1) / 2, W2 / 2


def run_three(first, magnetic, rec):
    S, E = t.solver, t.excitation
    key = 'C23/gauss-3d'
    kinds = ('', 'P', 'M', 'N') if magnetic else ('', 'V', 'F', 'D', 'B')
    for rest in itertools.product(kinds, repeat=3):
        exc = {g: k for g, k in zip('abcd', (first, *rest)) if k}
        if not set(exc.values()) & set('VFP') or (not DEEP and sum(k in 'FBDMN' for k in rest) > 1):
            continue
        tris = [(g, [np.array(c) + p for p in tri]) for g in 'dacb' for c, tri in TRI3[g]] + [(None, [np.array((1.2, 1.2, 1.2)), np.array((1.8, 1.2, 1.2)), np.array((1.2, 1.8, 1.5))])]
        e = E.Excitation(pr.tri_mesh(t, tris), E.Symmetry.THREE_D)
        if magnetic:
            val = dict(zip('abcd', (3., -1., 40., .4)))
            for g, k in exc.items():
                e.add_magnetostatic_potential(**{g: val[g]}) if k == 'P' else e.add_magnetizable(**{g: abs(val[g]) + .2}) if k == 'M' else e.add_magnetostatic_boundary(g)
        else:
            electric(e, exc)
        f = rec.call(key, lambda: S.solve_direct(e))
        if f is None:
            continue
        field = f.magnetostatic_field_at_point if magnetic else f.electrostatic_field_at_point
        names = (e.get_magnetostatic_active_elements if magnetic else e.get_electrostatic_active_elements)()[1]
        faces = {}
        for ax in range(3):
            for i, j, k in itertools.product(range(3), range(2), range(2)):
                s = 0.
                for (x, w), (y, v) in itertools.product(zip(X2, W2), repeat=2):
                    p = np.zeros(3)
                    p[ax], p[(ax + 1) % 3], p[(ax + 2) % 3] = i, j + x, k + y
                    s += w * v * field(p)[ax]
                faces[ax, i, j, k] = s
        size = max(map(abs, faces.values()))
        cell = lambda c: sum(faces[ax, c[ax] + 1, c[(ax + 1) % 3], c[(ax + 2) % 3]] - faces[ax, c[ax], c[(ax + 1) % 3], c[(ax + 2) % 3]] for ax in range(3))
        flux = {g: sum(cell(c) for c in {c for c, _ in TRI3[g]}) for g in 'abcd'}
        ch = f.magnetostatic_point_charges if magnetic else f.electrostatic_point_charges
        charge = lambda ix: sum(ch.charges[i] * np.sum(ch.jacobians[i]) for i in ix) if magnetic else f.charge_on_elements(ix)
        for k, sub in enumerate(subsets(sorted(exc))):
            ix = [int(i) for g in sub for i in names[g]]
            q, w = rec.call(key, lambda: charge(ix if magnetic else index_forms(ix)[k % 4])), sum(flux[g] for g in sub)
            rec.state(('3d', magnetic, tuple(exc.items()), sub))
            rec.step()
            rec.check(q is not None and abs(q - w) <= 3e-5 * size, key, lambda: f'{exc}: charge of {sub} is {q}, the flux around it is {w}')
        for g in 'abcd':
            rec.check(g in exc or abs(flux[g]) <= 3e-5 * size, key, lambda: f'{exc}: flux {flux[g]} out of the cells of {g}, which has no excitation')
        if not magnetic:
            act = e.get_electrostatic_active_elements()[0]
            for i, el in enumerate(act):
                w = ref.tri_area(el)
                rec.check(np.isclose(f.area_of_element(i), w, rtol=1e-9), 'C23/area', lambda: f'area of the triangle {el} is {f.area_of_element(i)}, should be {w}')
            rec.check(np.isclose(f.area_of_elements(range(len(act))), sum(ref.tri_area(el) for el in act), rtol=1e-9), 'C23/area', 'sum of the areas')
        rec.outcome(tuple(sorted((g, round(float(v), 6)) for g, v in flux.items())))


# ---- currents
COILS = {
    'pieces': [('p', ((0, 2), ((.2, .2), (.7, .2), (.2, .8)))), ('q', ((1, 1), ((.2, .2), (.8, .2), (.8, .8)))), ('p', ((2, 0), ((.3, .3), (.6, .3), (.3, .5)))), ('p', ((1, 1), ((.2, .4), (.6, .8), (.2, .8)))), (None, ((1, 0), ((.2, .4), (.6, .8), (.2, .8))))],
    'axis': [('p', ((0, 1), ((.2, .2), (.7, .2), (.2, .8)))), ('p', ((0, 1), ((.7, .2), (.7, .8), (.2, .8)))), ('q', ((2, 1), ((.2, .2), (.3, .8), (.25, .7)))), ('q', ((2, 2), ((.8, .3), (.2, .2), (.2, .8))))],
    'reversed': [('q', ((0, 0), ((.2, .2), (.2, .8), (.7, .2)))), ('p', ((2, 2), ((.2, .2), (.8, .8), (.8, .2)))), ('p', ((2, 2), ((.2, .2), (.2, .8), (.8, .8)))), ('q', ((0, 2), ((.3, .3), (.3, .5), (.6, .3))))]}


def run_current(coil, layout, higher, I, scale, rec):
    S, E = t.solver, t.excitation
    key = 'C23/ampere'
    tris = [(n, [(R[c[0]] + a, Z[c[1]] + b) for a, b in p]) for n, (c, p) in COILS[coil]]
    area = lambda p: abs((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])) / 2
    total = {n: sum(area(p) for m, p in tris if m == n) for n in 'pq'}
    enclosed = {c: sum(I[n] * area(p) / total[n] for (n, p), (_, (d, _)) in zip(tris, COILS[coil]) if d == c and n) for c in CELLS}
    for kinds in itertools.product(('', 'P', 'M', 'N'), repeat=4) if layout else [()]:
        exc = {g: k for g, k in zip('abcd', kinds) if k}
        if not DEEP and sum(k in 'MN' for k in kinds) > 1 or (layout and not exc) or not (any(I.values()) or 'P' in kinds):
            continue
        if layout:
            m = radial_mesh(layout, higher, scale, tris)
        else:
            m = pr.line_mesh(t, [], False, [(n, [(scale * a, scale * b) for a, b in p]) for n, p in tris])
        e = E.Excitation(m, E.Symmetry.RADIAL)
        for g, k in exc.items():
            e.add_magnetostatic_potential(**{g: 2.}) if k == 'P' else e.add_magnetizable(**{g: 50.}) if k == 'M' else e.add_magnetostatic_boundary(g)
        if any(I.values()):
            if (len(exc) + len(coil)) % 2:
                e.add_current(**I)
            else:
                for n in I:
                    e.add_current(**{n: I[n]})
        f = rec.call(key, lambda: S.solve_direct(e))
        if f is None:
            continue
        H, V = edges(lambda r, z: plane(f.magnetostatic_field_at_point, scale * r, scale * z))
        size = max(np.max(np.abs(H)), np.max(np.abs(V)))
        H2, V2 = edges(lambda r, z: 2 * np.pi * r * plane(f.magnetostatic_field_at_point, scale * r, scale * z))
        mp = f.magnetostatic_point_charges
        names = e.get_magnetostatic_active_elements()[1]
        where = cells_of(layout) if layout else {}
        flux = {c: rect_flux(H2, V2, c) * scale**2 for c in CELLS}
        fs = max(np.max(np.abs(H2)), np.max(np.abs(V2))) * scale**2
        for c in CELLS:
            w = -rect_circulation(H, V, c) * scale
            rec.state(('current', coil, layout, higher, tuple(I.items()), scale, tuple(exc.items()), c))
            rec.step()
            rec.check(abs(w - enclosed[c]) <= 1e-7 * size * scale, key, lambda: f'coil {coil}, currents {I}, {exc}: the circulation of H around cell {c} is {w}, the current through it {enclosed[c]}')
            if not any(c in where[g] for g in exc):
                rec.check(abs(flux[c]) <= 1e-7 * fs, 'C23/divergence', lambda: f'coil {coil}, currents {I}, {exc}: flux {flux[c]} of {fs} of H out of cell {c}, which has no magnetic charge')
        for g in exc:
            q = sum(mp.charges[i] * 2 * np.pi * np.sum(mp.jacobians[i] * mp.positions[i, :, 0]) for i in names[g])
            w = sum(flux[c] for c in where[g])
            rec.check(abs(q - w) <= 1e-7 * fs, 'C23/divergence', lambda: f'coil {coil}, currents {I}, {exc}: magnetic charge of {g} is {q}, the flux around it {w}')
        rec.outcome((coil, tuple(I.items()), round(float(size), 9)))


# ---- capacitances
def run_sphere(radii, materials, size, higher, three, rec):
    """Concentric spheres; materials per sphere: V (a voltage) or D (dielectric constant: interface from this constant inside to 1 outside)."""
    G, S, E = t.geometry, t.solver, t.excitation
    key = 'C23/capacity'
    parts = []
    for k, r in enumerate(radii):
        if three:
            s = G.Surface.sphere(r)
        else:
            s = G.Path.arc([0., 0., 0.], [0., 0., -r], [r, 0., 0.]).arc_to([0., 0., 0.], [0., 0., r])
        s.name = f's{k}'
        parts.append(s)
    if three:
        m = parts[0].mesh(mesh_size=size * radii[0])
        for r, s in zip(radii[1:], parts[1:]):
            m = m + s.mesh(mesh_size=size * r)
    else:
        m = parts[0].mesh(mesh_size=size * radii[0], higher_order=higher)
        for r, s in zip(radii[1:], parts[1:]):
            m = m + s.mesh(mesh_size=size * r, higher_order=higher)
    V = [k for k, x in enumerate(materials) if x == 'V']
    tol = (.05 if three else 3e-4 if higher else 4e-3) * (4 if not higher and set(materials) != {'V'} else 1)
    for volts in itertools.product((0., 1., -3.), repeat=len(V)):
        if not any(volts):
            continue
        e = E.Excitation(m, E.Symmetry.THREE_D if three else E.Symmetry.RADIAL)
        for k, v in zip(V, volts):
            e.add_voltage(**{f's{k}': v})
        for k, x in enumerate(materials):
            if x != 'V':
                e.add_dielectric(**{f's{k}': x})
        f = rec.call(key, lambda: S.solve_direct(e))
        if f is None:
            continue
        names = e.get_electrostatic_active_elements()[1]
        # exact: unknown charges q_k on every sphere; the total inside r determines E = Q(r)/(4 pi r^2) (all charges, bound and free)
        n = len(radii)
        A, b = np.zeros((n, n)), np.zeros(n)
        for k, x in enumerate(materials):
            if x == 'V':
                A[k] = [1 / (4 * np.pi * max(radii[k], radii[j])) for j in range(n)]
                b[k] = volts[V.index(k)]
            else:          # eps E continuous: x * Q(inside) = Q(inside) + q_k
                A[k, :k] = x - 1
                A[k, k] = -1
        q = np.linalg.solve(A, b)
        got = np.array([f.charge_on_elements(names[f's{k}']) for k in range(n)])
        rec.state((radii, materials, size, higher, three, volts))
        rec.step()
        # charges of conductors are given by the largest potential over the smallest distance
        scale = np.max(np.abs(q))
        rec.check(np.all(np.abs(got - q) <= tol * scale), key, lambda: f'spheres of radius {radii} with {materials} at {volts} V (mesh size {size}, higher order {higher}, 3d {three}): charges {got}, should be {q}')
        rec.outcome((radii, materials, volts, tuple(np.round(got / scale, 3))))


SPHERES = [((1.,), ('V',)), ((1e-3,), ('V',)), ((300.,), ('V',)), ((1., 2.), ('V', 'V')), ((1., 5.), ('V', 'V')), ((1., 2., 4.), ('V', 'V', 'V')), ((1., 2.), ('V', 4.)), ((1., 2.), ('V', .5)), ((1., 2., 3.), ('V', 3., 'V'))]


def cases(tier, seed):
    deep = tier != 'quick'
    out = [{'kind': 'radial', 'layout': l, 'higher': h, 'first': k, 'scale': 1.} for l in RADIAL for h in (False, True, 'curved') for k in ('', 'V', 'F', 'D', 'B') if deep or h or l == 'ring']
    out += [{'kind': 'radial', 'layout': l, 'higher': True, 'first': 'V', 'scale': s} for l in RADIAL for s in (1e-4, 1e4) if deep or l == 'axis']
    out += [{'kind': 'combine', 'layout': l, 'higher': h} for l in RADIAL for h in (False, 'curved')]
    out += [{'kind': 'three', 'first': k, 'magnetic': False} for k in ('', 'V', 'F', 'D', 'B')] + [{'kind': 'three', 'first': k, 'magnetic': True} for k in ('', 'P', 'M', 'N')]
    values = [{'p': p, 'q': q} for p in (2.5, -1., 0.) for q in (2.5, -1e-3, 0.) if p or q]
    out += [{'kind': 'current', 'coil': c, 'layout': '', 'higher': False, 'I': I, 'scale': s} for c in COILS for I in values for s in (1., 1e-4, 1e4)]
    out += [{'kind': 'current', 'coil': c, 'layout': l, 'higher': h, 'I': {'p': p, 'q': 3.}, 'scale': 1.} for c, l in (('pieces', 'ring'), ('reversed', 'wide'), ('pieces', 'wide'), ('axis', 'ring')) for h, p in ((False, 2.5), (True if (c, l) == ('pieces', 'wide') else 'curved', -1.))]
    out += [{'kind': 'current', 'coil': 'pieces', 'layout': 'wide', 'higher': True, 'I': {'p': 0., 'q': 0.}, 'scale': 1.}]
    out += [{'kind': 'sphere', 'radii': r, 'materials': m, 'size': s, 'higher': h, 'three': False} for r, m in SPHERES for s, h in ((.05, False), (.2, True))]
    out += [{'kind': 'sphere', 'radii': r, 'materials': m, 'size': .4 if not deep else .25, 'higher': False, 'three': True} for r, m in SPHERES]
    return out


def run(case, rec):
    tup = {'radii', 'materials'}
    globals()['run_' + case['kind']](*[tuple(v) if k in tup else v for k, v in case.items() if k != 'kind'], rec)
    rec.trace()
