"""Straight-line meshes and higher order meshes of the same straight geometry: every assignment of kinds of excitation to the groups, every pattern of orientations and
every word of mesh operations, solved on both; and meshes of paths made of straight lines."""
import itertools, os
import numpy as np
import vlib, problems as pr

PROPERTY = 'C32'
RULE = ('State: (geometry, excitation per group, orientation pattern, mesh operations, form of the mesh). Assignments of excitations to groups are complete, as are orientation patterns of the marked '
        'elements and words of mesh operations up to the depth. Trivial: assignments without anything to solve for (these are executed but not counted as states).')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, DEEP
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    DEEP = tier != 'quick'


# four groups and an unnamed element; b has two elements, c is closed (a triangle around a ring), d a part of the outer border
GEOMETRY = {
    'pieces': [('a', (1., -1.), (1., -.2)), ('b', (1., .3), (1.2, 1.)), ('c', (2., 0.), (2.5, 0.)), ('c', (2.5, 0.), (2.2, .6)), ('c', (2.2, .6), (2., 0.)), ('b', (1.2, 1.), (1.9, 1.3)), (None, (3., 3.), (3., 4.)), ('d', (3., -2.), (3., 2.))],
    'axis': [('a', (0., 0.), (1., 0.)), ('b', (0., 2.), (1., 2.5)), ('c', (.4, 1.), (.8, 1.)), ('c', (.8, 1.), (.5, 1.3)), ('c', (.5, 1.3), (.4, 1.)), ('d', (1.5, 0.), (1.5, 2.)), ('d', (1.5, 2.), (1., 2.5))]}
ELECTRIC, MAGNETIC = ('', 'V', 'F', 'D', 'B', 'b'), ('', 'P', 'M', 'N', 'n')
PROBES = [(.1, 0., .2), (.3, -.4, 1.7), (0., 0., .6), (1.6, .5, .5), (0., .2, 5.), (4., 1., -1.)]
COIL = pr.COIL[:2]


def fun(x, y, z):
    return 1. + x * z - .2 * z


def excite(m, exc, current):
    E = t.excitation
    e = E.Excitation(m, E.Symmetry.RADIAL)
    value = dict(zip('abcd', (3., -1., 7., .4)))
    # boundaries last or first depending on the group, such that both orders occur
    for g, k in sorted(exc.items(), key=lambda x: (x[0] == 'b' and x[1] in 'BbNn', x[0])):
        v = value[g]
        if k == 'V':
            e.add_voltage(**{g: v})
        elif k == 'F':
            e.add_voltage(**{g: fun})
        elif k == 'D':
            e.add_dielectric(**{g: abs(v) + .3})
        elif k == 'P':
            e.add_magnetostatic_potential(**{g: v})
        elif k == 'M':
            e.add_magnetizable(**{g: abs(v) + .3})
        elif k and k in 'Bb':
            e.add_electrostatic_boundary(g, ensure_inward_normals=k == 'B')
        elif k and k in 'Nn':
            e.add_magnetostatic_boundary(g, ensure_inward_normals=k == 'n')
    if current:
        e.add_current(coil=2.5)
    return e


def observe(f, n):
    P = [np.array(p) for p in PROBES]
    out = [x for p in P for x in (f.electrostatic_potential_at_point(p), *f.electrostatic_field_at_point(p), f.magnetostatic_potential_at_point(p), *f.magnetostatic_field_at_point(p))]
    N = len(f.electrostatic_point_charges.charges), len(f.magnetostatic_point_charges.charges)
    return np.array(out), [f.charge_on_element(i) for i in range(N[0])] if N[0] else [], N


def compare(rec, key, straight, curved, exc, current, what):
    """Solve both."""
    a = rec.call(key, lambda: t.solver.solve_direct(excite(straight, exc, current)))
    b = rec.call(key, lambda: t.solver.solve_direct(excite(curved, exc, current)))
    rec.step(2)
    if a is None or b is None:
        return
    (x, q, n), (y, r, m) = rec.call(key, lambda: observe(a, 0)), rec.call(key, lambda: observe(b, 0))
    if any(n) or current:
        rec.state(what)
    if not rec.check(n == m, key, lambda: f'{what}: {n} electrostatic and magnetostatic elements are solved for on the straight mesh, {m} on the higher order mesh'):
        return
    size = max(1e-300, np.max(np.abs(x)))
    k = np.argmax(np.abs(x - y))
    rec.check(np.all(np.abs(x - y) <= (1e-6 if 'word' in key else 1e-8) * size), key, lambda: f'{what}: value {x[k]} on the straight mesh, {y[k]} on the higher order mesh (component {k % 8} at {PROBES[k // 8]})')
    if len(q):
        rec.check(np.all(np.abs(np.array(q) - np.array(r)) <= (1e-6 if 'word' in key else 1e-8) * max(np.max(np.abs(q)), 1e-300)), key + '-charge', lambda: f'{what}: charges of the elements {q} on the straight mesh, {r} on the higher order mesh')
    rec.outcome((n, round(float(x[0]), 8)))


def run_assign(geo, magnetic, first, rec):
    segs = GEOMETRY[geo]
    for rest in itertools.product(MAGNETIC if magnetic else ELECTRIC, repeat=3):
        exc = {g: k for g, k in zip('abcd', (first, *rest)) if k}
        if not exc:
            continue
        if not set(exc.values()) & set('VFP') and not magnetic:
            continue          # nothing that produces a field
        mk = lambda higher: pr.line_mesh(t, segs, higher, COIL if magnetic else None)
        compare(rec, 'C32/assign', mk(False), mk(True), exc, magnetic, (geo, magnetic, tuple(exc.items())))


FIXED = [({'a': 'V', 'b': 'V', 'c': 'D', 'd': 'B'}, False), ({'a': 'V', 'b': 'F', 'c': 'b', 'd': 'D'}, False), ({'a': 'P', 'b': 'M', 'c': 'M', 'd': 'N'}, True), ({'b': 'n', 'c': 'M', 'd': 'M'}, True), ({'a': 'P', 'b': 'V', 'c': 'D', 'd': 'M'}, True)]


def run_orient(geo, k, outward, rec):
    exc, magnetic = FIXED[k]
    segs = GEOMETRY[geo]
    for flips in itertools.product((0, 1), repeat=len(segs)):
        if not DEEP and sum(flips) > 3:
            continue
        s = [(n, b, a) if f else (n, a, b) for f, (n, a, b) in zip(flips, segs)]
        mk = lambda higher: pr.line_mesh(t, s, higher, COIL if magnetic else None, outward)
        compare(rec, 'C32/orient', mk(False), mk(True), exc, magnetic, (geo, k, outward, flips))


def other(higher):
    return pr.line_mesh(t, [('b', (4., 1.), (4., 2.)), ('d', (4., 2.), (5., 2.)), (None, (5., 5.), (5., 6.))], higher)


OPS = {'move': lambda m, h: m.move(dz=1.3), 'mirror': lambda m, h: m.mirror_xy(), 'flip': lambda m, h: m.flip_normals(), 'add': lambda m, h: m + other(h), 'prepend': lambda m, h: other(h) + m, 'map': lambda m, h: m.map_points(lambda p: np.array([1.5 * p[0], p[1], .5 * p[2] - .2 * p[0]])),
       'half': lambda m, h: m.extract_physical_group('b') + m.extract_physical_group('a') + m.extract_physical_group('c'), 'scale': lambda m, h: m.map_points(lambda p: 1e-6 * p)}


def run_words(geo, k, first, rec):
    exc, magnetic = FIXED[k]
    segs = GEOMETRY[geo]
    for rest in itertools.chain.from_iterable(itertools.product(OPS, repeat=n) for n in range(3 if DEEP else 2)):
        word = (first, *rest)
        if 'scale' in word[:-1]:          # coordinates are stored with eleven digits
            continue
        ms = []
        for h in (False, True):
            m = pr.line_mesh(t, segs, h, COIL if magnetic else None)
            for w in word:
                m = rec.call('C32/word', lambda: OPS[w](m, h))
            ms.append(m)
        have = set(ms[0].physical_to_lines)
        rec.check(have == set(ms[1].physical_to_lines), 'C32/word', lambda: f'{word}: groups {have} on the straight mesh, {set(ms[1].physical_to_lines)} on the higher order mesh')
        cur = magnetic and 'coil' in ms[0].physical_to_triangles
        e = {g: x for g, x in exc.items() if g in have}
        if cur or set(e.values()) & set('VFP'):
            compare(rec, 'C32/word', *ms, e, cur, (geo, k, word))


def run_superposition(geo, rec):
    segs = GEOMETRY[geo]
    for exc, magnetic in FIXED:
        exc = {g: 'V' if k == 'F' else k for g, k in exc.items()}
        out = []
        for h in (False, True):
            e = excite(pr.line_mesh(t, segs, h, COIL if magnetic else None), exc, magnetic)
            out.append(rec.call('C32/superposition', lambda: t.solver.solve_direct_superposition(e)))
        rec.check(set(out[0]) == set(out[1]), 'C32/superposition', lambda: f'{exc}: superposition gives {set(out[0])} on the straight mesh, {set(out[1])} on the higher order mesh')
        for g in out[0]:
            x, y = observe(out[0][g], 0)[0], observe(out[1][g], 0)[0]
            rec.state((geo, tuple(exc.items()), 'superposition', g))
            rec.step()
            rec.check(np.allclose(x, y, rtol=1e-8, atol=1e-8 * np.max(np.abs(x))), 'C32/superposition', lambda: f'{exc}: the fields of {g} differ between the straight and the higher order mesh')
        rec.outcome(('superposition', len(out[0])))


def run_path(name, size, rec):
    """Meshes of a path of straight lines: a higher order mesh has equal elements, and represents straight lines."""
    G = t.geometry
    P = G.Path
    a, b, names = {'lens': lambda: (P.line([1., 0., -1.], [1., 0., -.3]), P.line([1., 0., .3], [1.5, 0., 1.]), None), 'polygon': lambda: (P.line([1., 0., 0.], [2., 0., 0.]).line_to([2., 0., .7]).close(), P.line([1., 0., 2.], [3., 0., 2.]).line_to([3., 0., 2.2]), None),
                   'aperture': lambda: (P.aperture(.2, .5, 2.), P.rectangle_xz(.8, 2., 1., 1.5), None), 'axis': lambda: (P.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 0., -.2]), P.line([0., 0., 1.], [1., 0., 1.3]), None)}[name]()
    a.name, b.name = 'a', 'b'
    box = P.line([0., 0., 4.], [4., 0., 4.]).line_to([4., 0., -4.]).line_to([0., 0., -4.])
    box.name = 'd'
    for with_box, outward in itertools.product((False, True), repeat=2):
        c = a + b + box if with_box else a + b
        h = rec.call('C32/path', lambda: c.mesh(mesh_size=size, higher_order=True, ensure_outward_normals=outward))
        L = h.points[h.lines]
        third = np.max(np.abs(L[:, 2] - (2 * L[:, 0] + L[:, 1]) / 3)), np.max(np.abs(L[:, 3] - (L[:, 0] + 2 * L[:, 1]) / 3))
        rec.state((name, size, with_box, outward))
        if not rec.check(max(third) < 1e-9, 'C32/path', lambda: f'{name}: the inner points of a straight higher order element are {third} from where they should be'):
            continue
        m = t.mesher.Mesh(points=h.points, lines=h.lines[:, :2], physical_to_lines=h.physical_to_lines, ensure_outward_normals=False)
        for exc in ({'a': 'V', 'b': 'F'}, {'a': 'V', 'b': 'D'}, {'a': 'D', 'b': 'V'}) if not with_box else ({'a': 'V', 'b': 'V', 'd': 'B'}, {'a': 'V', 'b': 'D', 'd': 'b'}, {'a': 'V', 'b': 'F', 'd': 'V'}):
            compare(rec, 'C32/path', m, h, exc, False, (name, size, with_box, outward, tuple(exc.items())))
        # the same elements as those of the straight mesh of this many elements
        s = rec.call('C32/path', lambda: c.mesh(mesh_size=size, ensure_outward_normals=outward))
        rec.check(set(s.physical_to_lines) == set(h.physical_to_lines), 'C32/path', 'groups of the straight and the higher order mesh of a path differ')


def cases(tier, seed):
    out = [{'kind': 'assign', 'geo': g, 'magnetic': m, 'first': k} for g in GEOMETRY for m in (False, True) for k in (MAGNETIC if m else ELECTRIC)]
    out += [{'kind': 'orient', 'geo': g, 'k': k, 'outward': o} for g in GEOMETRY for k in range(len(FIXED)) for o in (False, True)]
    out += [{'kind': 'words', 'geo': g, 'k': k, 'first': w} for g in GEOMETRY for k in range(len(FIXED)) for w in OPS]
    out += [{'kind': 'superposition', 'geo': g} for g in GEOMETRY]
    return out + [{'kind': 'path', 'name': n, 'size': s} for n in ('lens', 'polygon', 'aperture', 'axis') for s in ((.5, 2.) if tier == 'quick' else (.2, .35, .5, 1., 2., 5.))]


def run(case, rec):
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)
    rec.trace()
