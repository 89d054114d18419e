"""Geometric transformations: every sequence of transformations up to a depth on every kind of object, against 4x4 matrices."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C13'
RULE = ('State: (object, affine map reached, how). Every map other than the identity is non-trivial. '
        'Sequences of length one and two are complete over the alphabet, longer ones over a smaller alphabet.')
CASE_TIMEOUT = 600
LONG = {'quick': 3, 'thorough': 4}


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


# ---- alphabet: name -> (what to do with the object, matrix and offset)

def rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    return np.array({'x': [[1, 0, 0], [0, c, -s], [0, s, c]], 'y': [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


OPS, SMALL = {}, []
I3 = np.eye(3)


def op(name, act, A, b, small=False):
    OPS[name] = (act, np.array(A, float), np.array(b, float))
    if small:
        SMALL.append(name)


op('move()', lambda o: o.move(), I3, [0, 0, 0])
op('move x', lambda o: o.move(dx=0.75), I3, [0.75, 0, 0], True)
op('move y', lambda o: o.move(dy=-2.), I3, [0, -2, 0])
op('move z int', lambda o: o.move(dz=3), I3, [0, 0, 3], True)
op('move positional', lambda o: o.move(0.5, -0.25, 1), I3, [0.5, -0.25, 1])
op('move xyz', lambda o: o.move(dx=-4., dy=1, dz=-0.125), I3, [-4, 1, -0.125])
op('move numpy', lambda o: o.move(*np.array([0.1, -0.2, 0.3])), I3, [0.1, -0.2, 0.3])
ORIGINS = {'': None, ' about A': [1., -2., 0.5], ' about ints': [2, 0, -1], ' about array': np.array([0., 3., 0.])}
ANGLES = {'90': np.pi / 2, '-90': -np.pi / 2, '180': np.pi, '0.3': 0.3, '-2': -2, '270': 1.5 * np.pi, '0': 0, '360': 2 * np.pi, '1': 1}
for ax in 'xyz':
    for an, a in ANGLES.items():
        for on, o in ORIGINS.items():
            if on and an not in ('90', '-2', '0', '0.3'):
                continue
            R, o3 = rot(ax, a), np.zeros(3) if o is None else np.array(o, float)
            kw = {'R' + ax: a}
            if o is not None:
                kw['origin'] = o
            op(f'rotate {ax} {an}{on}', lambda q, kw=kw: q.rotate(**kw), R, o3 - R @ o3, (an, on) in (('90', ''), ('0.3', ' about A')))
op('rotate()', lambda o: o.rotate(), I3, [0, 0, 0])
op('rotate about', lambda o: o.rotate(origin=[1., 2., 3.]), I3, [0, 0, 0])
op('rotate positional', lambda o: o.rotate(0., 0.4), rot('y', 0.4), [0, 0, 0])
op('mirror_xz', lambda o: o.mirror_xz(), np.diag([1, -1, 1]), [0, 0, 0], True)
op('mirror_yz', lambda o: o.mirror_yz(), np.diag([-1, 1, 1]), [0, 0, 0], True)
op('mirror_xy', lambda o: o.mirror_xy(), np.diag([1, 1, -1]), [0, 0, 0], True)
SHEAR = np.array([[1., 0.2, 0.], [0., 1., -0.3], [0.1, 0., 1.5]])
op('map affine', lambda o: o.map_points(lambda p: SHEAR @ p + np.array([0.1, 0, 0.2])), SHEAR, [0.1, 0, 0.2], True)
op('map swap', lambda o: o.map_points(lambda p: np.array([p[2], p[0], p[1]])), [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [0, 0, 0])

KEEPS_PLANE = lambda A, b: A[1, 0] == 0 and A[1, 2] == 0 and b[1] == 0


# ---- objects

def body(name, pts, order=1):
    """A closed box of 12 triangles with outward normals."""
    from itertools import product
    c = np.array(list(product((0., 1.), repeat=3)))
    faces = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
    tris = []
    for a, b, d, e in faces:
        tris += [(a, b, d), (a, d, e)]
    P = c * pts[1] + pts[0]
    return P, np.array(tris)


def objects():
    G, M = t.geometry, t.mesher
    line = lambda: G.Path.line([0.2, 0., -0.5], [1.1, 0.3, 0.4])
    d = {}

    def path():
        p = G.Path.line([0.2, 0., -0.5], [1.1, 0., 0.4]).line_to([1.5, 0.2, 0.4]).arc_to([1., 0.2, 0.4], [1., 0.2, 0.9])
        p.name = 'p'
        return p
    d['path'] = path
    d['spline'] = lambda: G.Path.spline_through_points([[0., 0., 0.], [1., 0.3, 0.2], [1.5, -0.4, 1.], [2., 0., 1.1]])
    d['circle'] = lambda: G.Path.circle_xz(1., -0.5, 0.75)
    d['integer path'] = lambda: G.Path(lambda u: np.array([int(3 * u), 1, -2]), 1., [0.5])

    def pc():
        c = path() + G.Path.rectangle_xz(1, 2, 3, 4)
        c.paths[1].name = 'q'
        return c
    d['paths'] = pc

    def pcn():
        c = path() + line()
        c.name = 'both'
        return c
    d['named paths'] = pcn

    def surf():
        s = path().extrude([0.1, 2., 0.3])
        s.name = 's'
        return s
    d['surface'] = surf
    d['bent surface'] = lambda: path().extrude_by_path(G.Path.line([0., 0., 0.], [0., 1., 0.]).line_to([0., 1., 2.]))
    d['sphere'] = lambda: G.Surface.sphere(0.5)

    def sc():
        c = surf() + G.Surface.rectangle_xy(0, 1, 0, 2)
        c.surfaces[1].name = 'r'
        return c
    d['surfaces'] = sc

    def scn():
        c = G.Surface.box([0, 0, 0], [1, 2, 3])
        c.name = 'box'
        return c
    d['named box'] = scn

    def mesh3(named):
        def make():
            P, T = body('b', ((-0.3, 0.2, 0.1), (1., 2., 0.5)))
            P2, T2 = body('c', ((4., 1., 1.), (0.5, 0.5, 0.5)))
            pts = np.concatenate((P, P2, [[9, 9, 9], [9, 10, 9], [8, 9, 9.5]]))
            tr = np.concatenate((T, T2 + 8, [[16, 17, 18]]))
            g = {'b': np.arange(12), 'c': np.arange(12, 24)[::-1]} if named else {}
            return M.Mesh(points=pts, triangles=tr, physical_to_triangles=g)
        return make
    d['mesh 3d'] = mesh3(True)
    d['mesh 3d unnamed'] = mesh3(False)

    def mesh2(higher, named, closed):
        def make():
            sq = np.array([[1., 0., 0.], [2., 0., 0.], [2., 0., 1.], [1., 0., 1.5]])
            pts, lines = list(sq), []
            n = 4 if closed else 3
            for i in range(n):
                j = (i + 1) % 4
                if higher:
                    a, b = sq[i], sq[j]
                    bump = np.array([0.03, 0., 0.02])
                    lines.append([i, j, len(pts), len(pts) + 1])
                    pts += [a + (b - a) / 3 + bump, a + 2 * (b - a) / 3 + bump]
                else:
                    lines.append([i, j])
            k = len(pts)
            pts += [[3., 0., 0.], [3.5, 0., 0.], [3., 0., 0.5], [3.5, 0., 0.5]]
            tr = [[k, k + 1, k + 2], [k + 1, k + 3, k + 2]]
            return M.Mesh(points=pts, lines=lines, triangles=tr, physical_to_lines={'l': np.arange(n)} if named else {}, physical_to_triangles={'t': np.array([1, 0])} if named else {})
        return make
    for h, n, c in itertools.product((False, True), repeat=3):
        d[f'mesh 2d{" higher" * h}{" named" * n}{" closed" * c}'] = mesh2(h, n, c)
    d['mesh of path'] = lambda: path().mesh(mesh_size=0.4)
    d['mesh of box'] = lambda: scn().mesh(mesh_size=1.)
    d['points only'] = lambda: M.Mesh(points=[[0., 0., 0.], [1., 2., 3.]])
    d['empty mesh'] = lambda: M.Mesh()
    return d


NAMES = None


def cases(tier, seed):
    setup_needed = 'geometry'
    return [dict(what='object', name=n, tier=tier, chunk=c) for n in NAMES_ for c in range(2 if n.startswith('mesh') else 1)] + [dict(what='rejected'), dict(what='independent')]


NAMES_ = ['path', 'spline', 'circle', 'integer path', 'paths', 'named paths', 'surface', 'bent surface', 'sphere', 'surfaces', 'named box', 'mesh 3d', 'mesh 3d unnamed'] + \
    [f'mesh 2d{" higher" * h}{" named" * n}{" closed" * c}' for h, n, c in itertools.product((False, True), repeat=3)] + ['mesh of path', 'mesh of box', 'points only', 'empty mesh']


def describe(o):
    """Everything observable: points (flat array of 3-vectors, to be mapped) and the rest (to be kept)."""
    G, M = t.geometry, t.mesher
    if isinstance(o, G.Path):
        L = o.path_length
        u = sorted(set([0., L / 3, 0.61 * L, L] + list(o.breakpoints)))
        return [o(x) for x in u], ('path', L, tuple(o.breakpoints), o.name)
    if isinstance(o, G.Surface):
        U = sorted(set([0., 0.37 * o.path_length1, o.path_length1] + list(o.breakpoints1)))
        V = sorted(set([0., 0.55 * o.path_length2, o.path_length2] + list(o.breakpoints2)))
        return [o(u, v) for u in U for v in V], ('surface', o.path_length1, o.path_length2, tuple(o.breakpoints1), tuple(o.breakpoints2), o.name)
    if isinstance(o, (G.PathCollection, G.SurfaceCollection)):
        parts = [describe(x) for x in (o.paths if isinstance(o, G.PathCollection) else o.surfaces)]
        return [p for a, _ in parts for p in a], (type(o).__name__, o.name, tuple(b for _, b in parts))
    assert isinstance(o, M.Mesh)
    rest = [('lines', o.lines.shape), ('triangles', o.triangles.shape), ('groups', tuple((k, tuple(map(int, v))) for k, v in o.physical_to_lines.items())),
            tuple((k, tuple(map(int, v))) for k, v in o.physical_to_triangles.items()), ('points', len(o.points))]
    return None, ('mesh', tuple(rest))


def volume(pts, tr):
    p = pts[tr.astype(int)]
    return np.sum(np.einsum('ij,ij->i', p[:, 0], np.cross(p[:, 1], p[:, 2]))) / 6


def contour(pts, lines):
    p = pts[lines[:, :2].astype(int)][:, :, [0, 2]]
    return np.sum(p[:, 0, 0] * p[:, 1, 1] - p[:, 1, 0] * p[:, 0, 1]) / 2


def compare_mesh(o, n, A, b, rec, where, closed):
    tol = 1e-9
    img = lambda P: P @ A.T + b
    # points: the same set
    a, c = img(o.points), n.points
    if len(a):
        dist = np.linalg.norm(a[:, None] - c[None], axis=2)
        rec.check(dist.min(axis=1).max() < tol and dist.min(axis=0).max() < tol, 'C13/mesh-points', lambda: f'{where}: points {c.tolist()}, should be {a.tolist()}')
    for kind, flip2 in (('lines', None), ('triangles', None)):
        E, F = getattr(o, kind), getattr(n, kind)
        if E.shape != F.shape or not len(E):
            continue
        X, Y = img(o.points[E.astype(int)].reshape(-1, 3)).reshape(E.shape + (3,)), n.points[F.astype(int)]
        same = np.abs(X - Y).max(axis=(1, 2)) < tol
        named = np.zeros(len(E), bool)
        for v in getattr(o, 'physical_to_' + kind).values():
            named[v] = True
        # the normals of groups are turned outward when a mesh is made: the other order of the vertices is the same element
        other = {2: [1, 0], 3: [0, 2, 1], 4: [1, 0, 3, 2]}[E.shape[1]]
        flipped = np.abs(X[:, other] - Y).max(axis=(1, 2)) < tol
        if E.shape[1] == 3:
            for perm in ([1, 2, 0], [2, 0, 1]):
                flipped |= named & ((np.abs(X[:, perm] - Y).max(axis=(1, 2)) < tol) | (np.abs(X[:, np.array(other)[perm]] - Y).max(axis=(1, 2)) < tol))
        ok = same | (named & flipped)
        rec.check(np.all(ok), 'C13/mesh-elements', lambda: f'{where}: {kind} element {int(np.argmin(ok))} has vertices {Y[np.argmin(ok)].tolist()}, should be {X[np.argmin(ok)].tolist()}')
    for g in closed:
        if g in n.physical_to_triangles:
            rec.check(volume(n.points, n.triangles[n.physical_to_triangles[g]]) > 0, 'C13/mesh-inside-out', lambda: f'{where}: closed group {g} has inward normals')


def examine(o, n, A, b, rec, where, closed):
    pts, rest = describe(o)
    got, rest2 = rec.call('C13/evaluate', lambda: describe(n))
    rec.check(type(n) is type(o), 'C13/type', lambda: f'{where}: {type(n)}')
    rec.check(rest == rest2, 'C13/kept', lambda: f'{where}: {rest2}, should be {rest}')
    if pts is None:
        compare_mesh(o, n, A, b, rec, where, closed)
        return
    if len(pts) != len(got):
        return
    want = np.array(pts, float) @ A.T + b
    ok = all(np.shape(g) == (3,) for g in got) and np.allclose(np.array(got, float), want, rtol=1e-12, atol=1e-12)
    rec.check(ok, 'C13/points', lambda: f'{where}: points {np.array(got).tolist()}, should be {want.tolist()}')


def frozen(o):
    pts, rest = describe(o)
    if pts is None:
        return repr(rest) + repr([x.tobytes() for x in (o.points, o.lines, o.triangles)])
    return repr(rest) + np.array(pts, float).tobytes().hex()


def run(case, rec):
    if case['what'] in ('rejected', 'independent'):
        {'rejected': rejected, 'independent': independent}[case['what']](rec)
        rec.trace()
        return
    name, tier = case['name'], case['tier']
    make = objects()[name]
    o = rec.call('C13/make', make)
    before = frozen(o)
    closed = ['b', 'c', 'box'] if name.startswith('mesh') else []
    closed = [g for g in closed if name.startswith('mesh 3d') or name == 'mesh of box']
    parts = 2 if name.startswith('mesh') else 1
    keys = list(OPS)

    def walk(obj, A, b, seq, depth, letters):
        for k in letters:
            act, A2, b2 = OPS[k]
            n = rec.call('C13/transform', lambda: act(obj))
            An, bn = A2 @ A, A2 @ b + b2
            new = seq + (k,)
            where = f'{name}: {" then ".join(new)}'
            rec.step()
            rec.state((name, new) if len(new) < 3 else (name, np.round(An, 9).tobytes(), np.round(bn, 9).tobytes()))
            examine(o, n, An, bn, rec, where, closed)
            if depth > 1:
                walk(n, An, bn, new, depth - 1, letters)
    first = keys[case['chunk']::parts]
    # complete to depth two
    for k in first:
        act, A2, b2 = OPS[k]
        n = rec.call('C13/transform', lambda: act(o))
        rec.state((name, (k,)))
        rec.step()
        examine(o, n, A2, b2, rec, f'{name}: {k}', closed)
        rec.check(frozen(o) == before, 'C13/original', lambda: f'{name}: changed by {k}')
        walk(n, A2, b2, (k,), 1, keys if not name.startswith('mesh') or tier == 'thorough' or k in SMALL else SMALL)
    # longer, over the small alphabet
    for k in SMALL[case['chunk']::parts]:
        act, A2, b2 = OPS[k]
        walk(act(o), A2, b2, (k,), LONG[tier] - 1, SMALL)
    rec.check(frozen(o) == before, 'C13/original', lambda: f'{name}: the original changed')
    rec.trace()


def rejected(rec):
    for name, make in objects().items():
        o = make()
        for angles in ((1., 1., 0.), (0., -1., 2), (1., 0., 1.), (1., 2., 3.)):
            rec.raises('C13/two-axes', o.rotate, *angles)
        rec.raises('C13/origin', lambda: o.rotate(Rx=1., origin=[1., 2.]))
        rec.state((name, 'rejected'))


def independent(rec):
    """What happens to the arguments, the original or the copy afterwards does not reach the others."""
    G, M = t.geometry, t.mesher
    for name, make in objects().items():
        for k in SMALL + ['rotate x 0.3 about A', 'move()', 'rotate()']:
            act, A, b = OPS[k]
            o = make()
            n = act(o)
            fo, fn = frozen(o), frozen(n)
            where = f'{name}: {k}'
            rec.state((name, 'independent', k))
            if isinstance(n, M.Mesh):
                for x, y in ((n, o), (o, n)):
                    f = frozen(y)
                    for g in x.get_electrodes():
                        x.ensure_inward_normals(g)
                    x.physical_to_lines['new'] = np.arange(0)
                    rec.check(frozen(y) == f, 'C13/shared', lambda: f'{where}: inward normals of one change the other')
                    if len(x.points):
                        x.points[0] += 0.5
                    rec.check(frozen(y) == f, 'C13/shared', lambda: f'{where}: points of one change the other')
            elif isinstance(n, (G.PathCollection, G.SurfaceCollection)):
                members = lambda c: c.paths if isinstance(c, G.PathCollection) else c.surfaces
                n.name = 'another'
                rec.check(frozen(o) == fo, 'C13/shared', lambda: f'{where}: the name of the copy changes the original')
                members(n).append(members(n)[0])
                rec.check(frozen(o) == fo, 'C13/shared', lambda: f'{where}: members of the copy change the original')
            else:
                n.name = 'another'
                rec.check(frozen(o) == fo, 'C13/shared', lambda: f'{where}: the name of the copy changes the original')
                n = act(o)
                fn = frozen(n)
                o.name = 'yet another'
                rec.check(frozen(n) == fn, 'C13/shared', lambda: f'{where}: the name of the original changes the copy')
        o = make()
        origin = np.array([1., 2., -1.])
        n = o.rotate(Rx=0.5, origin=origin)
        fn = frozen(n)
        origin += 1.
        rec.check(frozen(n) == fn, 'C13/argument', f'{name}: rotated object moves with the array that was given as the origin')
        rec.check(np.array_equal(origin, [2., 3., 0.]), 'C13/argument', f'{name}: origin was changed')
