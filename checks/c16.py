"""Meshing of surfaces: all refinement patterns of neighbouring cells, all layouts of breakpoints, all constructors. Each mesh is
checked to be a tiling of the parameter domain of the surface, using the parameters with which the surface was evaluated."""
import itertools, os
from collections import Counter
import numpy as np
from scipy.spatial import cKDTree
import vlib

PROPERTY = 'C16'
RULE = 'State: (surface, breakpoints, mesh size function, name). Every state is non-trivial: it is a mesh all triangles of which are examined.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, G
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    G = t.geometry


# ------------------------------------------------------------- the oracle

def spy(S):
    """The same surface, that writes down with which parameters it was evaluated."""
    log = {}

    def f(u, v):
        p = S(u, v)
        log.setdefault(tuple(np.asarray(p, float).tolist()), set()).add((float(u), float(v)))
        return p
    return G.Surface(f, S.path_length1, S.path_length2, list(S.breakpoints1), list(S.breakpoints2), name=S.name), log


def sides(S):
    """For u and v: is the surface closed in that direction; for each of the four edges: is it one point."""
    L1, L2 = S.path_length1, S.path_length2
    a = [np.array([S(u, v) for v in np.linspace(0, L2, 8)]) for u in (0., L1)]
    b = [np.array([S(u, v) for u in np.linspace(0, L1, 8)]) for v in (0., L2)]
    sc = 1e-9 * max(np.abs(x).max() for x in a + b)
    return [np.abs(a[0] - a[1]).max() < sc, np.abs(b[0] - b[1]).max() < sc], [np.abs(x - x[0]).max() < sc for x in a + b]


def area2(p):
    x, y = np.asarray(p).T
    return abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1))) / 2


def examine(S, m, log, rec, where, size=None, factor=2.0, group=None, expect=None):
    L = np.array([S.path_length1, S.path_length2])
    T = m.triangles.astype(int)
    P = m.points
    n = len(T)
    rec.step(n)
    if not rec.check(T.shape == (n, 3) and n > 0 and len(m.lines) == 0, 'C16/shape', lambda: f'{where}: triangles {T.shape}, lines {m.lines.shape}'):
        return
    rec.check({k: sorted(map(int, v)) for k, v in m.physical_to_triangles.items()} == ({group: list(range(n))} if group is not None else {}) and not m.physical_to_lines, 'C16/group',
              lambda: f'{where}: groups { {k: len(v) for k, v in m.physical_to_triangles.items()} } of {n} triangles, should be {group}')
    # vertices are points of the surface
    keys = np.array(list(log))
    vals = list(log.values())
    sc = np.abs(P).max()
    tree = cKDTree(keys)
    near = tree.query_ball_point(P, 3e-11 * sc)
    used = np.zeros(len(P), bool)
    used[T] = True
    bad = [i for i in range(len(P)) if used[i] and not near[i]]
    if not rec.check(not bad, 'C16/vertex', lambda: f'{where}: vertices {P[bad[:3]]} are not points of the surface'):
        return
    # merge the vertices that are the same up to rounding (seams and poles)
    lab = -np.ones(len(P), int)
    for i, g in enumerate(cKDTree(P).query_ball_point(P, 1e-9 * sc)):
        if lab[i] == -1:
            lab[g] = i
    par = {}
    for i in np.flatnonzero(used):
        s = par.setdefault(lab[i], set())
        for k in near[i]:
            s |= vals[k]
    D = lab[T]
    rec.check(all(len(set(d)) == 3 for d in D.tolist()), 'C16/degenerate', lambda: f'{where}: triangles with coinciding vertices {[d for d in D.tolist() if len(set(d)) < 3][:3]}')
    tri = P[T]
    cr = np.linalg.norm(np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0]), axis=1) / 2
    e = np.linalg.norm(tri - np.roll(tri, 1, axis=1), axis=2)
    rec.check((cr > 1e-6 * e.max(axis=1)**2).all(), 'C16/degenerate', lambda: f'{where}: triangles without area: {tri[np.argmin(cr / e.max(axis=1)**2)].tolist()}')
    # edge to edge
    c = Counter()
    for d in D.tolist():
        for a, b in ((0, 1), (1, 2), (2, 0)):
            c[(d[a], d[b]) if d[a] < d[b] else (d[b], d[a])] += 1
    closed, pole = sides(S)
    eps = 1e-9 * L

    def on_side(i, side):
        k, x = divmod(side, 2)
        return any(abs(q[k] - x * L[k]) < eps[k] for q in par[i])
    over = [k for k, v in c.items() if v > 2]
    rec.check(not over, 'C16/overlap', lambda: f'{where}: edges shared by more than two triangles: {[P[list(k)].tolist() for k in over[:2]]}')
    free = [k for k, v in c.items() if v == 1]
    crack = [k for k in free if not any(on_side(k[0], s) and on_side(k[1], s) for s in range(4) if not closed[s // 2] and not pole[s])]
    rec.check(not crack, 'C16/crack', lambda: f'{where}: {len(crack)} edges belong to one triangle only but are not at the boundary of the surface: {[(sorted(par[a])[:2], sorted(par[b])[:2]) for a, b in crack[:3]]}')
    # Euler characteristic
    V, E = len(set(D.ravel().tolist())), len(c)
    chi = 0 if all(closed) else 0 if any(closed) else 1
    if any(closed):
        chi += sum(pole)
    if expect is None:
        rec.check(V - E + n == chi, 'C16/euler', lambda: f'{where}: {V} vertices, {E} edges, {n} triangles, should have Euler characteristic {chi}')
    # tiling of the parameter domain
    total = 0.
    cuts = [sorted(b for b in S.breakpoints1 if eps[0] < b < L[0] - eps[0]), sorted(b for b in S.breakpoints2 if eps[1] < b < L[1] - eps[1])]
    for d in D.tolist():
        P3 = [par[i] for i in d]
        q, poles = None, []
        single = {}
        for j, s in enumerate(P3):
            us, vs = [x[0] for x in s], [x[1] for x in s]
            if any(pole[k] and on_side(d[j], k) for k in range(4)):
                poles.append(j)
        rest = [j for j in range(3) if j not in poles]
        if len(poles) > 1:
            rec.violation('C16/pole', f'{where}: triangle with two vertices at a pole')
            return
        best = None
        for comb in itertools.product(*[P3[j] for j in rest]):
            a = np.array(comb)
            w = ((a.max(axis=0) - a.min(axis=0)) / L).sum()
            if best is None or w < best[0] - 1e-12:
                best = (w, a)
        a = best[1]
        if poles:
            side = [k for k in range(4) if pole[k] and on_side(d[poles[0]], k)][0]
            k, x = divmod(side, 2)
            b = a[::-1].copy()
            b[:, k] = x * L[k]
            a = np.concatenate((a, b))
        total += area2(a)
        lo, hi = a.min(axis=0), a.max(axis=0)
        for k in (0, 1):
            across = [b for b in cuts[k] if lo[k] + eps[k] < b < hi[k] - eps[k]]
            if across:
                rec.violation('C16/section', f'{where}: triangle with parameters {a.tolist()} lies across the breakpoint {across} of direction {k}')
                return
    rec.check(abs(total / (L[0] * L[1]) - 1) < 1e-9, 'C16/cover', lambda: f'{where}: the triangles cover {total / (L[0] * L[1])} times the domain of the surface')
    # the size of the elements
    if size is not None:
        lim = factor * (size if not callable(size) else np.array([max(size(*p) for p in (*x, x.mean(axis=0), *((x + np.roll(x, 1, axis=0)) / 2))) for x in tri]))
        rec.check((e.max(axis=1) <= lim * (1 + 1e-9)).all(), 'C16/size', lambda: f'{where}: edge of {np.max(e.max(axis=1) / lim)} times the allowed length: triangle {tri[np.argmax(e.max(axis=1) / lim)].tolist()}')
        if not callable(size):
            # sides of quads are at most the mesh size, at most one edge of most triangles is a diagonal
            second = np.sort(e, axis=1)[:, 1].max() / size
            rec.check(second <= 1.25, 'C16/side', lambda: f'{where}: second longest edge of a triangle is {second} times the mesh size')
    return m


def check(S, rec, where, mesh_size=None, factor=2.0, mesh_size_factor=None, limit=None, **k):
    """Mesh and examine; the mesh of the surface itself is the mesh of the surface that writes down its arguments."""
    s2, log = spy(S)
    group = k.get('name', None) or S.name
    kw = dict(k, mesh_size=mesh_size)
    if mesh_size_factor is not None:
        kw['mesh_size_factor'] = mesh_size_factor
    m2 = rec.call('C16/mesh', lambda: s2.mesh(**kw))
    lim = limit or mesh_size
    if mesh_size is None:
        lim = min(S.path_length1, S.path_length2) / 4 / (mesh_size_factor or 1)**0.5
    examine(S, m2, log, rec, where, size=lim, factor=factor, group=group)
    rec.state(where)
    rec.trace()
    return m2


# ------------------------------------------------------------- surfaces

def plane(b1=(), b2=(), L1=4., L2=4., f=None):
    f = f or (lambda u, v: (u, v, 0.2))
    return G.Surface(lambda u, v: np.array(f(u, v), float), L1, L2, list(b1), list(b2))


def torus():
    return G.Path.circle_xz(2., 0., 0.9).revolve_z()


def pattern_size(cells, cell_of, base):
    """The mesh size of a cell that has to be refined `level` times."""
    return lambda x, y, z: base / 2**cells.get(cell_of(x, y, z), 0) * 1.01


def surfaces():
    P, S = G.Path, G.Surface
    d = {}
    for n, f in (('xz', S.rectangle_xz), ('yz', S.rectangle_yz), ('xy', S.rectangle_xy)):
        d['rectangle ' + n] = lambda f=f: f(-0.5, 1., 0.3, 0.8)
        d['long rectangle ' + n] = lambda f=f: f(1., 14., 0.3, 0.8)
    for n, f in (('xz', S.disk_xz), ('yz', S.disk_yz), ('xy', S.disk_xy)):
        d['disk ' + n] = lambda f=f: f(0., 0., 0.7)
        d['moved disk ' + n] = lambda f=f: f(-1.3, 2., 0.7)
    d['sphere'] = lambda: S.sphere(1.)
    d['moved sphere'] = lambda: S.sphere(0.3).move(dx=2., dy=-1., dz=0.5)
    d['turned sphere'] = lambda: S.sphere(1.3).rotate(Rx=0.4).move(dz=1.)
    d['mirrored sphere'] = lambda: S.sphere(1.3).move(dz=1.).mirror_xy()
    d['aperture'] = lambda: S.aperture(0.4, 0.5, 1.5)
    d['moved aperture'] = lambda: S.aperture(0.4, 0.5, 1.5, z=2.)
    d['torus'] = torus
    poly = lambda: P.line([1., 0., 0.], [1., 0., 1.]).line_to([1.5, 0., 1.]).line_to([1.9, 0., 0.2])
    ring = lambda: poly().close()
    for a in (2 * np.pi, 1., -1., np.pi, 5., -2 * np.pi):
        d[f'revolve z {a:.2f}'] = lambda a=a: poly().revolve_z(angle=a)
        d[f'revolve ring z {a:.2f}'] = lambda a=a: ring().revolve_z(angle=a)
        d[f'revolve x {a:.2f}'] = lambda a=a: P.line([0., 1., 0.], [0.6, 0.5, 0.]).line_to([1.4, 0.5, 0.]).revolve_x(angle=a)
        d[f'revolve y {a:.2f}'] = lambda a=a: P.line([1., 0., 0.], [0.6, 0.5, 0.]).line_to([0.6, 1.5, 0.]).revolve_y(angle=a)
    d['can'] = lambda: P.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 0., 2.]).line_to([0., 0., 2.]).revolve_z()
    d['cone'] = lambda: P.line([1., 0., 0.], [0., 0., 1.]).revolve_z()
    d['half sphere'] = lambda: P.arc([0., 0., 0.], [0., 0., 1.], [1., 0., 0.]).revolve_z()
    d['wedge of can'] = lambda: P.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 0., 2.]).line_to([0., 0., 2.]).revolve_z(angle=1.2)
    d['extruded line'] = lambda: P.line([0., 0., 0.], [1., 0.3, 0.]).extrude([0.1, 0.2, 2.])
    d['extruded polyline'] = lambda: poly().extrude([0., 2., 0.])
    d['extruded ring'] = lambda: ring().extrude([0.3, -2., 0.])
    d['extruded circle'] = lambda: P.circle_xy(0.3, 0.1, 1.).extrude([0., 0., 3.])
    d['extruded by path'] = lambda: poly().extrude_by_path(P.line([0., 0., 0.], [0., 1., 0.]).line_to([0., 1.5, 0.5]))
    d['ring extruded by path'] = lambda: ring().extrude_by_path(P.line([0., 0., 0.], [0., 1., 0.]).line_to([0., 2.5, 0.5]).line_to([0., 3., 0.5]))
    d['extruded by arc'] = lambda: P.line([1., 0., 0.], [1., 0., 1.]).extrude_by_path(P.arc([0., 0., 0.], [1., 0., 0.], [0., 1., 0.]))
    d['spanned lines'] = lambda: S.spanned_by_paths(P.line([0., 0., 0.], [1., 0., 0.]), P.line([0., 1., 0.2], [2., 1., 0.]))
    d['spanned polylines'] = lambda: S.spanned_by_paths(poly(), poly().move(dy=1.))
    d['spanned different'] = lambda: S.spanned_by_paths(poly(), P.line([1., 1., 0.], [1.9, 1.5, 0.3]).line_to([3., 1., 0.]))
    d['spanned circles'] = lambda: S.spanned_by_paths(P.circle_xy(0., 0., 1.), P.circle_xy(0., 0., 2.))
    d['spanned rings'] = lambda: S.spanned_by_paths(ring(), ring().move(dy=0.7))
    d['four paths'] = lambda: S.from_boundary_paths(P.line([0., 0., 0.], [1., 0., 0.]), P.line([1., 0., 0.], [1., 1., 0.]), P.line([1., 1., 0.], [0., 1., 0.]), P.line([0., 1., 0.], [0., 0., 0.]))
    d['flat cone'] = lambda: P.line([.01, 0., 0.], [1., 0., .2]).revolve_z()
    d['quarter of disk'] = lambda: P.line([.01, 0., 0.], [1., 0., 0.]).revolve_z(angle=np.pi / 2)
    d['graph'] = lambda: plane(f=lambda u, v: (u, v, 0.3 * np.sin(2 * u) * np.cos(v)))
    d['fan'] = lambda: plane(f=lambda u, v: (u, v * (0.04 + u * u), 0.))
    d['stretched'] = lambda: plane(f=lambda u, v: (np.exp(u), v, 0.))
    d['stretched both'] = lambda: plane(f=lambda u, v: (np.exp(u), np.exp(0.8 * v), 0.))
    d['needle'] = lambda: plane(f=lambda u, v: (u, 0.02 * v, 0.))
    d['sheared'] = lambda: plane(f=lambda u, v: (u + 3 * v, v, 0.))
    d['wave'] = lambda: plane(f=lambda u, v: (u, v, 0.5 * np.sin(3 * u)))
    d['spiral'] = lambda: plane(f=lambda u, v: ((1 + 0.3 * u) * np.cos(2 * u), (1 + 0.3 * u) * np.sin(2 * u), v))
    return d


def names():
    """The names only, without needing the package."""
    import inspect
    class Any:
        def __getattr__(self, n): return self
    g = globals()
    old = g.get('G')
    g['G'] = Any()
    try:
        return list(surfaces())
    finally:
        g['G'] = old


def smooth(c, a, b):
    return lambda x, y, z: a + b * ((x - c[0])**2 + (y - c[1])**2 + (z - c[2])**2)**0.5


# ------------------------------------------------------------- cases

def cases(tier, seed):
    out = []
    deep = tier == 'thorough'
    levels = 4 if not deep else 5
    first = list(itertools.product(range(levels), repeat=2))
    for kind in ('plane', 'flat cells', 'torus', 'sections', 'four cells in a row', 'sphere') + (('tall cells', 'needle cells', 'three by three') if deep else ()):
        out += [dict(what='pattern', kind=kind, first=list(f), levels=levels) for f in first]
    out += [dict(what='breakpoints', kind=k, b1=b1, deep=deep) for k in ('plane', 'torus', 'cylinder', 'graph') for b1 in range(8)]
    out += [dict(what='odd breakpoints', kind=k) for k in ('plane', 'torus')]
    out += [dict(what='surface', name=n, deep=deep) for n in names()]
    out += [dict(what='box'), dict(what='names'), dict(what='factors', k=0), dict(what='factors', k=1), dict(what='scales'), *(dict(what='sizes', name=n, deep=deep) for n in ('disk xy', 'flat cone', 'quarter of disk', 'sphere', 'cone', 'spanned circles', 'fan', 'torus', 'wedge of can')), dict(what='collections')]
    return out


def run(case, rec):
    {'pattern': pattern, 'breakpoints': breakpoints, 'odd breakpoints': odd, 'surface': one, 'box': box, 'names': group_names, 'factors': factors, 'scales': scales, 'sizes': sizes, 'collections': collections}[case['what']](case, rec)


def pattern(case, rec):
    kind, n = case['kind'], case['levels']
    for rest in itertools.product(range(n), repeat=2):
        lv = tuple(case['first']) + rest
        where = f'{kind}: levels {lv}'
        limit = None
        if kind in ('plane', 'flat cells', 'tall cells', 'needle cells'):
            ax, ay = {'plane': (1., 1.), 'flat cells': (1., 0.45), 'tall cells': (0.41, 1.), 'needle cells': (1., 0.2)}[kind]
            S = plane(f=lambda u, v: (ax * u, ay * v, 0.2))
            cells = dict(zip(((1, 1), (2, 1), (1, 2), (2, 2)), lv))
            size = pattern_size(cells, lambda x, y, z: (int(x / ax), int(y / ay)), 1.)
        elif kind == 'four cells in a row':
            S = plane(f=lambda u, v: (u, 0.5 * v, 0.2))
            cells = dict(zip(((0, 2), (1, 2), (2, 2), (3, 2)), lv))
            size = pattern_size(cells, lambda x, y, z: (int(x), int(2 * y)), 1.)
        elif kind == 'three by three':
            S = plane(b1=[1.], b2=[3.])
            cells = dict(zip(((0, 0), (1, 0), (0, 1), (2, 2)), lv))
            size = pattern_size(cells, lambda x, y, z: (int(x), int(y)), 1.)
        elif kind == 'sections':
            S = plane(b1=[1.], b2=[3.])
            cells = dict(zip(((0, 0), (1, 0), (0, 1), (1, 1)), lv))
            size = pattern_size(cells, lambda x, y, z: (int(x >= 1), int(y >= 3)), 0.8)
        elif kind == 'torus':
            S = torus()
            cells = dict(zip(((0, 0), (3, 0), (0, 3), (3, 3)), lv))

            def cell_of(x, y, z):
                phi = np.arctan2(y, x) % (2 * np.pi)
                th = np.arctan2(z, np.hypot(x, y) - 1.4) % (2 * np.pi)
                return int(phi / np.pi * 2), int(th / np.pi * 2)
            size = pattern_size(cells, cell_of, 2.4)
        elif kind == 'sphere':
            S = G.Surface.sphere(1.)
            cells = dict(zip(((0, 0), (3, 0), (0, 1), (3, 1)), lv))
            cell_of = lambda x, y, z: (int(np.arctan2(y, x) % (2 * np.pi) / np.pi * 2), int(np.arccos(z / (1e-300 + (x * x + y * y + z * z)**.5)) / np.pi * 4))
            size = pattern_size(cells, cell_of, 1.)
            # points on the border of two cells belong to both of them
            limit = lambda x, y, z: max(size(x + a, y + b, z) for a in (-1e-6, 1e-6) for b in (-1e-6, 1e-6))
        flat = kind not in ('torus', 'sphere')
        check(S, rec, where, mesh_size=size, factor=1.5 if flat else 2.5, limit=limit)


B = [1., 1.5, 3.6]


def surface_with(kind, b1, b2):
    if kind == 'plane':
        return plane(b1, b2)
    if kind == 'graph':
        return plane(b1, b2, f=lambda u, v: (u, v, np.sin(u) + 0.2 * v * v))
    if kind == 'cylinder':
        return plane(b1, b2, f=lambda u, v: (np.cos(u * np.pi / 2), np.sin(u * np.pi / 2), v))
    return plane(b1, b2, f=lambda u, v: ((2 + np.cos(v * np.pi / 2)) * np.cos(u * np.pi / 2), (2 + np.cos(v * np.pi / 2)) * np.sin(u * np.pi / 2), np.sin(v * np.pi / 2)))


def breakpoints(case, rec):
    kind = case['kind']
    b1 = [b for i, b in enumerate(B) if case['b1'] >> i & 1]
    for k in range(8):
        b2 = [b for i, b in enumerate(B) if k >> i & 1]
        for ms in (5., 0.6, 0.33, smooth((0.2, 0.9, 0.), 0.1, 0.3), smooth((3., 0.1, 0.), 0.2, 0.2)) if case['deep'] else (1.1, smooth((0.2, 0.9, 0.), 0.15, 0.35)):
            S = surface_with(kind, b1, b2)
            check(S, rec, f'{kind}: breakpoints {b1} {b2}, size {ms if not callable(ms) else "function"}', mesh_size=ms, factor=2.5)


def odd(case, rec):
    up = np.nextafter
    lists = [[], [1.5], [1., 1.], [2., 1.], [3., 1., 2., 1.], [0., 2.], [2., 4.], [0., 4.], [1., up(1., 2)], [up(4., 0), 1e-300], [1e-17, 2., 2.]]
    for b1, b2 in itertools.product(lists, repeat=2):
        S = surface_with(case['kind'], b1, b2)
        check(S, rec, f'{case["kind"]}: breakpoints {b1} {b2}', mesh_size=1.3, factor=2.5)


def one(case, rec):
    n = case['name']
    S = rec.call('C16/make', surfaces()[n])
    Lmin = min(S.path_length1, S.path_length2)
    rec.check(Lmin > 0, 'C16/length', lambda: f'{n}: lengths {S.path_length1} {S.path_length2}')
    c = np.array(S(0.3 * S.path_length1, 0.6 * S.path_length2))
    d = np.array(S(0., S.path_length2))
    for i, ms in enumerate([None, Lmin / 2.2, Lmin / 7, smooth(c, Lmin / 40, 0.3), smooth(d, Lmin / 30, 0.4)] + ([Lmin / 17, Lmin / 33, smooth(c, Lmin / 200, 0.2), smooth(d, Lmin / 100, 0.25)] if case['deep'] else [])):
        m2 = check(S, rec, f'{n}, size {i}', mesh_size=ms, factor=2.6 if callable(ms) else 2.0, name='g' if i % 2 else None)
        m = rec.call('C16/mesh', lambda: S.mesh(mesh_size=ms, name='g' if i % 2 else None))
        rec.check(np.array_equal(m.points, m2.points) and np.array_equal(m.triangles, m2.triangles), 'C16/same', lambda: f'{n}: meshing twice gives different meshes')
    check(S, rec, f'{n}, factor 5', mesh_size_factor=5)


def box(case, rec):
    for p0, p1 in itertools.product(([0., 0., 0.], [1., -2., 0.5]), ([3., 1., 2.], [-1., 4., -1.5])):
        for ms in (None, 0.7, smooth((0., 0., 0.), 0.15, 0.3)):
            S = rec.call('C16/box', lambda: G.Surface.box(p0, p1))
            m = rec.call('C16/mesh', lambda: S.mesh(mesh_size=ms, name='box'))
            rec.state(('box', p0, p1, str(ms)[:10]))
            rec.trace()
            T = m.points[m.triangles.astype(int)]
            n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]) / 2
            lo, hi = np.minimum(p0, p1), np.maximum(p0, p1)
            d = hi - lo
            for k in range(3):
                for x in (lo[k], hi[k]):
                    on = np.abs(T[:, :, k] - x).max(axis=1) < 1e-9
                    a = np.linalg.norm(n[on], axis=1).sum()
                    want = d.prod() / d[k]
                    rec.check(abs(a / want - 1) < 1e-9, 'C16/box', lambda: f'box {p0} {p1}: area {a} of the face with coordinate {k} = {x}, should be {want}')
            a, want = np.linalg.norm(n, axis=1).sum(), 2 * (d.prod() / d).sum()
            rec.check(abs(a / want - 1) < 1e-9, 'C16/box', lambda: f'box {p0} {p1}: area {a}, should be {want}')
            rec.check(sorted(map(int, m.physical_to_triangles['box'])) == list(range(len(T))), 'C16/group', 'box: not all triangles belong to the group')
            if ms is not None and not callable(ms):
                # equal mesh size on all faces: the box is closed
                c = Counter(tuple(sorted((a, b))) for tr in m.triangles.tolist() for a, b in zip(tr, tr[1:] + tr[:1]))
                rec.count('box edges', len(c))


def group_names(case, rec):
    for make in (lambda: plane(), lambda: plane([1.], [2., 3.]), lambda: G.Surface.sphere(1.), lambda: G.Surface.disk_xy(0., 1., 1.)):
        for own, given, ensure in itertools.product((None, 'own'), (None, 'given'), (None, True, False)):
            S = make()
            S.name = own
            kw = {} if given is None else dict(name=given)
            if ensure is not None:
                kw['ensure_outward_normals'] = ensure
            check(S, rec, f'{S} name {own}, {kw}', **kw)


def factors(case, rec):
    made = [(n, surfaces()[n]) for n in ('rectangle xy', 'sphere', 'disk xy', 'torus', 'extruded ring', 'graph', 'wedge of can', 'spanned polylines')[case['k']::2]]
    for n, mk in made:
        S = mk()
        counts = []
        for f in (1, 1.7, 4, np.float64(9.), 16, np.int64(40)):
            m = check(S, rec, f'{n} factor {f!r}', mesh_size_factor=f)
            counts.append(len(m.triangles))
        rec.check(counts == sorted(counts) and counts[-1] > counts[0], 'C16/factor', lambda: f'{n}: number of triangles {counts} does not grow with the mesh size factor')


def scales(case, rec):
    for n in ('rectangle xy', 'sphere', 'disk xy', 'torus', 'extruded ring', 'fan', 'wedge of can', 'spanned polylines', 'can'):
        S = surfaces()[n]()
        for ms in (None, min(S.path_length1, S.path_length2) / 9):
            ref = S.mesh(mesh_size=ms, mesh_size_factor=None if ms else 3)
            for k in (1e-9, 1e-6, 1e-3, 2.**10, 1e6):
                X = G.Surface(lambda u, v: k * np.asarray(S(u / k, v / k)), k * S.path_length1, k * S.path_length2, [k * b for b in S.breakpoints1], [k * b for b in S.breakpoints2])
                m = check(X, rec, f'{n} scaled by {k}, size {ms}', mesh_size=None if ms is None else k * ms, mesh_size_factor=None if ms else 3)
                rec.check(abs(len(m.triangles) / len(ref.triangles) - 1) < 0.2, 'C16/scale', lambda: f'{n}: {len(ref.triangles)} triangles, {len(m.triangles)} when scaled by {k}')


def sizes(case, rec):
    """Mesh sizes in small steps: the refinement of a section changes at different sizes for its sides."""
    S = surfaces()[case['name']]()
    for x in np.geomspace(0.8, 20. if case['deep'] else 9., 60 if case['deep'] else 24):
        check(S, rec, f'{case["name"]}: size one over {x}', mesh_size=min(S.path_length1, S.path_length2) / x)


def collections(case, rec):
    ns = ['rectangle xy', 'sphere', 'extruded ring', 'can']
    for a, b in itertools.product(ns, repeat=2):
        for own, coll, given in itertools.product(((None, None), ('u', 'v'), ('u', 'u'), (None, 'v')), (None, 'c'), (None, 'g')):
            A, Bs = surfaces()[a](), surfaces()[b]().move(dx=30.)
            A.name, Bs.name = own
            c = A + Bs
            if coll:
                c.name = coll
            m = rec.call('C16/mesh', lambda: c.mesh(mesh_size=0.6, **(dict(name=given) if given else {})))
            rec.state((a, b, own, coll, given))
            rec.trace()
            far = m.points[m.triangles.astype(int)][:, :, 0].min(axis=1) > 15
            want = {}
            for g, sel in ((given or coll or own[0], ~far), (given or coll or own[1], far)):
                if g:
                    want.setdefault(g, set()).update(np.flatnonzero(sel).tolist())
            rec.check({k: set(map(int, v)) for k, v in m.physical_to_triangles.items()} == want and all(len(set(v.tolist())) == len(v) for v in m.physical_to_triangles.values()), 'C16/groups',
                      lambda: f'{a} + {b} {own} {coll} {given}: groups {m.physical_to_triangles}')
            for S, sel in ((A, ~far), (Bs, far)):
                s2, log = spy(S)
                part = s2.mesh(mesh_size=0.6)
                rec.check(len(part.triangles) == sel.sum(), 'C16/union', lambda: f'{a} + {b}: {sel.sum()} triangles for a member whose mesh has {len(part.triangles)}')
                sub = t.mesher.Mesh(points=m.points, triangles=m.triangles[sel])
                examine(S, sub, log, rec, f'{a} + {b}', size=0.6)
