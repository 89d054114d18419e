"""Orientation of normals: all initial orientations (and element orders) of small closed bodies and contours, and meshes of all body
constructors. The reference orientation of every element is part of the definition of the body."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C18'
RULE = 'State: (body, initial orientation of every element, element order, first vertices). Non-trivial: at least one element is oriented differently from the result.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, G, M
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    G, M = t.geometry, t.mesher


# ---------------------------------------------------------------- bodies: points, triangles with outward normals (right handed)

def fix(P, T, inside):
    """Orient the faces of a body that is star shaped around the given point."""
    out = []
    for a, b, c in T:
        n = np.cross(P[b] - P[a], P[c] - P[a])
        out.append((a, b, c) if np.dot((P[a] + P[b] + P[c]) / 3 - inside, n) > 0 else (a, c, b))
    return out


def tetra(s=1., at=(0, 0, 0)):
    P = np.array([[0, 0, 0], [1, 0, 0.25], [0.125, 1, 0], [0.25, 0.25, 1.]]) * s + np.array(at)
    return P, fix(P, list(itertools.combinations(range(4), 3)), P.mean(axis=0))


def octa():
    P = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]])
    return P, fix(P, list(itertools.product((0, 1), (2, 3), (4, 5))), np.zeros(3))


def cube(at=(0, 0, 0), size=(1, 1, 1), split=()):
    """Cube of 12 triangles; for the faces in split the triangles are divided in two, so that they do not fit to their neighbours."""
    at = np.array(at, float)
    P = np.array(list(itertools.product((0., 1.), repeat=3))) * size + at
    faces = [(0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (2, 3, 7, 6), (0, 2, 6, 4), (1, 3, 7, 5)]
    T, P = [], list(P)
    for i, (a, b, c, d) in enumerate(faces):
        if i in split:
            # the edges of the face are divided, for this face only
            m = len(P)
            Q = [(P[x] + P[y]) / 2 for x, y in ((a, b), (b, c), (c, d), (d, a))] + [(P[a] + P[c]) / 2]
            P += Q
            for k, x in enumerate((a, b, c, d)):
                T += [(x, m + k, m + 4), (x, m + (k + 3) % 4, m + 4)]
        else:
            T += [(a, b, c), (a, c, d)]
    P = np.array(P)
    return P, fix(P, T, at + np.array(size) / 2)


def dent():
    """Not convex: a tetrahedron with a pyramid cut out of one side."""
    P = np.array([[0, 0, 0], [3, 0, 0], [0, 3, 0], [0.7, 0.7, 3], [1, 1, 1.]])
    T = fix(P[:4], [(0, 1, 3), (1, 2, 3), (0, 2, 3)], P[:4].mean(axis=0))
    # the bottom, seen from below, is replaced by three faces to the point inside
    for a, b in ((0, 1), (1, 2), (2, 0)):
        n = np.cross(P[b] - P[a], P[4] - P[a])
        below = np.array([1., 1., 0.])
        T.append((a, b, 4) if np.dot(below - (P[a] + P[b] + P[4]) / 3, n) > 0 else (b, a, 4))
    return P, T


def ring3():
    """A torus with triangular cross section: 18 triangles; and a small one with 3 x 3 vertices."""
    P, T = [], []
    for i in range(3):
        a = 2 * np.pi * i / 3
        for r, z in ((2., 0.), (3., 0.2), (2.4, 0.9)):
            P.append([r * np.cos(a), r * np.sin(a), z])
    P = np.array(P)
    for i in range(3):
        for j in range(3):
            a, b = 3 * i + j, 3 * i + (j + 1) % 3
            c, d = 3 * ((i + 1) % 3) + j, 3 * ((i + 1) % 3) + (j + 1) % 3
            T += [(a, c, d), (a, d, b)]
    vol = sum(np.dot(P[a], np.cross(P[b], P[c])) for a, b, c in T)
    return P, T if vol > 0 else [(a, c, b) for a, b, c in T]


def join(*bodies):
    P, T = [], []
    for p, tr in bodies:
        T += [tuple(x + len(P) for x in f) for f in tr]
        P += list(p)
    return np.array(P), T


def six(body):
    P, T = body
    P, mid, out = list(P), {}, []
    for f in T:
        row = list(f)
        for a, b in zip(f, f[1:] + f[:1]):
            k = (min(a, b), max(a, b))
            if k not in mid:
                mid[k] = len(P)
                P.append((P[a] + P[b]) / 2)
            row.append(mid[k])
        out.append(tuple(row))
    return np.array(P), out


BODIES = {
    'tetrahedron': lambda: tetra(),
    'tiny tetrahedron': lambda: tetra(1e-6),
    'tetrahedron left': lambda: tetra(1., (-7., 2., 3.)),
    'tetrahedron far': lambda: tetra(1., (-1000., 20., 500.)),
    'octahedron': octa,
    'dented tetrahedron': dent,
    'two tetrahedra': lambda: join(tetra(), tetra(0.5, (-4., 0, 0))),
    'tetrahedron inside another': lambda: join(tetra(8., (-3., -2., -2.)), tetra(0.25, (-1.5, -0.5, -0.5))),
    'tetrahedra touching in a vertex': lambda: join(tetra(), (lambda b: (b[0] - b[0][1] + tetra()[0][3], b[1]))(tetra(0.7))),
    'octahedra touching in a vertex': lambda: join(octa(), (lambda b: (b[0] + [2., 0, 0], b[1]))(octa())),
    'cubes touching in an edge': lambda: join(cube(), cube((1., 1., 0.))),
    'cube': lambda: cube(),
    'flat cube left': lambda: cube((-5., 1., 1.), (2., 1., 0.1)),
    'cube with one divided side': lambda: cube(split=(3,)),
    'cube with three divided sides': lambda: cube((-3., 0, 0), split=(0, 2, 4)),
    'ring': ring3,
    'six node tetrahedron': lambda: six(tetra()),
    'six node octahedron': lambda: six(octa()),
}


# ---------------------------------------------------------------- contours: points (x, z), lines such that the normal points outward

def contour(P, closed=True, order4=False, at=(0., 0.)):
    """The points go around counter-clockwise in the (x, z) plane; the normal of a line (a, b) is (zb-za, -(xb-xa))."""
    P = np.array(P, float) + np.array(at)
    n = len(P)
    E = [(i, (i + 1) % n) for i in range(n if closed else n - 1)]
    pts = np.stack([P[:, 0], 0 * P[:, 0], P[:, 1]], axis=1)
    if order4:
        pts, out = list(pts), []
        for a, b in E:
            d = pts[b] - pts[a]
            nrm = np.array([-d[2], 0, d[0]]) * 0.05
            out.append((a, b, len(pts), len(pts) + 1))
            pts += [pts[a] + d / 3 + nrm, pts[a] + 2 * d / 3 + 1.5 * nrm]
        return np.array(pts), out
    return pts, E


SQ = [[0, 0], [1, 0], [1, 1], [0, 1]]
LSH = [[0, 0], [2, 0], [2, 1], [1, 1], [1, 2], [0, 2]]
HALF = [[0, -1], [0.8, -0.7], [1, 0], [0.6, 0.9], [0, 1.2]]
STAR = [[2, 0], [2.2, 0.8], [3, 1], [2.2, 1.2], [2, 2], [1.8, 1.2], [1, 1], [1.8, 0.8]]

CONTOURS = {
    'square': lambda o: contour(SQ, order4=o, at=(0.5, 0)),
    'square at the axis': lambda o: contour(SQ, order4=o),
    'tiny square': lambda o: contour(np.array(SQ) * 1e-6, order4=o, at=(1e-4, 3e-5)),
    'square far': lambda o: contour(SQ, order4=o, at=(300., -1000.)),
    'l shape': lambda o: contour(LSH, order4=o, at=(1., -3.)),
    'star': lambda o: contour(STAR, order4=o),
    'profile of a sphere': lambda o: contour(HALF, closed=False, order4=o),
    'two squares': lambda o: join(contour(SQ, order4=o, at=(1., 0)), contour(SQ, order4=o, at=(1., 4.))),
    'square inside another': lambda o: join(contour(np.array(SQ) * 5, order4=o, at=(1., 0)), contour(SQ, order4=o, at=(3., 2.))),
    'squares touching in a vertex': lambda o: join(contour(SQ, order4=o, at=(1., 0)), contour(SQ, order4=o, at=(2., 1.))),
    'two lines': lambda o: join(contour([[1, 0], [2, 0.5]], order4=True, at=(0., 0)) if o else contour([[1, 0], [2, 0.5], [1.2, 1]], order4=o)),
}


def reverse(e):
    if len(e) == 2:
        return e[1], e[0]
    if len(e) == 4:
        return e[1], e[0], e[3], e[2]
    if len(e) == 3:
        return e[0], e[2], e[1]
    return e[0], e[2], e[1], e[5], e[4], e[3]


def turn(e, k):
    """Another first vertex (triangles only)."""
    if len(e) in (2, 4):
        return e
    k %= 3
    return tuple(e[k:3] + e[:k]) + (tuple(e[3 + k:] + e[3:3 + k]) if len(e) == 6 else ())


def which(P, p):
    """Number of the point in P (which has well separated points) that is p up to the rounding of points by Mesh."""
    d = np.abs(P - p).max(axis=1)
    i = int((d <= 1e-10 * np.abs(P).max()).argmax())
    return i if d[i] <= 1e-10 * np.abs(P).max() else -1


def key(m, e, P):
    """Nodes of an element as numbers of points in P, independent of its first vertex."""
    c = [which(P, m.points[int(i)]) for i in e]
    if len(e) in (2, 4):
        return tuple(c)
    k = min(range(3), key=lambda i: c[i])
    return tuple(c[k:3] + c[:k]) + tuple(c[3 + k:] + c[3:3 + k])


def bits(n):
    return range(2**n)


def cases(tier, seed):
    deep = tier == 'thorough'
    out = []
    for name in BODIES:
        small = any(w in name for w in ('tetrahedron', 'octahedron')) and not 'two' in name and 'inside' not in name
        for part in range(8 if small and not deep else 16):
            out.append(dict(what='body', name=name, part=part, parts=8 if small and not deep else 16, deep=deep))
    for name in CONTOURS:
        for o in (False, True):
            out.append(dict(what='contour', name=name, order4=o, deep=deep))
    out += [dict(what='made', k=k) for k in range(len(MADE))]
    out += [dict(what='made2', k=k) for k in range(8)]
    out += [dict(what='groups')]
    return out


def run(case, rec):
    {'body': body, 'contour': contours, 'made': made, 'made2': made2, 'groups': groups}[case['what']](case, rec)


def judge(m, P, el, ref, inward, key_, rec, where):
    """Every element has the coordinates of the reference element, with the wanted orientation."""
    got = [key(m, e, P) for e in el(m)]
    want = [r if not inward else i for r, i in zip(*ref)]
    bad = [i for i, (g, w) in enumerate(zip(got, want)) if g != w]
    rec.check(len(got) == len(want) and not bad, key_, lambda: f'{where}: {len(bad)} of {len(want)} elements are wrong: {got[bad[0]] if bad else ""}, should be {want[bad[0]] if bad else ""}')


def sequence(P, E, pattern, order, starts, lines, rec, where):
    """Make the mesh and ask for orientations; E has the outward orientation."""
    els = []
    for j in order:
        e = E[j]
        if pattern >> j & 1:
            e = reverse(e)
        els.append(turn(e, starts * j))
    grp = dict(physical_to_lines={'g': np.arange(len(els))}) if lines else dict(physical_to_triangles={'g': np.arange(len(els))})
    kw = dict(points=P, ensure_outward_normals=False, **{'lines' if lines else 'triangles': np.array(els, dtype=np.uint64)})
    el = (lambda m: m.lines) if lines else (lambda m: m.triangles)
    m = rec.call('C18/make', lambda: M.Mesh(**kw, **grp))

    first = [which(P, p) for p in P]     # parts that touch have points in common

    def k(e):
        c = [first[i] for i in e]
        if len(e) in (2, 4):
            return tuple(c)
        j = min(range(3), key=lambda i: c[i])
        return tuple(c[j:3] + c[:j]) + tuple(c[3 + j:] + c[3:3 + j])
    ref = [k(E[j]) for j in order], [k(reverse(E[j])) for j in order]
    rec.check([key(m, e, P) for e in el(m)] == [k(e) for e in els], 'C18/kept', lambda: f'{where}: constructing with ensure_outward_normals=False changes the orientation')
    before = m.points.copy()
    for i, (inward, what) in enumerate(((False, 'outward'), (False, 'outward again'), (True, 'inward'), (True, 'inward again'), (False, 'outward after inward'))):
        old = el(m).copy()
        rec.call('C18/' + what, lambda: (m.ensure_inward_normals if inward else m.ensure_outward_normals)('g'))
        rec.step()
        judge(m, P, el, ref, inward, 'C18/' + what.split()[0], rec, f'{where}, {what}')
        if 'again' in what:
            rec.check(np.array_equal(old, el(m)), 'C18/again', lambda: f'{where}: {what} changes the elements')
    rec.check(np.array_equal(before, m.points), 'C18/points', lambda: f'{where}: points changed')
    # directly inward, and by default outward
    m2 = M.Mesh(**kw, **grp)
    rec.call('C18/inward', lambda: m2.ensure_inward_normals('g'))
    judge(m2, P, el, ref, True, 'C18/inward', rec, f'{where}, directly inward')
    del kw['ensure_outward_normals']
    m3 = rec.call('C18/default', lambda: M.Mesh(**kw, **grp))
    judge(m3, P, el, ref, False, 'C18/default', rec, f'{where}, by default')
    m4 = rec.call('C18/default', lambda: M.Mesh(**kw))
    rec.check([key(m4, e, P) for e in el(m4)] == [k(e) for e in els], 'C18/unnamed', lambda: f'{where}: orientation of elements without a name changed')
    rec.state((where,))
    rec.trace()


def body(case, rec):
    name = case['name']
    P, T = BODIES[name]()
    n = len(T)
    if n <= 4:
        jobs = [(p, o, s) for p in bits(n) for o in itertools.permutations(range(n)) for s in (0, 1)]
    elif n <= 8:
        orders = [tuple(range(n)), tuple(range(n))[::-1], tuple((3 * i) % n if n % 3 else (5 * i) % n for i in range(n))]
        if case['deep']:
            orders += [tuple(range(n))[k:] + tuple(range(n))[:k] for k in range(1, n)]
        jobs = [(p, o, s) for p in bits(n) for o in orders for s in (0, 1)]
    elif n <= 12:
        jobs = [(p, tuple(range(n)), 1) for p in bits(n)]
        if not case['deep']:
            # complete up to complement
            jobs = [j for j in jobs if bin(j[0]).count('1') <= n // 2]
            jobs = [(p, o if i % 2 else o[::-1], i % 3) for i, (p, o, s) in enumerate(jobs)]
        else:
            jobs += [(p, tuple(range(n))[::-1], 2) for p in bits(n)]
    else:
        # all patterns with at most k deviations from outward and from inward, and all patterns that are constant on blocks
        k = 3 if case['deep'] else 2
        sel = set()
        for r in range(k + 1):
            for c in itertools.combinations(range(n), r):
                v = sum(1 << i for i in c)
                sel |= {v, (1 << n) - 1 - v}
        for period in (2, 3, 4, 6):
            for v in bits(period):
                sel.add(sum(1 << i for i in range(n) if v >> (i % period) & 1))
        size = -(-n // 6)
        for v in bits(6):
            sel.add(sum(1 << i for i in range(n) if v >> (i // size) & 1))
        jobs = [(p, tuple(range(n)) if i % 2 else tuple(range(n))[::-1], i % 3) for i, p in enumerate(sorted(sel))]
    for p, o, s in jobs[case['part']::case['parts']]:
        sequence(P, T, p, o, s, False, rec, f'{name}: pattern {p:0{n}b} order {o} start {s}')


def contours(case, rec):
    name, o4 = case['name'], case['order4']
    P, E = CONTOURS[name](o4)
    if name == 'two lines':
        # two (curved) lines from one end to the other and back, or a triangle
        if o4:
            P = np.array([[1, 0, 0], [2, 0, 0.5], [1.3, 0, 0.4], [1.6, 0, 0.6], [1.3, 0, -0.1], [1.6, 0, 0.1]])
            # the orientation is judged by the vertices only: a lens of two elements has no area, nothing can be asked
            return
    n = len(E)
    if n <= 4:
        jobs = [(p, o) for p in bits(n) for o in itertools.permutations(range(n))]
    else:
        orders = [tuple(range(n)), tuple(range(n))[::-1], tuple((5 * i) % n if n % 5 else (3 * i) % n for i in range(n))]
        if case['deep']:
            orders += [tuple(range(n))[k:] + tuple(range(n))[:k] for k in range(1, n)]
        jobs = [(p, o) for p in bits(n) for o in orders]
    for p, o in jobs:
        sequence(P, E, p, o, 0, True, rec, f'{name}: pattern {p:0{n}b} order {o} {"line4" if o4 else "line"}')


# ---------------------------------------------------------------- meshes of the body constructors

def _vol(lo, hi):
    return float(np.prod(np.array(hi) - lo))


# name, surface, point inside for star shaped bodies or None, volume
MADE = [
    ('sphere', lambda: G.Surface.sphere(1.), (0, 0, 0.)),
    ('sphere left', lambda: G.Surface.sphere(1.).move(dx=-9., dz=3.), (-9., 0, 3.)),
    ('sphere mirrored', lambda: G.Surface.sphere(1.).move(dx=3.).mirror_yz(), (-3., 0, 0.)),
    ('box', lambda: G.Surface.box([0, 0, 0], [1, 2, 0.5]), (0.5, 1, 0.25)),
    ('box left', lambda: G.Surface.box([-3, 0, 0], [-2.5, 2, 0.5]), (-2.75, 1, 0.25)),
    ('can', lambda: G.Path.line([0., 0., 0.], [1., 0., 0.]).line_to([1., 0., 2.]).line_to([0., 0., 2.]).revolve_z(), (0, 0, 1.)),
    ('extruded disk', lambda: G.Surface.disk_xy(0., 0., 1.).extrude_boundary([0., 0., 2.]), (0, 0, 1.)),
    ('extruded disk left', lambda: G.Surface.disk_yz(0., 1., 1.).move(dx=-9.).extrude_boundary([2., 0., 0.]), (-8, 0, 1.)),
    ('extruded disk xz', lambda: G.Surface.disk_xz(-5., 1., 1.).extrude_boundary([0., -2., 0.]), (-5, -1, 1.)),
    ('extruded rectangle', lambda: G.Surface.rectangle_xy(0., 1., 0., 2.).extrude_boundary([0.2, 0.3, 1.]), (0.6, 1.15, 0.5)),
    ('torus', lambda: G.Path.circle_xz(2., 0., 0.6).revolve_z(), None),
    ('torus left', lambda: G.Path.circle_xz(2., 0., 0.6).revolve_z().move(dx=-9., dy=4.), None),
    ('rectangular ring', lambda: G.Path.rectangle_xz(1., 2., -0.5, 0.5).revolve_z(), None),
    ('sector', lambda: G.Surface.rectangle_xz(1., 2., 0., 1.).revolve_boundary_z(angle=1.), (1.5 * np.cos(0.5), 1.5 * np.sin(0.5), 0.5)),
    ('two spheres', lambda: G.Surface.sphere(1.) + G.Surface.sphere(0.5).move(dx=-3.), 'two'),
    ('half ball', lambda: G.Path.arc([0., 0., 0.], [0., 0., 1.], [1., 0., 0.]).line_to([0., 0., 0.]).revolve_z(), (0, 0, 0.3)),
]


def made(case, rec):
    name, make, inside = MADE[case['k']]
    for ms in (dict(), dict(mesh_size=0.3), dict(mesh_size=0.19), dict(mesh_size_factor=3), dict(mesh_size_factor=8), dict(mesh_size=lambda x, y, z: 0.15 + 0.2 * abs(z)), dict(mesh_size=lambda x, y, z: 0.15 + 0.1 * abs(x - 0.7) + 0.1 * abs(y))):
        S = rec.call('C18/make', make)
        S.name = 'g'
        m = rec.call('C18/mesh', lambda: S.mesh(**ms))
        where = f'{name} {list(ms)} {[v for v in ms.values() if not callable(v)]}'

        def outward(m, sign, what):
            T = m.points[m.triangles.astype(int)]
            n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]) * sign
            c = T.mean(axis=1)
            if inside == 'two':
                far = c[:, 0] < -1.5
                d = c - np.where(far[:, None], [[-3., 0, 0]], [[0., 0, 0]])
            elif inside is None:
                q = c - (np.array([-9., 4., 0]) if 'left' in name else 0)
                r = np.hypot(q[:, 0], q[:, 1])
                mid = 2. if 'torus' in name else 1.5
                d = q - q * np.array([1, 1, 0]) * (mid / r)[:, None]
            else:
                d = c - inside
            dots = (d * n).sum(axis=1) / np.linalg.norm(n, axis=1)
            bad = int((dots <= 0).sum())
            rec.check(bad == 0, 'C18/' + what, lambda: f'{where}: {bad} of {len(T)} normals point the wrong way ({what})')
        outward(m, 1, 'default')
        m.ensure_inward_normals('g')
        outward(m, -1, 'inward')
        # restore from a scrambled state
        for pat in range(1, 6):
            tr = m.triangles.copy()
            for i in range(len(tr)):
                if (i * pat + i // 7) % (pat + 1) == 0:
                    tr[i] = tr[i][[0, 2, 1]]
            x = M.Mesh(m.points, triangles=tr, physical_to_triangles={'g': np.arange(len(tr))})
            outward(x, 1, 'scrambled')
            rec.state((where, pat))
            rec.step()
        f = x.flip_normals()
        outward(f, -1, 'flip')
        rec.trace()


def made2(case, rec):
    """Contours made by the path constructors."""
    P = G.Path
    paths = [('circle', lambda: P.circle_xz(2., 1., 0.5), (2., 1.)), ('rectangle', lambda: P.rectangle_xz(1., 2., -3., -1.), (1.5, -2.)),
             ('polygon', lambda: P.line([1., 0., 0.], [3., 0., 0.]).line_to([2.5, 0., 1.]).line_to([1.2, 0., 1.3]).close(), (2., 0.5)),
             ('profile', lambda: P.arc([0., 0., 0.], [0., 0., -1.], [1., 0., 0.]).arc_to([0., 0., 0.], [0., 0., 1.]), (0., 0.)),
             ('mirrored', lambda: P.rectangle_xz(1., 2., -3., -1.).mirror_xy(), (1.5, 2.)),
             ('turned', lambda: P.circle_xz(2., 1., 0.5).add_phase(0.7), (2., 1.)),
             ('phase', lambda: P.rectangle_xz(1., 2., -3., -1.).add_phase(1.3), (1.5, -2.)),
             ('two', lambda: P.rectangle_xz(1., 2., -3., -1.) + P.circle_xz(2., 1., 0.5), None)]
    name, make, inside = paths[case['k']]
    for ho in (False, True):
        for kw in (dict(mesh_size=0.3), dict(mesh_size_factor=1), dict(mesh_size_factor=5), dict(mesh_size=0.05)):
            p = make()
            p.name = 'g'
            m = rec.call('C18/mesh', lambda: p.mesh(higher_order=ho, **kw))

            def outward(m, sign, what):
                L = m.points[m.lines.astype(int)[:, :2]][:, :, [0, 2]]
                n = sign * np.stack([L[:, 1, 1] - L[:, 0, 1], -(L[:, 1, 0] - L[:, 0, 0])], axis=1)
                c = L.mean(axis=1)
                d = c - (inside if inside else np.where(c[:, 1:] < -0.5, [[1.5, -2.]], [[2., 1.]]))
                bad = int(((d * n).sum(axis=1) <= 0).sum())
                rec.check(bad == 0, 'C18/contour', lambda: f'{name} {kw} higher order {ho}: {bad} of {len(L)} normals point the wrong way ({what})')
            outward(m, 1, 'default')
            m.ensure_inward_normals('g')
            outward(m, -1, 'inward')
            m.ensure_outward_normals('g')
            outward(m, 1, 'outward')
            m.ensure_inward_normals('g')
            outward(m.flip_normals(), 1, 'flip of inward')
            rec.state((name, ho, str(kw)))
            rec.trace()


def groups(case, rec):
    """Only the elements of the group that is asked for change; lines and triangles with the same name both do."""
    (P, T), (Q, E) = join(tetra(), tetra(0.5, (4., 0, 0))), contour(SQ, at=(1., 0.))
    n = len(P)
    E2 = [(a + n, b + n) for a, b in E]
    for pt in range(256):
        for pl in (0, 5, 10, 15):
            tr = [reverse(f) if pt >> i & 1 else f for i, f in enumerate(T)]
            ln = [reverse(f) if pl >> i & 1 else f for i, f in enumerate(E2)]
            mk = lambda **k: M.Mesh(points=np.concatenate((P, Q)), lines=ln, triangles=tr, physical_to_lines={'a': np.arange(4)}, physical_to_triangles={'a': np.arange(4), 'b': np.arange(4, 8)}, **k)
            m = mk(ensure_outward_normals=False)
            start = m.triangles.copy(), m.lines.copy()
            ok = lambda x, sel, sign, e: all((np.dot(np.cross(x.points[f[1]] - x.points[f[0]], x.points[f[2]] - x.points[f[0]]), x.points[f].mean(axis=0) - x.points[x.triangles[sel].astype(int)].reshape(-1, 3).mean(axis=0)) > 0) == (sign > 0)
                                             for f in x.triangles[sel].astype(int))
            rec.call('C18/groups', lambda: m.ensure_inward_normals('b'))
            rec.check(np.array_equal(m.triangles[:4], start[0][:4]) and np.array_equal(m.lines, start[1]), 'C18/other-group', lambda: f'pattern {pt} {pl}: elements outside the group changed')
            rec.check(ok(m, slice(4, 8), -1, 0), 'C18/groups', lambda: f'pattern {pt} {pl}: b does not point inward')
            keep = m.triangles[4:].copy()
            rec.call('C18/groups', lambda: m.ensure_outward_normals('a'))
            rec.check(np.array_equal(m.triangles[4:], keep), 'C18/other-group', lambda: f'pattern {pt} {pl}: elements outside the group changed')
            L = m.points[m.lines.astype(int)][:, :, [0, 2]]
            nn = np.stack([L[:, 1, 1] - L[:, 0, 1], -(L[:, 1, 0] - L[:, 0, 0])], axis=1)
            rec.check(ok(m, slice(0, 4), 1, 0) and (((L.mean(axis=1) - [1.5, 0.5]) * nn).sum(axis=1) > 0).all(), 'C18/groups', lambda: f'pattern {pt} {pl}: a does not point outward')
            d = rec.call('C18/default', mk)
            rec.check(ok(d, slice(0, 4), 1, 0) and ok(d, slice(4, 8), 1, 0), 'C18/groups', lambda: f'pattern {pt} {pl}: not outward by default')
            rec.state((pt, pl))
            rec.step(3)
            rec.trace()
