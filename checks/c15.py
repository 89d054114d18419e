"""Meshing of paths: all combinations of paths, mesh sizes next to every rounding boundary, element orders, names and orientation options."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C15'
RULE = 'State: (path, mesh size or factor, order, name, option). Every state is non-trivial: it is a mesh whose every element is examined.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, G
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    G = t.geometry


# ---- pieces that can be inverted

def P_line(a, b):
    a, b = np.array(a, float), np.array(b, float)
    n = np.linalg.norm(b - a)

    def inv(v):
        s = np.dot(v - a, b - a) / n
        return [s] if -1e-9 <= s / n <= 1 + 1e-9 else []
    return n, lambda s: a + (b - a) * s / n, inv


def P_arc(c, x, y, r, th):
    c, x, y = (np.array(q, float) for q in (c, x, y))
    n = r * abs(th)

    def inv(v):
        q = np.arctan2(np.dot(v - c, y) * np.sign(th), np.dot(v - c, x))
        return [s for s in (r * q, r * (q + 2 * np.pi), r * (q - 2 * np.pi)) if -1e-9 <= s / n <= 1 + 1e-9]
    return n, lambda s: c + r * np.cos(s / r) * x + r * np.sin(s / r) * np.sign(th) * y, inv


def P_free(f, L, N=4000):
    """Any curve, by the nearest points of a fine sampling."""
    s = np.linspace(0, L, N + 1)
    pts = np.array([f(x) for x in s])

    def inv(v):
        d = np.linalg.norm(pts - v, axis=1)
        k = [i for i in range(N + 1) if d[i] < 2 * L / N and d[i] <= d[max(i - 1, 0)] and d[i] <= d[min(i + 1, N)]]
        out = []
        for i in k:
            lo, hi = s[max(i - 1, 0)], s[min(i + 1, N)]
            for _ in range(60):
                m1, m2 = lo + 0.382 * (hi - lo), lo + 0.618 * (hi - lo)
                if np.linalg.norm(f(m1) - v) < np.linalg.norm(f(m2) - v):
                    hi = m2
                else:
                    lo = m1
            out.append((lo + hi) / 2)
        return out
    return L, f, inv


class Curve:
    def __init__(self, pieces):
        self.pieces = pieces
        self.ends = np.cumsum([p[0] for p in pieces])
        self.L = self.ends[-1]

    def inverse(self, v, tol):
        out = []
        for e, (n, f, inv) in zip(self.ends, self.pieces):
            for s in inv(v):
                if np.linalg.norm(f(min(max(s, 0.), n)) - v) < tol:
                    out.append(e - n + s)
        return sorted(out)


Q = np.pi / 2


def paths():
    """name -> (path, pieces, whether it lies in the plane y=0 and does not touch itself)"""
    P = G.Path
    d = {}
    L3 = [[0.2, 0., -0.5], [1.1, 0., -0.5], [1.1, 0., 0.4], [2.3, 0., 0.9]]
    d['line'] = lambda: (P.line(L3[0], L3[1]), [P_line(L3[0], L3[1])])
    d['tiny line'] = lambda: (P.line([1e-5, 0., 0.], [1e-5, 0., 3e-5]), [P_line([1e-5, 0, 0], [1e-5, 0, 3e-5])])
    d['polyline'] = lambda: (P.line(L3[0], L3[1]).line_to(L3[2]).line_to(L3[3]), [P_line(L3[i], L3[i + 1]) for i in range(3)])
    d['short and long'] = lambda: (P.line([1., 0., 0.], [1.01, 0., 0.]).line_to([1.01, 0., 3.]), [P_line([1, 0, 0], [1.01, 0, 0]), P_line([1.01, 0, 0], [1.01, 0, 3.])])
    for n, at in (('circle', (1.5, 0.3)), ('circle at 1', (2., 1.)), ('circle at 0', (0., 0.)), ('circle below', (1.7, -0.7))):
        d[n] = lambda at=at: (P.circle_xz(*at, 0.4), [P_arc([at[0], 0, at[1]], [1, 0, 0], [0, 0, 1], 0.4, 4 * Q)])
    d['circle xy'] = lambda: (P.circle_xy(0.1, 0.2, 0.3), [P_arc([0.1, 0.2, 0], [1, 0, 0], [0, 1, 0], 0.3, 4 * Q)])
    d['part of circle'] = lambda: (P.circle_yz(0.1, 0.2, 0.3, angle=5.), [P_arc([0, 0.1, 0.2], [0, 1, 0], [0, 0, 1], 0.3, 5.)])
    R = [[0.3, 0, 0.1], [1.3, 0, 0.1], [1.3, 0, 0.8], [0.3, 0, 0.8]]
    ring = [P_line(R[i], R[(i + 1) % 4]) for i in range(4)]
    rect = lambda: P.line(R[0], R[1]).line_to(R[2]).line_to(R[3]).close()
    d['rectangle'] = lambda: (rect(), ring)
    d['closed twice'] = lambda: (rect().close(), ring)
    for k, l in enumerate((1., 1. + 0.7, 3.4 - 1e-16, 0.1 + 0.2 + 0.7)):
        d[f'rectangle from corner {k}'] = lambda l=l, k=k: (rect().add_phase(l), ([ring[1:] + ring[:1], ring[2:] + ring[:2], ring, ring[1:] + ring[:1]][k]))
    d['rectangle from side'] = lambda: (rect().add_phase(0.25), [P_line([0.55, 0, 0.1], R[1])] + ring[1:] + [P_line(R[0], [0.55, 0, 0.1])])
    for n, at in (('third', 0.9), ('corner', 1.7), ('tenths', 0.1 + 0.2)):
        def both(at=at):
            a, b = rect().cut(at)
            j = 0 if at < 1 else 1
            s = [0., 1., 1.7]
            if at == 1.7:
                return a >> b, ring
            x = np.array(R[0]) + [at, 0, 0]
            return a >> b, [P_line(R[0], x), P_line(x, R[1])] + ring[1:]
        d['cut and joined ' + n] = both
    d['second part'] = lambda: (rect().cut(0.6)[1], [P_line([0.9, 0, 0.1], R[1])] + ring[1:])
    d['first part'] = lambda: (rect().cut(1.7)[0], ring[:2])
    d['line and arc'] = lambda: (P.line([0.1, 0., 0.], [1., 0., 0.]).arc_to([1., 0., 1.], [2., 0., 1.]).line_to([2., 0., 2.]),
                                 [P_line([0.1, 0, 0], [1, 0, 0]), P_arc([1, 0, 1], [0, 0, -1], [1, 0, 0], 1., Q), P_line([2, 0, 1], [2, 0, 2])])
    d['joined polylines'] = lambda: (P.line(L3[0], L3[1]).line_to(L3[2]) >> P.line(L3[2], L3[3]).line_to([3., 0., 3.]).line_to([3., 0., 5.]),
                                     [P_line(L3[i], L3[i + 1]) for i in range(3)] + [P_line(L3[3], [3, 0, 3]), P_line([3, 0, 3], [3, 0, 5])])
    f3 = lambda u: np.array([0.5 + abs(u - 1.), 0., u])
    V = [P_line([1.5, 0, 0], [0.5, 0, 1]), P_line([0.5, 0, 1], [1.5, 0, 2])]
    s2 = 2 ** 0.5
    for n, br in (('sorted', [0.4 * s2, s2]), ('unsorted', [s2, 0.4 * s2, 1.5 * s2]), ('repeated', [s2, s2, s2]), ('with ends', [0., s2, 2 * s2]), ('nearly repeated', [s2, np.nextafter(s2, 9), np.nextafter(s2, 0)]),
                  ('nearly ends', [1e-16, s2, np.nextafter(2 * s2, 0)])):
        def own(br=br):
            p = P(lambda s: f3(s / s2), 2 * s2, breakpoints=list(br))
            return p, V, [b for b in br if 1e-9 < b < 2 * s2 - 1e-9]
        d['breakpoints ' + n] = own
    A = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.]])
    d['rotated'] = lambda: (P.line(L3[0], L3[1]).line_to(L3[2]).rotate(Rz=Q), [P_line(A @ L3[i], A @ L3[i + 1]) for i in range(2)])
    d['mirrored circle'] = lambda: (P.circle_xz(1.5, 0.3, 0.4).mirror_xy(), [P_arc([1.5, 0, -0.3], [1, 0, 0], [0, 0, -1], 0.4, 4 * Q)])

    def free(p):
        return p, [P_free(lambda s: np.asarray(p(s)), p.path_length)]
    d['spline'] = lambda: free(P.spline_through_points([[0.1, 0., 0.], [1., 0., 1.], [2., 0., 0.], [3., 0., 1.]]))
    d['ellipse'] = lambda: free(P.ellipse(2., 1.))

    def kink():
        p = P.from_irregular_function(lambda u: np.array([u * (1 + u) + 0.1, 0., abs(u - 0.61)]), N=200, breakpoints=[0.61])
        return p, [P_free(lambda s: np.asarray(p(s)), p.path_length)], None, [np.array([0.61 * 1.61 + 0.1, 0., 0.])]
    d['kinked function'] = kink
    return d


NAMES = ['line', 'tiny line', 'polyline', 'short and long', 'circle', 'circle at 1', 'circle at 0', 'circle below', 'circle xy', 'part of circle', 'rectangle', 'closed twice'] + [f'rectangle from corner {k}' for k in range(4)] + \
    ['rectangle from side', 'cut and joined third', 'cut and joined corner', 'cut and joined tenths', 'second part', 'first part', 'line and arc', 'joined polylines'] + \
    ['breakpoints ' + n for n in ('sorted', 'unsorted', 'repeated', 'with ends', 'nearly repeated', 'nearly ends')] + ['rotated', 'mirrored circle', 'spline', 'ellipse', 'kinked function']
FREE = ['spline', 'ellipse', 'kinked function']


def cases(tier, seed):
    return [dict(what='path', name=n, tier=tier) for n in NAMES] + [dict(what='factors', name=n) for n in NAMES if n not in FREE] + [dict(what='collections', k=k) for k in range(4)] + [dict(what='rejected')]


def run(case, rec):
    {'path': one_path, 'factors': factors, 'collections': collections, 'rejected': rejected}[case['what']](case, rec)
    rec.trace()


def get(name, rec):
    x = rec.call('C15/make', paths()[name])
    p, pieces = x[:2]
    C = Curve(pieces)
    corners = list(C.ends[:-1]) if len(x) < 3 or x[2] is None else list(x[2])
    if len(x) == 4:
        corners = [C.inverse(v, 1e-6 * C.L)[0] for v in x[3]]
    return p, C, corners


def sizes(C, tier):
    out = {10 * C.L, C.L / 2.5}
    for n, _, _ in C.pieces[:3]:
        for k in (1, 2, 3, 4, 5, 7) if tier == 'quick' else range(1, 13):
            for x in (n / k, np.nextafter(n / k, 0), np.nextafter(n / k, 99), n / k * 1.01):
                out.add(x)
    return sorted(x for x in out if C.L / x < 150)


def examine(m, C, corners, limit, higher, group, directed, rec, where, cut_corner_tol=1e-9):
    """The mesh is one chain along the curve."""
    n = len(m.lines)
    rec.check(m.lines.shape == (n, 4 if higher else 2) and n > 0 and len(m.triangles) == 0, 'C15/shape', lambda: f'{where}: lines {m.lines.shape}, triangles {m.triangles.shape}')
    if m.lines.shape != (n, 4 if higher else 2) or n == 0:
        return
    rec.check({k: sorted(map(int, v)) for k, v in m.physical_to_lines.items()} == ({group: list(range(n))} if group is not None else {}) and not m.physical_to_triangles, 'C15/group',
              lambda: f'{where}: groups {m.physical_to_lines}, should be {group}')
    E = m.lines.astype(int)
    tol = 1e-9 * C.L + 1e-10 * np.abs(m.points).max()
    pts = m.points
    if not directed and (np.linalg.norm(pts[E[0, 0]] - C.pieces[0][1](0.)) > tol or (n > 1 and E[0, 1] not in E[1, :2])):
        E = E[:, [1, 0, 3, 2][:E.shape[1]]]
    rec.check(np.array_equal(E[:-1, 1], E[1:, 0]), 'C15/chain', lambda: f'{where}: the elements are not connected one after the other: {E.tolist()}')
    closed = np.linalg.norm(C.pieces[0][1](0.) - C.pieces[-1][1](C.pieces[-1][0])) < tol
    rec.check((E[-1, 1] == E[0, 0]) == closed, 'C15/closed', lambda: f'{where}: closed {E[-1, 1] == E[0, 0]}, the path is closed: {closed}; ends {pts[E[0, 0]]}, {pts[E[-1, 1]]}')
    rec.check(np.linalg.norm(pts[E[0, 0]] - C.pieces[0][1](0.)) < tol, 'C15/start', lambda: f'{where}: starts at {pts[E[0, 0]]}')
    prev, found = 0., [0.]
    for k in range(n):
        cols = [2, 3, 1] if higher else [1]
        s0 = prev
        for c in cols:
            v = pts[E[k, c]]
            cand = [s for s in C.inverse(v, tol) if s > prev + 10 * tol]
            rec.check(bool(cand), 'C15/vertex', lambda: f'{where}: vertex {c} of element {k}, {v}, is not on the path after distance {prev}')
            if not cand:
                return
            if k == n - 1 and c == 1 and closed:
                cand = cand[-1:]
            prev = cand[0]
        found.append(prev)
        chord = np.linalg.norm(pts[E[k, 1]] - pts[E[k, 0]])
        if limit is not None:
            rec.check(chord <= limit * (1 + 1e-9) + tol and prev - s0 <= limit * (1 + 1e-8) + 20 * tol, 'C15/size', lambda: f'{where}: element {k} has length {chord} ({prev - s0} along the path), the mesh size is {limit}')
        rec.check(chord > 1e-6 * min(p[0] for p in C.pieces), 'C15/degenerate', lambda: f'{where}: element {k} has length {chord}')
    rec.check(abs(found[-1] - C.L) < 30 * tol, 'C15/end', lambda: f'{where}: the mesh ends at distance {found[-1]} of {C.L}')
    for b in corners:
        rec.check(min(abs(b - s) for s in found) < max(30 * tol, cut_corner_tol * C.L), 'C15/corner', lambda: f'{where}: no vertex at the breakpoint at {b}; vertices at {found}')
    used = len(np.unique(E))
    rec.check(len(pts) == used, 'C15/points', lambda: f'{where}: {len(pts)} points, {used} of them used')
    return found


def one_path(case, rec):
    name, tier = case['name'], case['tier']
    p, C, corners = get(name, rec)
    free = name in FREE
    S = sizes(C, tier) if not free else [C.L / 3, C.L / 7.7, C.L]
    base = p.name
    for i, ms in enumerate(S):
        for higher in (False, True):
            for own, given, ensure in ((None, None, True), ('own', None, True), ('own', 'given', True), (None, 'given', False), ('own', None, False)):
                if (own, given, ensure) != (None, None, True) and i % 5:
                    continue
                p.name = own
                kw = dict(mesh_size=ms, higher_order=higher)
                if given:
                    kw['name'] = given
                if not ensure:
                    kw['ensure_outward_normals'] = False
                m = rec.call('C15/mesh', lambda: p.mesh(**kw))
                where = f'{name} {kw} name={own}'
                rec.state((name, ms, higher, own, given, ensure))
                rec.step(len(m.lines))
                g = given or own
                examine(m, C, corners, ms, higher, g, g is None or not ensure, rec, where, cut_corner_tol=1e-9 if not free else 1e-4)
    # elements of either order are the same
    for ms in S[::7]:
        p.name = None
        a, b = p.mesh(mesh_size=ms), p.mesh(mesh_size=ms, higher_order=True)
        rec.check(len(a.lines) == len(b.lines), 'C15/orders', lambda: f'{name} size {ms}: {len(a.lines)} straight and {len(b.lines)} curved elements')


def factors(case, rec):
    name = case['name']
    p, C, corners = get(name, rec)
    for higher in (False, True):
        counts = []
        for f in (0.5, 1, 1.2, 1.5, np.float64(2.), 2, 2.7, 3, np.int64(4), 7.5, 10):
            m = rec.call('C15/factor', lambda: p.mesh(mesh_size_factor=f, higher_order=higher))
            rec.state((name, 'factor', float(f), str(type(f)), higher))
            found = examine(m, C, corners, None, higher, None, True, rec, f'{name} factor {f!r} higher {higher}')
            counts.append(len(m.lines))
            if found:
                cs = np.array([0., *C.ends])
                # with a factor every section is divided, whatever its length
                for a, b in zip(cs, cs[1:]):
                    n = sum(a - 1e-9 < s < b - 1e-9 * C.L for s in found[:-1])
                    rec.check(n >= f, 'C15/factor-sections', lambda: f'{name} factor {f}: {n} elements between {a} and {b}')
        rec.check(counts == sorted(counts), 'C15/factor-monotonic', lambda: f'{name}: elements {counts}')
        # scales with the geometry
        big = G.Path(lambda s: 1000. * np.asarray(p(s / 1000.)), 1000. * p.path_length, [1000. * b for b in p.breakpoints])
        for f in (1, 1.5, 4):
            a, b = p.mesh(mesh_size_factor=f, higher_order=higher), big.mesh(mesh_size_factor=f, higher_order=higher)
            A, B = a.points[a.lines.astype(int)], b.points[b.lines.astype(int)]
            rec.check(A.shape == B.shape and np.allclose(1000 * A, B, rtol=1e-8, atol=1e-8 * C.L), 'C15/factor-scale', lambda: f'{name} factor {f}: {len(A)} elements, {len(B)} for the geometry scaled by 1000')


def collections(case, rec):
    """The mesh of a collection is the meshes of its members."""
    names = ['line', 'polyline', 'circle', 'rectangle', 'line and arc', 'circle xy', 'rectangle from corner 1']
    pairs = list(itertools.product(names, repeat=2))[case['k']::4]
    for a, b in pairs:
        for own in ((None, None), ('u', 'v'), ('u', 'u'), ('u', None)):
            for coll, given in ((None, None), ('c', None), (None, 'g'), ('c', 'g')):
                pa, Ca, ka = get(a, rec)
                pb, Cb, kb = get(b, rec)
                pb, sh = pb.move(dx=20.), np.array([20., 0, 0])
                Cb = Curve([(n, lambda s, f=f: f(s) + sh, lambda v, inv=inv: inv(v - sh)) for n, f, inv in Cb.pieces])
                pa.name, pb.name = own
                c = pa + pb
                if coll:
                    c.name = coll
                groups = [given or coll or x for x in own]
                for higher, ensure, kw in ((False, True, dict(mesh_size=0.37)), (True, True, dict(mesh_size=0.37)), (False, False, dict(mesh_size_factor=2)), (True, False, dict(mesh_size_factor=1.5))):
                    k2 = dict(kw, higher_order=higher)
                    if given:
                        k2['name'] = given
                    if not ensure:
                        k2['ensure_outward_normals'] = False
                    m = rec.call('C15/mesh', lambda: c.mesh(**k2))
                    where = f'{a} + {b} names {own} collection {coll}: {k2}'
                    rec.state((a, b, own, coll, given, higher, ensure))
                    na = len(pa.mesh(**kw).lines)
                    want = {}
                    for g, idx in zip(groups, (range(na), range(na, len(m.lines)))):
                        if g is not None:
                            want.setdefault(g, []).extend(idx)
                    rec.check({k: sorted(map(int, v)) for k, v in m.physical_to_lines.items()} == want, 'C15/groups', lambda: f'{where}: groups {m.physical_to_lines}, should be {want}')
                    for C, corners, idx, g in ((Ca, ka, slice(0, na), groups[0]), (Cb, kb, slice(na, None), groups[1])):
                        E = m.lines[idx]
                        u, inverse = np.unique(E, return_inverse=True)
                        part = t.mesher.Mesh(points=m.points[u.astype(int)], lines=inverse.reshape(E.shape))
                        examine(part, C, corners, kw.get('mesh_size'), higher, None, g is None or not ensure, rec, where)


def rejected(case, rec):
    p = G.Path.line([0., 0., 0.], [1., 0., 0.])
    for kw in (dict(), dict(higher_order=True)):
        rec.raises('C15/no-size', lambda: p.mesh(**kw))
        rec.raises('C15/no-size', lambda: (p + p.move(dx=3.)).mesh(**kw))
        rec.state(str(kw))
