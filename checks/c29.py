"""Revolved, extruded and spanned surfaces: every construction over pools of curves, axes, angles, vectors and paths against its definition;
bodies made by sweeping a boundary: every open edge meets another one, the cap is the swept original, and without caps just the far end is open."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C29'
RULE = ('State: (construction, curve or surface, motion it was given, parameters). Every combination of the pools is executed; points are sampled on a fixed grid of both parameters, '
        'including corners and ends. Curves on the axis of revolution and vectors without length are excluded (there is no surface).')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, G, DEEP
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    G, DEEP = t.geometry, tier != 'quick'


# ---- curves

def curve(name):
    P = G.Path
    p = {'line': lambda: P.line([1., 0., -1.], [2., 0., 1.5]), 'cross': lambda: P.line([-1., .1, -1.], [2., .3, 1.]), 'polygon': lambda: P.line([1., 0., 0.], [3., 0., 0.]).line_to([3., 0., 1.]).line_to([1.5, 0., 2.]),
         'arc': lambda: P.arc([2., 0., 0.], [3., 0., 0.], [2., 0., 1.]), 'arc3': lambda: P.arc([2., 1., 0.], [3., 1., 1.], [1., 1.5, 1.], reverse=True), 'circle': lambda: P.circle_xz(3., 1., .5), 'circle_xy': lambda: P.circle_xy(4., 1., 1.5),
         'closed': lambda: P.line([1., 0., 0.], [2., 0., 0.]).line_to([2., 0., 1.]).close(), 'spline': lambda: P.spline_through_points([[1., 0., 0.], [1.5, .5, 1.], [1.2, -.5, 2.], [2., 0., 3.]]), 'negative': lambda: P.line([-1., -2., -1.], [-2., -.5, 1.]),
         'ellipse': lambda: P.ellipse(2., 1.).move(dx=4., dy=3.), 'helix': lambda: P.line([1., -.5, -1.], [.8, .7, .3]).arc_to([0., .7, .3], [0., .7, 1.1]), 'from-axis': lambda: P.line([0., 0., 1.], [2., .5, 1.5]).line_to([2., .5, 3.])}[name]()
    p.name = 'curve'
    return p


CURVES = ('line', 'cross', 'polygon', 'arc', 'arc3', 'circle', 'circle_xy', 'closed', 'spline', 'negative', 'ellipse', 'helix', 'from-axis')
MOTIONS = {'none': lambda x: x, 'moved': lambda x: x.move(.3, -.2, 5.), 'turned': lambda x: x.rotate(Ry=.4).rotate(Rz=-2.), 'mirrored': lambda x: x.mirror_xz(), 'small': lambda x: small(x)}


def small(x):
    """The same object of the size of micrometers, far from the origin."""
    f = lambda q: 1e-6 * q + np.array([1., 0., .3])
    if isinstance(x, G.Path):
        return G.Path(lambda u: f(x(u * 1e6)), x.path_length * 1e-6, [b * 1e-6 for b in x.breakpoints], name=x.name)
    return G.Surface(lambda u, v: f(x(u * 1e6, v * 1e6)), x.path_length1 * 1e-6, x.path_length2 * 1e-6, [b * 1e-6 for b in x.breakpoints1], [b * 1e-6 for b in x.breakpoints2], name=x.name)


def fractions(breaks, length):
    """Parameters that are tried: a grid, the corners and the neighbourhood of corners."""
    b = [x / length for x in breaks]
    return sorted({0., .11, .25, .5, .77, 1., *b, *[min(1., x + 1e-3) for x in b], *[max(0., x - 1e-3) for x in b]})


def turn(axis, a):
    c, s = np.cos(a), np.sin(a)
    return np.array({'x': [[1, 0, 0], [0, c, -s], [0, s, c]], 'y': [[c, 0, s], [0, 1, 0], [-s, 0, c]], 'z': [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


def size(p):
    return max(1e-300, np.max(np.abs([p(f * p.path_length) for f in (0., .3, .6, 1.)])))


def has_breakpoints(rec, key, got, length, want, what):
    """Every corner of the curves has to be a breakpoint (in fractions of the length), otherwise it is lost in the mesh."""
    got = [b / length for b in got]
    for w in want:
        rec.check(1e-9 > w or w > 1 - 1e-9 or (got and min(abs(g - w) for g in got) < 1e-9), key + '-corner', lambda: f'{what}: no breakpoint at the corner at fraction {w}, breakpoints at {got}')


def compare(rec, key, s, p1, want, us, vs, tol, what):
    """s(u, v) against want(fraction of u, fraction of v)."""
    worst = (0., None)
    for fu, fv in itertools.product(us, vs):
        got = rec.call(key, lambda: np.array(s(fu * s.path_length1, fv * s.path_length2), float))
        if got is None or got.shape != (3,):
            rec.check(False, key, f'{what}: the value at ({fu}, {fv}) is {got}')
            return
        e = np.max(np.abs(got - want(fu, fv)))
        if not e <= worst[0]:
            worst = (e, (fu, fv, got, want(fu, fv)))
        rec.step()
    rec.check(worst[0] <= tol, key, lambda: f'{what}: the point at fractions {worst[1][:2]} is {worst[1][2]}, expected {worst[1][3]}')


VS = (0., .13, .5, .9, 1.)
ANGLES = (2 * np.pi, -2 * np.pi, np.pi, -np.pi / 3, .7, 4., -6.2, 1e-3)


def run_revolve(name, axis, rec):
    for mn, motion in MOTIONS.items():
        p = motion(curve(name))
        i = 'xyz'.index(axis)
        if size(p) < 1e-300 or max(np.linalg.norm(np.delete(p(f * p.path_length), i)) for f in (0., .3, .7, 1.)) < 1e-12:
            continue
        L = p.path_length
        pts = {f: np.array(p(f * L)) for f in fractions(p.breakpoints, L)}
        for k, a in enumerate(ANGLES):
            f = getattr(p, 'revolve_' + axis)
            s = rec.call('C29/revolve', lambda: f(angle=a) if k else f())
            if s is None:
                continue
            rec.state(('revolve', name, axis, mn, a))
            what = f'{name} ({mn}) revolved around {axis} by {a:.6}'
            compare(rec, 'C29/revolve', s, p, lambda u, v: turn(axis, a * v) @ pts[u], list(pts), VS, 1e-9 * size(p), lambda: what)
            has_breakpoints(rec, 'C29/revolve', s.breakpoints1, s.path_length1, [b / L for b in p.breakpoints], what)
            rec.check(s.name == p.name, 'C29/name', lambda: f'{what}: the name of the surface is {s.name!r}')
            # agrees with rotating the object
            q = p.rotate(**{'R' + axis: a})
            for u in pts:
                e = np.max(np.abs(s(u * s.path_length1, s.path_length2) - q(u * L)))
                rec.check(e <= 1e-9 * size(p), 'C29/rotate', lambda: f'{what}: the end of the surface is not the curve rotated by {a:.6} ({e} apart at fraction {u})')
    rec.outcome(('revolve', name, axis))


VECTORS = ([0., 0., 2.], [1., 0., 0.], (0., -3., 0.), [1, 2, 3], np.array([-.3, .2, 1e-3]), np.array([1e-7, 0., 0.]), [0., 1e4, 0.], np.array([0, 0, -2]))


def sweep(name):
    P = G.Path
    p = {'line': lambda: P.line([0., 0., 0.], [0., 1., 2.]), 'far': lambda: P.line([5., 5., 5.], [6., 3., 5.]), 'arc': lambda: P.arc([0., 0., 0.], [1., 0., 0.], [.3, 1.2, .4]), 'polygon': lambda: P.line([1., 0., 0.], [1., 1., 0.]).line_to([1., 1., 3.]).line_to([0., 2., 3.]),
            'circle': lambda: P.circle_xy(0., 0., 5.), 'spline': lambda: P.spline_through_points([[0., 0., 0.], [.5, 2., 0.], [0., 3., 1.]])}[name]()
    p.name = 'other'
    return p


SWEEPS = ('line', 'far', 'arc', 'polygon', 'circle', 'spline')


def run_extrude(name, rec):
    for mn, motion in MOTIONS.items():
        p = motion(curve(name))
        L = p.path_length
        pts = {f: np.array(p(f * L)) for f in fractions(p.breakpoints, L)}
        for k, vec in enumerate(VECTORS):
            keep = np.array(vec, dtype=float)
            s = rec.call('C29/extrude', lambda: p.extrude(vec))
            rec.state(('extrude', name, mn, k))
            what = f'{name} ({mn}) extruded along {vec}'
            rec.check(np.array_equal(vec, keep), 'C29/argument', lambda: f'{what}: the vector was changed')
            compare(rec, 'C29/extrude', s, p, lambda u, v: pts[u] + v * keep, list(pts), VS, 1e-11 * (size(p) + np.linalg.norm(keep)), lambda: what)
            has_breakpoints(rec, 'C29/extrude', s.breakpoints1, s.path_length1, [b / L for b in p.breakpoints], what)
            rec.check(s.name == p.name, 'C29/name', lambda: f'{what}: the name of the surface is {s.name!r}')
        for k in SWEEPS:
            for m2, motion2 in (list(MOTIONS.items()) if DEEP else [('none', MOTIONS['none'])]):
                q = motion2(sweep(k))
                s = rec.call('C29/extrude-path', lambda: p.extrude_by_path(q))
                rec.state(('extrude-path', name, mn, k, m2))
                what = f'{name} ({mn}) extruded along the path {k} ({m2})'
                q0, qs = q(0.), {v: np.array(q(v * q.path_length)) for v in fractions(q.breakpoints, q.path_length)}
                compare(rec, 'C29/extrude-path', s, p, lambda u, v: pts[u] + qs[v] - q0, list(pts), list(qs), 1e-11 * (size(p) + size(q)), lambda: what)
                has_breakpoints(rec, 'C29/extrude-path', s.breakpoints1, s.path_length1, [b / L for b in p.breakpoints], what)
                has_breakpoints(rec, 'C29/extrude-path', s.breakpoints2, s.path_length2, [b / q.path_length for b in q.breakpoints], what)
                rec.check(s.name == p.name, 'C29/name', lambda: f'{what}: the name of the surface is {s.name!r}')
    rec.outcome(('extrude', name))


def run_span(name, rec):
    others = [(k, curve(k)) for k in CURVES if k != name] + [(k, sweep(k)) for k in SWEEPS]
    p0 = curve(name)
    a, b = p0(0.), p0(p0.path_length)
    mid = (a + b) / 2 + np.array([.1, .9, -.3])
    if not p0.is_closed():
        others += [('back', G.Path.line(a, mid).line_to(b)), ('chord', G.Path.line(a, b)), ('fan', G.Path.line(a, mid)), ('fan-end', G.Path.line(mid, b))]
    for k, q0 in others:
        if k == 'chord' and name in ('line', 'cross', 'negative'):
            continue
        for mn, motion in MOTIONS.items():
            p, q = motion(p0), motion(q0)
            for x, y, sense in ((p, q, 'to'), (q, p, 'from')):
                s = rec.call('C29/span', lambda: G.Surface.spanned_by_paths(x, y))
                if s is None:
                    continue
                rec.state(('span', name, k, mn, sense))
                what = f'surface {sense} {name} and {k} ({mn})'
                lo, hi = sorted((x.path_length, y.path_length))
                gap = sorted(np.linalg.norm(np.subtract(x(f * x.path_length), y(f * y.path_length))) for f in (0., 1.))
                rec.check(lo * (1 - 1e-9) <= s.path_length1 <= hi * (1 + 1e-9), 'C29/length', lambda: f'{what}: length {s.path_length1}, spanned by lengths {lo} and {hi}')
                if gap[1] > 1e-6 * hi:      # (the curves do not touch at both ends)
                    rec.check(gap[0] - 1e-9 * hi <= s.path_length2 <= gap[1] + 1e-9 * hi, 'C29/length', lambda: f'{what}: length across {s.path_length2}, the ends are {gap} apart')
                us = sorted({*fractions(x.breakpoints, x.path_length), *fractions(y.breakpoints, y.path_length)})
                xs, ys = [{u: np.array(z(u * z.path_length)) for u in us} for z in (x, y)]
                compare(rec, 'C29/span', s, p, lambda u, v: (1 - v) * xs[u] + v * ys[u], us, VS, 1e-9 * (size(p) + size(q)), lambda: what)
                has_breakpoints(rec, 'C29/span', s.breakpoints1, s.path_length1, [c / x.path_length for c in x.breakpoints] + [c / y.path_length for c in y.breakpoints], what)
    rec.outcome(('span', name))


# ---- surfaces from four boundary paths

def side(kind, a, b):
    """A curve from a to b."""
    a, b = np.array(a, float), np.array(b, float)
    m = (a + b) / 2 + np.array([.1, -.05, .2]) * np.linalg.norm(b - a)
    if kind == 'line':
        return G.Path.line(a, b)
    if kind == 'bend':
        return G.Path.line(a, a + .2 * (m - a) + .1 * (b - a)).line_to(m).line_to(b)
    if kind == 'spline':
        return G.Path.spline_through_points([a, m, (m + 2 * b) / 3 + .02, b])
    u = (b - a) / 2
    n = np.cross(u, [.3, 1., -.2])
    return G.Path.arc((a + b) / 2 - 1e-3 * n, a, b) if kind == 'arc' else None


QUADS = {'square': ([0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]), 'skew': ([0, 0, 0], [2, 0, .5], [1.5, 1, 2], [-.3, 2, 0]), 'thin': ([1, 0, 0], [1, 0, 1], [1.001, 0, 1], [1.001, 0, 0])}
SIDES = ('line', 'bend', 'spline', 'arc')


def run_quad(quad, first, rec):
    for rest in itertools.product(SIDES, repeat=3):
        kinds = (first, *rest)
        c = QUADS[quad]
        ps0 = [side(k, c[i], c[(i + 1) % 4]) for i, k in enumerate(kinds)]
        for mn in (MOTIONS if DEEP else ('none', 'small')):
            ps = [MOTIONS[mn](p) for p in ps0]
            s = rec.call('C29/boundary', lambda: G.Surface.from_boundary_paths(*ps))
            rec.state(('quad', quad, kinds, mn))
            what = f'surface with the boundary {kinds} of {quad} ({mn})'
            L1, L2 = s.path_length1, s.path_length2
            at = [lambda f: s(f * L1, 0.), lambda f: s(L1, f * L2), lambda f: s((1 - f) * L1, L2), lambda f: s(0., (1 - f) * L2)]
            z = max(size(p) for p in ps)
            extent = 1e-6 if mn == 'small' else 1.
            for i, (p, e) in enumerate(zip(ps, at)):
                for f in fractions(p.breakpoints, p.path_length):
                    rec.step()
                    rec.check(np.max(np.abs(e(f) - p(f * p.path_length))) <= 1e-6 * extent + 1e-12 * z, 'C29/boundary', lambda: f'{what}: at fraction {f} of path {i + 1} the surface is at {e(f)}, the path at {p(f * p.path_length)}')
            for L, p, q in ((L1, ps[0], ps[2]), (L2, ps[1], ps[3])):
                lo, hi = sorted((p.path_length, q.path_length))
                rec.check(lo * (1 - 1e-9) <= L <= hi * (1 + 1e-9), 'C29/length', lambda: f'{what}: length {L} of the surface, between edges of length {p.path_length} and {q.path_length}')
            rev = lambda p: [1 - b / p.path_length for b in p.breakpoints]
            fwd = lambda p: [b / p.path_length for b in p.breakpoints]
            has_breakpoints(rec, 'C29/boundary', s.breakpoints1, L1, fwd(ps[0]) + rev(ps[2]), what)
            has_breakpoints(rec, 'C29/boundary', s.breakpoints2, L2, fwd(ps[1]) + rev(ps[3]), what)
            # the surface follows the motion of its boundary, and stays in the plane of the boundary
            if set(kinds) == {'line'}:
                a, b, d = [ps[i](0.) for i in (0, 1, 3)]
                c_ = ps[2](0.)
                for u, v in itertools.product(VS, VS):
                    w = (1 - u) * (1 - v) * a + u * (1 - v) * b + u * v * c_ + (1 - u) * v * d
                    rec.check(np.max(np.abs(s(u * L1, v * L2) - w)) <= 1e-12 * z, 'C29/bilinear', lambda: f'{what}: the point at fractions ({u}, {v}) is {s(u * L1, v * L2)}, expected {w}')
            if mn in ('moved', 'turned', 'mirrored'):
                r = MOTIONS[mn](G.Surface.from_boundary_paths(*ps0))
                rec.check(all(np.max(np.abs(s(u * L1, v * L2) - r(u * L1, v * L2))) < 1e-9 for u, v in itertools.product(VS, VS)), 'C29/boundary-motion', lambda: f'{what}: not the surface of the unmoved boundary, moved')
    rec.outcome(('quad', quad, first))


# ---- boundaries and bodies

def surface(name):
    P, S = G.Path, G.Surface
    s = {'rectangle_xy': lambda: S.rectangle_xy(1., 3., 2., 3.), 'rectangle_xz': lambda: S.rectangle_xz(1., 3., 2., 3.), 'rectangle_yz': lambda: S.rectangle_yz(1., 3., 2., 3.), 'disk_xy': lambda: S.disk_xy(3., 1., .5), 'disk_xz': lambda: S.disk_xz(3., 1., .5),
         'disk_yz': lambda: S.disk_yz(3., 1., .5), 'slice': lambda: P.line([0., 0., 0.], [2., 0., 0.]).revolve_z(angle=1.).move(1., 1., 1.), 'ring': lambda: P.line([1., 0., 0.], [2., 0., 0.]).revolve_z().move(3., 3., 1.), 'half-ring': lambda: P.line([1., 0., 0.], [2., 0., 0.]).revolve_z(angle=np.pi).move(3., 3., 1.),
         'triangle': lambda: S.spanned_by_paths(P.line([1., 1., 0.], [2., 1., 0.]), P.line([1., 1., 0.], [1., 2., .5])), 'lens': lambda: S.spanned_by_paths(P.arc([2., 2., 0.], [3., 2., 0.], [2., 3., 0.]), P.line([3., 2., 0.], [2., 3., 0.])),
         'quad': lambda: S.from_boundary_paths(*[side(k, QUADS['skew'][i], QUADS['skew'][(i + 1) % 4]) for i, k in enumerate(('arc', 'bend', 'spline', 'line'))]).move(2., 1., 1.), 'tube': lambda: P.circle_xz(3., 1., .5).extrude([0., 2., 0.]),
         'strip': lambda: P.line([1., 1., 1.], [2., 1., 1.]).line_to([2., 1., 2.]).extrude([0., 1., 0.]), 'cone': lambda: P.line([0., 0., 0.], [1., 0., 2.]).revolve_z().move(4., 4., 0.), 'bowl': lambda: P.arc([0., 0., 2.], [0., 0., 0.], [2., 0., 2.]).revolve_z().move(4., 4., 0.)}[name]()
    s.name = 'surface'
    return s


SURFACES = ('rectangle_xy', 'rectangle_xz', 'rectangle_yz', 'disk_xy', 'disk_xz', 'disk_yz', 'slice', 'ring', 'half-ring', 'triangle', 'lens', 'quad', 'tube', 'strip', 'cone', 'bowl')
# number of curves of the boundary (a closed curve counts as one)
BOUNDARY = dict(rectangle_xy=4, rectangle_xz=4, rectangle_yz=4, disk_xy=1, disk_xz=1, disk_yz=1, slice=3, ring=2, triangle=3, lens=2, quad=4, tube=2, strip=4, cone=1, bowl=1) | {'half-ring': 4}
FR = (0., .08, .21, .37, .5, .63, .79, .92, 1.)


def edges(s):
    """The four edges, sampled; None for edges that are a point."""
    L1, L2 = s.path_length1, s.path_length2
    out = [np.array([s(f * L1, 0.) for f in FR]), np.array([s(L1, f * L2) for f in FR]), np.array([s(f * L1, L2) for f in FR]), np.array([s(0., f * L2) for f in FR])]
    return out


def extent(ps):
    ps = np.concatenate(ps)
    return np.max(np.linalg.norm(ps - ps[0], axis=1))


def open_edges(s):
    """Edges that bound the surface: no points, and not glued to the opposite edge."""
    e = edges(s)
    tol = 1e-7 * extent(e) + 1e-12 * np.max(np.abs(e))
    out = []
    for i in range(4):
        if np.max(np.abs(e[i] - e[i][0])) <= tol or np.max(np.abs(e[i] - e[(i + 2) % 4])) <= tol:
            continue
        out.append(e[i])
    return out


def same(a, b, tol):
    return np.max(np.abs(a - b)) <= tol or np.max(np.abs(a - b[::-1])) <= tol


def run_boundary(name, rec):
    for mn, motion in MOTIONS.items():
        s = motion(surface(name))
        b = rec.call('C29/edges', lambda: s.get_boundary_paths())
        rec.state(('boundary', name, mn))
        want = open_edges(s)
        got = [np.array([p(f * p.path_length) for f in FR]) for p in b.paths]
        tol = 1e-7 * extent(want) + 1e-12 * np.max(np.abs(want))
        rec.check(len(want) == BOUNDARY[name], 'C29/edges', lambda: f'{name} ({mn}) has {len(want)} edges, expected {BOUNDARY[name]}')
        rec.check(len(got) == len(want), 'C29/edges', lambda: f'get_boundary_paths of {name} ({mn}) gives {len(got)} paths, expected {len(want)}')
        for w in want:
            rec.step()
            rec.check(any(same(w, g, tol) for g in got), 'C29/edges', lambda: f'get_boundary_paths of {name} ({mn}) misses the edge from {w[0]} to {w[-1]}')
        for p in b.paths:
            has = [p(x) for x in p.breakpoints]
            rec.check(p.name == s.name, 'C29/name', lambda: f'a boundary path of {name} has the name {p.name!r}')
        if name in ('strip', 'quad'):
            corners = sum(len(p.breakpoints) for p in b.paths)
            rec.check(corners == 2 * (len(s.breakpoints1) + len(s.breakpoints2)), 'C29/edges-corner', lambda: f'the boundary paths of {name} have {corners} corners')
    rec.outcome(('boundary', name))


def sweeps(s, mn):
    """Every way to make a body: (what, function of enclose, map of the original onto the cap)."""
    k = 1e-6 if mn == 'small' else 1.
    for vec in ([0., 0., 2.], [.5, -3., 1.], np.array([-4., 0., .1])):
        vec = np.array(vec) * k
        yield f'extrude {vec}', lambda e, vec=vec: s.extrude_boundary(vec, enclose=e), lambda x, vec=vec: x + vec, False
    for n in SWEEPS:
        q = MOTIONS['small'](sweep(n)) if mn == 'small' else sweep(n)
        d = q(q.path_length) - q(0.)
        yield f'path {n}', lambda e, q=q: s.extrude_boundary_by_path(q, enclose=e), lambda x, d=d: x + d, n == 'circle'
    for ax in 'xyz':
        for a in (1., -.5, np.pi, 4., 2 * np.pi, -2 * np.pi):
            if mn == 'small':
                a = a * 1.37e-6 if abs(a) < 6 else a
            yield f'revolve {ax} {a:.6}', lambda e, ax=ax, a=a: getattr(s, 'revolve_boundary_' + ax)(angle=a, enclose=e), lambda x, ax=ax, a=a: turn(ax, a) @ x, abs(a) > 6


def swept_in_itself(e, what):
    """An edge whose sweep is no surface (it moves along itself)."""
    return False


GRID = [(u, v) for u in (.15, .5, .8) for v in (.2, .6)]


def inner(s):
    return np.array([s(u * s.path_length1, v * s.path_length2) for u, v in GRID])


def run_body(name, mn, rec):
    s = MOTIONS[mn](surface(name))
    base_open = open_edges(s)
    whole = edges(s)
    for what, f, cap, full in sweeps(s, mn):
        for enclose in (True, False):
            b = rec.call('C29/body', lambda: f(enclose))
            if b is None:
                continue
            rec.state(('body', name, mn, what, enclose))
            parts = b.surfaces
            es = [edges(p) for p in parts]
            tol = 1e-6 * max(extent(e) for e in es) * (1. if mn != 'small' else 1e-3) + 1e-11 * max(np.max(np.abs(e)) for e in es)
            if mn == 'small':
                tol = 1e-7 * extent(whole) + 1e-11 * max(np.max(np.abs(e)) for e in es)
            label = lambda: f'{name} ({mn}), {what}, enclose={enclose}'
            rec.check(all(p.name == s.name for p in parts), 'C29/body-name', lambda: f'{label()}: names of the surfaces {[p.name for p in parts]}')
            # the original and its copy
            n_open = len(base_open)
            caps = 1 + (1 if enclose and not full else 0)
            rec.check(len(parts) == n_open + caps, 'C29/body-parts', lambda: f'{label()}: {len(parts)} surfaces, expected {n_open} from the boundary and {caps} caps')
            pts = [inner(p) for p in parts]
            mine = inner(s)
            rec.check(any(np.max(np.abs(x - mine)) <= tol for x in pts), 'C29/body-parts', lambda: f'{label()}: the original surface is missing')
            moved = np.array([cap(x) for x in mine])
            there = any(np.max(np.abs(x - moved)) <= tol for x in pts)
            if not full:
                rec.check(there == enclose, 'C29/cap', lambda: f'{label()}: the original surface at the end of the sweep is {"there" if there else "missing"}')
            for i, j in itertools.combinations(range(len(parts)), 2):
                rec.check(np.max(np.abs(pts[i] - pts[j])) > tol, 'C29/body-twice', lambda: f'{label()}: surfaces {i} and {j} are the same')
            # closed: every edge meets an edge of another part
            lone = []
            for i, p in enumerate(parts):
                others = [e for j in range(len(parts)) if j != i for e in es[j]]
                for e in open_edges(p):
                    rec.step()
                    if not any(same(e, o, tol) for o in others):
                        lone.append(e)
            if enclose or full:
                rec.check(not lone, 'C29/closed', lambda: f'{label()}: not closed at the edge from {lone[0][0]} to {lone[0][-1]}')
            else:
                ends = [np.array([cap(x) for x in e]) for e in base_open]
                rec.check(len(lone) == len(ends) and all(any(same(x, y, tol) for y in lone) for x in ends), 'C29/open', lambda: f'{label()}: the open edges are not those of the end of the sweep: {[(e[0], e[-1]) for e in lone]}')
    rec.outcome(('body', name, mn))


# ---- surfaces with a name

def area(s, n=24):
    """Area by the midpoint rule with central differences."""
    L1, L2 = s.path_length1, s.path_length2
    h1, h2 = L1 / n, L2 / n
    out = 0.
    for i in range(n):
        for j in range(n):
            c = [np.array(s((i + a) * h1, (j + b) * h2)) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
            out += np.linalg.norm(np.cross(c[1] - c[0], c[2] - c[0])) / 2 + np.linalg.norm(np.cross(c[2] - c[0], c[3] - c[0])) / 2
    return out


def run_named(rec):
    S = G.Surface
    uv = list(itertools.product(np.linspace(0, 1, 9), repeat=2))
    for plane, (a, b, r) in itertools.product(('xy', 'xz', 'yz'), ((0., 0., 1.), (3., -2., .5), (-1., 1e-3, 20.), (1, 2, 3))):
        s = rec.call('C29/disk', lambda: getattr(S, 'disk_' + plane)(a, b, r))
        i, j = ['xyz'.index(c) for c in plane]
        k = 3 - i - j
        p = np.array([s(u * s.path_length1, v * s.path_length2) for u, v in uv])
        d = np.hypot(p[:, i] - a, p[:, j] - b)
        rec.state(('disk', plane, a, b, r))
        rec.step(len(p))
        rec.check(np.max(np.abs(p[:, k])) < 1e-12 * (r + abs(a) + abs(b)) and np.all(d <= r * (1 + 1e-9)) and abs(d.max() - r) < 1e-9 * r, 'C29/disk', lambda: f'disk_{plane}({a}, {b}, {r}) is not this disk')
        rec.check(abs(area(s) - np.pi * r * r) < .05 * r * r, 'C29/disk', lambda: f'disk_{plane}({a}, {b}, {r}) has the area {area(s)}')
    for plane, (a, b, c, d) in itertools.product(('xy', 'xz', 'yz'), ((0., 1., 0., 2.), (-1., 3., 2., 2.5), (1., -1., 3., -2.), (1, 2, 3, 5))):
        s = rec.call('C29/rectangle', lambda: getattr(S, 'rectangle_' + plane)(a, b, c, d))
        i, j = ['xyz'.index(c) for c in plane]
        p = np.array([s(u * s.path_length1, v * s.path_length2) for u, v in uv])
        rec.state(('rectangle', plane, a, b, c, d))
        rec.step(len(p))
        lo, hi = p.min(axis=0), p.max(axis=0)
        w_lo, w_hi = np.zeros(3), np.zeros(3)
        w_lo[[i, j]], w_hi[[i, j]] = (min(a, b), min(c, d)), (max(a, b), max(c, d))
        rec.check(np.allclose(lo, w_lo, atol=1e-12) and np.allclose(hi, w_hi, atol=1e-12) and np.isclose(area(s, 4), abs((b - a) * (d - c))), 'C29/rectangle', lambda: f'rectangle_{plane}({a}, {b}, {c}, {d}) extends from {lo} to {hi}, area {area(s, 4)}')
    for p0, p1 in (([0., 0, 0], [1., 2, 3]), ([1., -2., 3.], [-1., 2., 2.5]), ([1, 2, 3], [0, 0, 0]), (np.array([0., 0, 0]), (1e-6, 2e-6, 1e-6))):
        b = rec.call('C29/box', lambda: S.box(p0, p1))
        rec.state(('box', str(p0), str(p1)))
        a = np.abs(np.array(p1, float) - np.array(p0, float))
        p = np.array([s(u * s.path_length1, v * s.path_length2) for s in b.surfaces for u, v in uv])
        lo, hi = np.minimum(p0, p1), np.maximum(p0, p1)
        tot = sum(area(s, 24) for s in b.surfaces)
        rec.check(np.allclose(p.min(axis=0), lo, atol=1e-9 * a.max()) and np.allclose(p.max(axis=0), hi, atol=1e-9 * a.max()) and np.all(np.min(np.minimum(np.abs(p - lo), np.abs(p - hi)), axis=1) < 1e-9 * a.max()), 'C29/box', lambda: f'box({p0}, {p1}) has points that are not on this box')
        rec.check(abs(tot / (2 * (a[0] * a[1] + a[1] * a[2] + a[0] * a[2])) - 1) < .1, 'C29/box', lambda: f'box({p0}, {p1}) has the area {tot}')
        rec.step(len(p))
    for r in (1., 1e-6, 30., 2):
        s = rec.call('C29/sphere', lambda: S.sphere(r))
        p = np.array([s(u * s.path_length1, v * s.path_length2) for u, v in uv])
        rec.state(('sphere', r))
        rec.check(np.allclose(np.linalg.norm(p, axis=1), r, rtol=1e-12) and abs(area(s) / (4 * np.pi * r * r) - 1) < .02, 'C29/sphere', lambda: f'sphere({r}) is not this sphere')
        rec.step(len(p))
    for h, r, x, z in ((.1, 1., 3., 0.), (1e-3, .5, 1., -2.), (2, 1, 5, 3)):
        s = rec.call('C29/aperture', lambda: S.aperture(h, r, x, z=z))
        p = np.array([s(u * s.path_length1, v * s.path_length2) for u in sorted({*np.linspace(0, s.path_length1, 13) / s.path_length1, *(np.array(s.breakpoints1) / s.path_length1)}) for v in np.linspace(0, 1, 9)])
        d, q = np.hypot(p[:, 0], p[:, 1]), p[:, 2] - z
        on = (np.abs(np.abs(q) - h / 2) < 1e-9) & (d > r - 1e-9) & (d < x + 1e-9) | (np.abs(d - r) < 1e-9) & (np.abs(q) <= h / 2 + 1e-9)
        rec.state(('aperture', h, r, x, z))
        rec.check(np.all(on) and np.isclose(d.min(), r) and np.isclose(d.max(), x) and np.isclose(q.max(), h / 2) and np.isclose(q.min(), -h / 2), 'C29/aperture', lambda: f'aperture({h}, {r}, {x}, z={z}) is not this aperture')
        rec.step(len(p))
    rec.outcome('named')


def cases(tier, seed):
    out = [{'kind': 'named'}]
    out += [{'kind': 'revolve', 'curve': c, 'axis': a} for c in CURVES for a in 'xyz'] + [{'kind': 'extrude', 'curve': c} for c in CURVES] + [{'kind': 'span', 'curve': c} for c in CURVES]
    out += [{'kind': 'quad', 'quad': q, 'first': s} for q in QUADS for s in SIDES] + [{'kind': 'boundary', 'surface': s} for s in SURFACES]
    return out + [{'kind': 'body', 'surface': s, 'motion': m} for s in SURFACES for m in (MOTIONS if tier != 'quick' else ('none', 'turned', 'small'))]


def run(case, rec):
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)
    rec.trace()
