"""Path construction and path algebra: every program of path operations up to a depth against a list of line and arc pieces."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C14'
RULE = ('State: a program of path operations (constructor and up to n operations) evaluated on real paths and on a list of pieces. '
        'Programs of every length up to the bound are complete over the alphabet; all of them with at least one operation are non-trivial.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, G
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    G = t.geometry


# ---- reference: (pieces, name); a piece is (length, fun of the distance, first point, last point)

class Ref:
    def __init__(self, pieces, name=None):
        self.pieces, self.name = [p for p in pieces if p[0] > 0], name
        self.L = sum(p[0] for p in self.pieces)
        self.ends = np.cumsum([p[0] for p in self.pieces])

    def __call__(self, s):
        i = min(int(np.searchsorted(self.ends, s - 1e-12 * self.L)), len(self.pieces) - 1)
        return self.pieces[i][1](s - (self.ends[i] - self.pieces[i][0]))

    def junctions(self):
        return self.ends[:-1]

    def start(self):
        return self.pieces[0][1](0.)

    def end(self):
        return self.pieces[-1][1](self.pieces[-1][0])

    def closed(self):
        return np.allclose(self.start(), self.end(), atol=1e-8)


def line(a, b):
    a, b = np.array(a, float), np.array(b, float)
    n = np.linalg.norm(b - a)
    return (n, lambda s: a + (b - a) * (s / n if n else 0))


def circ(c, x, y, r, th):
    c, x, y = (np.array(q, float) for q in (c, x, y))
    return (abs(th) * r, lambda s: c + r * np.cos(s / r) * x + r * np.sin(s / r) * np.sign(th) * y)


def arc(c, a, b, reverse=False):
    c, a, b = (np.array(q, float) for q in (c, a, b))
    x, v = a - c, b - c
    r = np.linalg.norm(x)
    x = x / r
    y = v - x * np.dot(v, x)
    y /= np.linalg.norm(y)
    th = np.arctan2(np.dot(v, y), np.dot(v, x))
    return circ(c, x, y, r, th - 2 * np.pi if reverse else th)


def part(p, a, b):
    return (b - a, lambda s: p[1](s + a))


def r_cut(R, at):
    first, second, done = [], [], 0.
    for p in R.pieces:
        eps = 1e-12 * R.L
        if done + p[0] <= at + eps:
            first.append(p)
        elif done >= at - eps:
            second.append(p)
        else:
            first.append(part(p, 0., at - done))
            second.append(part(p, at - done, p[0]))
        done += p[0]
    return Ref(first, R.name), Ref(second, R.name)


def r_map(R, f):
    return Ref([(n, lambda s, q=q: f(q(s))) for n, q in R.pieces], R.name)


def named(p, n):
    p.name = n
    return p


# ---- constructors

def starts():
    P = G.Path
    d = {}
    d['line'] = lambda: (P.line([0., 0., 0.], [1., 0.5, -0.3]), Ref([line([0, 0, 0], [1, 0.5, -0.3])]))
    d['line ints named'] = lambda: (named(P.line([0, 0, 1], [0, 3, 1]), 'n'), Ref([line([0, 0, 1], [0, 3, 1])], 'n'))
    d['arc'] = lambda: (P.arc([0., 0., 0.], [1., 0., 0.], [0., 0., 1.]), Ref([arc([0, 0, 0], [1, 0, 0], [0, 0, 1])]))
    d['long arc'] = lambda: (P.arc([1., 1., 0.], [1., 1.1, 0.], [1., 1., -0.1], reverse=True), Ref([arc([1, 1, 0], [1, 1.1, 0], [1, 1, -0.1], True)]))
    d['circle xz'] = lambda: (P.circle_xz(0.3, -0.7, 0.1), Ref([circ([0.3, 0, -0.7], [1, 0, 0], [0, 0, 1], 0.1, 2 * np.pi)]))
    d['circle yz part'] = lambda: (P.circle_yz(0.3, -0.7, 2., angle=4.), Ref([circ([0, 0.3, -0.7], [0, 1, 0], [0, 0, 1], 2., 4.)]))
    d['circle xy'] = lambda: (P.circle_xy(1, 2, 3), Ref([circ([1, 2, 0], [1, 0, 0], [0, 1, 0], 3., 2 * np.pi)]))
    c = [[0.2, 0, 0.1], [1.3, 0, 0.1], [1.3, 0, 0.7], [0.2, 0, 0.7]]
    d['rectangle'] = lambda: (P.rectangle_xz(0.2, 1.3, 0.1, 0.7), Ref([line(c[i], c[(i + 1) % 4]) for i in range(4)]))
    a = [[3., 0, -0.05 + 0.3], [0.5, 0, -0.05 + 0.3], [0.5, 0, 0.05 + 0.3], [3., 0, 0.05 + 0.3]]
    d['aperture'] = lambda: (named(P.aperture(0.1, 0.5, 3., z=0.3), 'ap'), Ref([line(a[i], a[i + 1]) for i in range(3)], 'ap'))
    d['line arc'] = lambda: (P.line([0.1, 0., 0.], [1., 0., 0.]).arc_to([1., 0., 1.], [2., 0., 1.]), Ref([line([0.1, 0, 0], [1, 0, 0]), arc([1, 0, 1], [1, 0, 0], [2, 0, 1])]))
    return d


def second(p, R):
    """Paths that begin where p ends."""
    e = R.end()
    v = np.array([0.1, 0.7, -0.2])
    yield 'line', (G.Path.line(e, e + v), Ref([line(e, e + v)], 'x'))
    w = [e, e + v, e + [0.3, 0., 1.], e + [0.3, 1 / 3, 1.]]
    yield 'polyline', (named(G.Path.line(w[0], w[1]).line_to(w[2]).line_to(w[3]), 'other'), Ref([line(w[i], w[i + 1]) for i in range(3)], 'other'))
    c = e + [0.5, 0., 0.]
    yield 'arc line', (G.Path.arc(c, e, c + [0., 0.5, 0.]).line_to(c), Ref([arc(c, e, c + [0., 0.5, 0.]), line(c + [0., 0.5, 0.], c)], 'x'))


def operations(p, R, fine=True):
    """(name, thunk -> list of (path, Ref)) for everything that can be done next."""
    e, L = R.end(), R.L
    for to in ([2., -1., 0.5], [-1, 0, 7]):
        if np.abs(e - to).max() > 1e-6:
            yield f'line_to {to}', lambda to=to: [(p.line_to(to), Ref(R.pieces + [line(e, to)], R.name))]
    yield 'close', lambda: [(p.close(), Ref(R.pieces + ([line(e, R.start())] if not np.allclose(e, R.start(), atol=1e-13) else []), R.name))]
    c, b = e + [0.5, 0., 0.], e + [0.5, 0.3, -0.4]
    for rev in (False, True):
        yield f'arc_to {rev}', lambda rev=rev: [(p.arc_to(c, b, reverse=rev), Ref(R.pieces + [arc(c, e, b, rev)], R.name))]
    for n, (q, Q) in second(p, R):
        yield '>> ' + n, lambda q=q, Q=Q: [(p >> q, Ref(R.pieces + Q.pieces, R.name))]
    s = R.start() - [0.3, 0.2, 0.1]
    yield 'line >>', lambda: [(G.Path.line(s, R.start()) >> p, Ref([line(s, R.start())] + R.pieces, None))]
    s2 = R.start() + [0., 0., 3.]
    yield 'polyline >>', lambda: [(G.Path.line(s, s2).line_to(R.start()) >> p, Ref([line(s, s2), line(s2, R.start())] + R.pieces, None))]
    at = [0.1 * L, L / 3, 0.75 * L, *[x for x in R.junctions()[:2]], 0., L]
    for i, a in enumerate(at):
        def cut(a=a, both=False):
            f, g = p.cut(a)
            Rf, Rg = r_cut(R, a)
            out = [(f, Rf)] * bool(Rf.pieces) + [(g, Rg)] * bool(Rg.pieces)
            if Rf.pieces and Rg.pieces:
                out.append((f >> g, Ref(Rf.pieces + Rg.pieces, R.name)))
                if R.closed():
                    out.append((g >> f, Ref(Rg.pieces + Rf.pieces, R.name)))
            return out
        yield f'cut {i}', cut
    if R.closed():
        for l in (0., 0.2 * L, -0.3 * L, L, 1.7 * L, *R.junctions()[:2]):
            def phase(l=l):
                a = l % L
                if a < 1e-12 * L or a > (1 - 1e-12) * L:
                    return [(p.add_phase(l), R)]
                f, g = r_cut(R, a)
                return [(p.add_phase(l), Ref(g.pieces + f.pieces, R.name))]
            yield f'add_phase {l / L:.3g}', phase
    d = np.array([0.1, -0.4, 2.])
    yield 'move', lambda: [(p.move(*d), r_map(R, lambda x: x + d))]
    yield 'mirror', lambda: [(p.mirror_yz(), r_map(R, lambda x: x * [-1, 1, 1]))]
    A = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.]])
    yield 'rotate', lambda: [(p.rotate(Rz=np.pi / 2), r_map(R, lambda x: A @ x))]


def cases(tier, seed):
    names = ['line', 'line ints named', 'arc', 'long arc', 'circle xz', 'circle yz part', 'circle xy', 'rectangle', 'aperture', 'line arc']
    out = [dict(what='programs', start=n, chunk=k, tier=tier) for n in names for k in range(3)]
    return out + [dict(what=w) for w in ('lines', 'circles', 'rectangles', 'irregular', 'rejected', 'aliases')] + [dict(what='arcs', chunk=k) for k in range(4)]


def run(case, rec):
    if case['what'] == 'programs':
        p, R = rec.call('C14/make', starts()[case['start']])
        examine(p, R, rec, case['start'])
        walk(p, R, (case['start'],), 3 if case['tier'] == 'quick' else 4, rec, case['chunk'])
    else:
        a = (rec, case['chunk']) if 'chunk' in case else (rec,)
        globals()[case['what']](*a)
    rec.trace()


def walk(p, R, seq, depth, rec, chunk=None):
    snap = (p.path_length, list(p.breakpoints), p.name)
    ops = list(operations(p, R))
    if chunk is not None:
        ops = ops[chunk::3]
    for n, f in ops:
        new = seq + (n,)
        rec.step()
        rec.state(new)
        for k, (q, Q) in enumerate(rec.call('C14/operation', f)):
            examine(q, Q, rec, ' | '.join(map(str, new)) + f' [{k}]')
            if depth > 1 and Q.L > 1e-9:
                walk(q, Q, new + (k,), depth - 1, rec)
    rec.check(snap == (p.path_length, list(p.breakpoints), p.name), 'C14/operand', lambda: f'{seq}: changed by an operation')


def examine(p, R, rec, where, tol=1e-9):
    L = R.L
    scale = 1 + abs(L)
    rec.check(abs(p.path_length - L) < tol * scale, 'C14/length', lambda: f'{where}: length {p.path_length}, should be {L}')
    if abs(p.path_length - L) > tol * scale:
        return
    L = p.path_length
    rec.check(p.name == R.name, 'C14/name', lambda: f'{where}: name {p.name}, should be {R.name}')
    j = np.array(R.junctions())
    b = np.array(p.breakpoints, float)
    rec.check(np.all(np.diff(b) >= -tol * scale) and (not len(b) or (b[0] > -tol * scale and b[-1] < L + tol * scale)), 'C14/breakpoints-order', lambda: f'{where}: breakpoints {b}, length {L}')
    inner = [x for x in b if tol * scale < x < L - tol * scale]
    rec.check(all(np.min(np.abs(b - x), initial=9.) < tol * scale for x in j), 'C14/corner', lambda: f'{where}: breakpoints {b}, corners at {j}')
    rec.check(all(np.min(np.abs(j - x), initial=9.) < tol * scale for x in inner), 'C14/no-corner', lambda: f'{where}: breakpoints {b}, corners at {j}')
    for s in [0., L, *j, *[0.5 * (x + y) for x, y in zip([0., *j], [*j, L])], 0.123 * L, np.nextafter(L, 0)]:
        q = rec.call('C14/evaluate', lambda: np.asarray(p(s), float))
        w = R(s)
        rec.check(q.shape == (3,) and np.abs(q - w).max() < tol * scale, 'C14/point', lambda: f'{where}: at distance {s} of {L} the point {q}, should be {w}')
    q = [p.starting_point(), p.middle_point(), p.endpoint()]
    rec.check(np.allclose(q, [R(0.), R(L / 2), R(R.L)], atol=tol * scale), 'C14/ends', lambda: f'{where}: start, middle, end {q}')
    rec.check(bool(p.is_closed()) == bool(R.closed()), 'C14/closed', lambda: f'{where}: is_closed {p.is_closed()}')


def lines(rec):
    lat = list(itertools.product((-1, 0, 2), repeat=3))
    for a in lat:
        for b in lat:
            if a == b:
                continue
            for typ in (list, np.array, lambda x: tuple(float(y) * 0.1 for y in x)):
                p = rec.call('C14/line', lambda: G.Path.line(typ(a), typ(b)))
                rec.state(('line', a, b))
                examine(p, Ref([line(typ(a), typ(b))]), rec, f'line {typ(a)} {typ(b)}')


def circles(rec):
    for f, c, x, y in ((G.Path.circle_xz, lambda u, v: [u, 0, v], [1, 0, 0], [0, 0, 1]), (G.Path.circle_yz, lambda u, v: [0, u, v], [0, 1, 0], [0, 0, 1]), (G.Path.circle_xy, lambda u, v: [u, v, 0], [1, 0, 0], [0, 1, 0])):
        for u, v in itertools.product((0, -1.5, 2), repeat=2):
            for r in (1, 0.01, 3.5):
                for angle in (None, 0.1, np.pi / 2, np.pi, 1.5 * np.pi, 6, 2 * np.pi):
                    p = rec.call('C14/circle', lambda: f(u, v, r) if angle is None else f(u, v, r, angle=angle))
                    R = Ref([circ(c(u, v), x, y, r, 2 * np.pi if angle is None else angle)])
                    rec.state((f.__name__, u, v, r, angle))
                    examine(p, R, rec, f'{f.__name__} {u, v, r, angle}')
                    for fun, want in ((lambda q: 1., 1.), (lambda q: np.linalg.norm(q - np.array(c(u, v), float)), r)):
                        rec.check(abs(p.average(fun) - want) < 1e-7 * (1 + r), 'C14/average', lambda: f'{f.__name__} {u, v, r, angle}: average {p.average(fun)}, should be {want}')
    for major, minor in ((1, 1), (2., 1.), (1., 2.), (0.3, 0.1)):
        p = rec.call('C14/ellipse', lambda: G.Path.ellipse(major, minor))
        irregular_one(p, lambda u: np.array([major * np.cos(2 * np.pi * u), minor * np.sin(2 * np.pi * u), 0.]), [], rec, f'ellipse {major, minor}', 1e-4)
        rec.check(p.is_closed(), 'C14/ellipse', 'ellipse is not closed')


def arcs(rec, chunk):
    angles = [k * np.pi / 6 for k in range(12)] + [0.01, 1., 3.1, 3.2, 5., 6.27]
    planes = [(np.array([1., 0, 0]), np.array([0, 0, 1.])), (np.array([1., 0, 0]), np.array([0, 1., 0])), (np.array([0, 0.6, 0.8]), np.array([0, 0.8, -0.6])), (np.array([2., -1, 2]) / 3, np.array([2., 2, -1]) / 3)]
    x, y = planes[chunk]
    for c in ([0., 0., 0.], [1., -2., 0.5]):
        for r in (1., 0.02):
            for a, b in itertools.product(angles, angles):
                d = (b - a) % (2 * np.pi)
                if min(d, abs(d - np.pi), 2 * np.pi - d) < 1e-3:
                    continue
                A, B = (np.array(c) + r * (np.cos(q) * x + np.sin(q) * y) for q in (a, b))
                for rev in (False, True):
                    p = rec.call('C14/arc', lambda: G.Path.arc(c, A, list(B), reverse=rev))
                    # the short way unless reversed
                    sweep = (d if d < np.pi else d - 2 * np.pi)
                    sweep = sweep if not rev else sweep - np.sign(sweep) * 2 * np.pi
                    u, w = np.cos(a) * x + np.sin(a) * y, -np.sin(a) * x + np.cos(a) * y
                    rec.state((chunk, tuple(c), r, a, b, rev))
                    examine(p, Ref([circ(c, u, w, r, sweep)]), rec, f'arc around {c} from {A} to {B} reverse={rev}')
    for ints in itertools.product((-1, 0, 1), repeat=3):
        A = np.array(ints)
        if np.abs(A).sum() == 1:
            B = np.roll(A, 1)
            for typ in (list, tuple, np.array):
                p = rec.call('C14/arc', lambda: G.Path.arc(typ([0, 0, 0]), typ(A), typ(B)))
                examine(p, Ref([arc([0, 0, 0], A, B)]), rec, f'arc of ints {A} {B}')


def rectangles(rec):
    for lo in (-1., 0, 2):
        for du, dv in ((1, 1), (0.5, 3.), (2., 0.01)):
            for f, at in ((G.Path.rectangle_xz, lambda u, v: [u, 0, v]), (G.Path.rectangle_yz, lambda u, v: [0, u, v]), (G.Path.rectangle_xy, lambda u, v: [u, v, 0])):
                u, v = lo, 2 * lo - 1
                p = rec.call('C14/rectangle', lambda: f(u, u + du, v, v + dv))
                c = [at(u, v), at(u + du, v), at(u + du, v + dv), at(u, v + dv)]
                # either way around
                if abs(p.breakpoints[0] - du) > 1e-9 or (du == dv and not np.allclose(p(du), c[1])):
                    c = [c[0], c[3], c[2], c[1]]
                rec.state((f.__name__, u, du, v, dv))
                examine(p, Ref([line(c[i], c[(i + 1) % 4]) for i in range(4)]), rec, f'{f.__name__} {u, u + du, v, v + dv}')
    for h, r, e, z in itertools.product((0.1, 1), (0.2, 2), (3, 2.5), (None, 0., -4)):
        p = rec.call('C14/aperture', lambda: G.Path.aperture(h, r, e) if z is None else G.Path.aperture(h, r, e, z=z))
        c = [[e, 0, (z or 0) - h / 2], [r, 0, (z or 0) - h / 2], [r, 0, (z or 0) + h / 2], [e, 0, (z or 0) + h / 2]]
        rec.state(('aperture', h, r, e, z))
        examine(p, Ref([line(c[i], c[i + 1]) for i in range(3)]), rec, f'aperture {h, r, e, z}')


def irregular_one(p, f, breaks, rec, where, tol):
    u = np.unique(np.concatenate((np.linspace(0, 1, 20001), breaks)))
    pts = np.array([f(x) for x in u])
    s = np.concatenate(([0], np.cumsum(np.linalg.norm(np.diff(pts, axis=0), axis=1))))
    L = s[-1]
    rec.check(abs(p.path_length - L) < tol * L, 'C14/irregular-length', lambda: f'{where}: length {p.path_length}, should be {L}')
    for x in np.linspace(0, 1, 41):
        w = np.array([np.interp(x * L, s, pts[:, k]) for k in range(3)])
        q = rec.call('C14/evaluate', lambda: p(x * p.path_length))
        rec.check(np.linalg.norm(q - w) < tol * L, 'C14/irregular-point', lambda: f'{where}: at {x} of its length {q}, should be {w}')
        rec.step()
    rec.check(len(p.breakpoints) == len(breaks), 'C14/irregular-breakpoints', lambda: f'{where}: breakpoints {p.breakpoints}')
    for b, v in zip(p.breakpoints, sorted(breaks)):
        q = p(b)
        rec.check(np.linalg.norm(q - f(v)) < 1e-9 * L, 'C14/irregular-breakpoint', lambda: f'{where}: the breakpoint at {v} is {q}, should be {f(v)}')


def irregular(rec):
    smooth = {'straight': lambda u: [u, 2 * u, -u], 'uneven': lambda u: [u * u + 0.2 * u, 0., 1.], 'parabola': lambda u: np.array([3 * u, 9 * u * u, 0.]),
              'helix': lambda u: [np.cos(6 * u), np.sin(6 * u), u], 'wave': lambda u: [u, 0.1 * np.sin(5 * u), 0.], 'exp': lambda u: [np.exp(2 * u), 0., u]}
    for n, f in smooth.items():
        for N in (100, 50, 250):
            for br in ([], [0.5], [0.2, 0.9], np.array([1 / 3, 0.77])):
                g = lambda u: np.array(f(u), float)
                p = rec.call('C14/irregular', lambda: G.Path.from_irregular_function(f, N=N, breakpoints=br))
                rec.state((n, N, tuple(br)))
                irregular_one(p, g, list(br), rec, f'{n} N={N} breakpoints {br}', 1e-4)
    kinked = {'V': (lambda u: np.array([u, abs(u - 0.3), 0.]), [0.3]), 'uneven V': (lambda u: np.array([u * (1 + u), abs(u - 0.61), 0.]), [0.61]), 'Z': (lambda u: np.array([u, max(0., u - 0.25) - 2 * max(0., u - 0.7), 0.5]), [0.25, 0.7])}
    for n, (f, br) in kinked.items():
        p = rec.call('C14/irregular', lambda: G.Path.from_irregular_function(f, N=200, breakpoints=br))
        rec.state((n, tuple(br)))
        irregular_one(p, f, br, rec, n, 0.02)
    for pts in ([[0., 0., 0.], [1., 0., 1.], [2., 0., 0.], [3., 0., 1.]], [[0, 1, 2], [3, 1, 0], [2, 2, 2]]):
        for N in (100, 300):
            p = rec.call('C14/spline', lambda: G.Path.spline_through_points(pts, N=N))
            from scipy.interpolate import CubicSpline
            c = CubicSpline(np.linspace(0, 1, len(pts)), np.array(pts, float))
            irregular_one(p, c, [], rec, f'spline {pts} N={N}', 1e-3)
            d = [min(np.linalg.norm(p(s) - np.array(q)) for s in np.linspace(0, p.path_length, 3001)) for q in pts]
            rec.check(max(d) < 2e-3, 'C14/spline', lambda: f'spline misses its points by {d}')
            rec.state((str(pts), N))


def rejected(rec):
    P = G.Path
    p = P.line([0., 0., 0.], [1., 0., 0.])
    q = P.line([1., 0., 0.1], [1., 1., 0.])
    rec.raises('C14/gap', lambda: p >> q)
    rec.raises('C14/gap', lambda: q >> p)
    rec.raises('C14/not-a-path', lambda: p >> 3)
    rec.raises('C14/not-a-path', lambda: p >> (p + q))
    rec.raises('C14/open-phase', lambda: p.add_phase(0.1))
    rec.raises('C14/point', lambda: p.line_to([1., 2.]))
    for d in range(1, 9):
        gap = 10.**-d
        r = P.line([1., gap, 0.], [2., 0., 0.])
        if gap > 1e-7:
            rec.raises('C14/gap', lambda: p >> r)
        rec.state(('gap', d))
    for c, a, b in (([0., 0, 0], [1., 0, 0], [-1., 0, 0]), ([0.1, 0.2, 0.3], [0.4, 0.2, 0.3], [-0.2, 0.2, 0.3]), ([0., 0, 0], [1., 0, 0], [1., 0, 0]), ([0.3, 0.1, 0], [1.3, 1.1, 1.], [-0.7, -0.9, -1.])):
        rec.raises('C14/arc-plane', lambda: P.arc(c, a, b))
        rec.state(('arc-plane', str(c)))


def aliases(rec):
    """Arrays and lists that change after the call."""
    P = G.Path
    A = lambda *x: np.array(x, float)
    builders = {
        'line from': lambda v: P.line(v, [5., 5., 5.]), 'line to': lambda v: P.line([5., 5., 5.], v), 'line_to': lambda v: P.line([5., 5., 5.], [4., 4., 4.]).line_to(v),
        'arc center': lambda v: P.arc(v, v + A(1, 0, 0), v + A(0, 1, 0)), 'arc start': lambda v: P.arc(v - A(1, 0, 0), v, v + A(-1, 1, 0)), 'arc end': lambda v: P.arc(v - A(1, 0, 0), v + A(-1, 1, 0), v),
        'arc_to center': lambda v: P.line(A(9, 9, 9), v + A(1, 0, 0)).arc_to(v, v + A(0, 0, 1)), 'arc_to end': lambda v: P.line(A(9, 9, 9), v + A(1, 0, 1)).arc_to(v + A(0, 0, 1), v),
        'extend': lambda v: P.line(v, A(3, 3, 3)).line_to(v + 1.).close()}
    for n, f in builders.items():
        v = A(0.3, -1., 2.)
        p = rec.call('C14/alias', lambda: f(v))
        s = np.linspace(0, p.path_length, 7)
        before = np.array([p(x) for x in s])
        rec.check(np.array_equal(v, [0.3, -1., 2.]), 'C14/argument', f'{n}: argument changed')
        v += 1.
        rec.state(n)
        rec.check(np.array_equal(before, [p(x) for x in s]), 'C14/alias', f'{n}: the path changes with the array that was passed')
