"""Merging of points: all lists of points up to a length over an alphabet with duplicates, negative zeros, near duplicates and points that
are just beyond the rounding, with all pairs of them as lines and all triples as triangles, against exact arithmetic on the given points."""
import itertools, os
from fractions import Fraction as F
import numpy as np
import vlib

PROPERTY = 'C19'
RULE = 'State: (list of points, element lists, groups). Non-trivial: at least two points of the list are merged or a triangle is removed.'
CASE_TIMEOUT = 600

e = 2.**-52
ALPHABET = [
    (0., 0., 0.), (-0., 0., -0.), (1., 0., 0.), (1 + 7 * e, -0., 0.), (1 - e / 2, 0., 0.), (1 + 2.**-35, 0., 0.), (-1., 0., 0.),
    (0., 1., 0.), (0., 0., 1.), (0., 0., -1.), (1., 1., 0.), (1e-20, 0., 0.), (1., 1., 1 + 2.**-34), (-1e5 / 3, 7e-7 / 3, 1.), (-1e5 / 3 * (1 + 3 * e), 7e-7 / 3 * (1 - 2.**-34), 1.),
]
SMALL = [0, 1, 2, 3, 5, 6, 8, 10, 12, 13]
REL = 2.**-36      # documented: the low 16 bits of the mantissa do not count


def setup(tier, seed):
    global t, M
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    M = t.mesher


def cases(tier, seed):
    deep = tier == 'thorough'
    out = []
    for n in (0, 1, 2, 3):
        for first in (range(len(ALPHABET)) if n else [None]):
            out.append(dict(what='lists', n=n, first=[first] if n else []))
    for a, b in itertools.product(SMALL, repeat=2):
        out.append(dict(what='lists', n=4, first=[a, b], small=True))
    if deep:
        for a, b in itertools.product(range(len(ALPHABET)), repeat=2):
            out.append(dict(what='lists', n=4, first=[a, b]))
        for a, b, c in itertools.product(SMALL[:7], repeat=3):
            out.append(dict(what='lists', n=5, first=[a, b, c], small=True, tiny=True))
    out += [dict(what='order', n=4, k=k) for k in range(8)]
    out += [dict(what='grid', shape=s) for s in ((3, 3, 3), (12, 1, 9), (1, 1, 40), (5, 6, 2))]
    out += [dict(what='scale', k=k) for k in range(len(SCALES))]
    out += [dict(what='higher', k=k) for k in range(6)]
    out += [dict(what='types')]
    return out


def same(a, b):
    """Equal up to the documented rounding: True, False or None if they may or may not be merged."""
    if all(x == y for x, y in zip(a, b)):
        return True
    if any(abs(x - y) > REL * max(abs(x), abs(y)) for x, y in zip(a, b)):
        return False
    return None


def exact_degenerate(a, b, c):
    a, b, c = [[F(float(x)) for x in p] for p in (a, b, c)]
    u, v = [x - y for x, y in zip(b, a)], [x - y for x, y in zip(c, a)]
    return not any((u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]))


def fat(a, b, c):
    """Height over size of the triangle and its distance to the origin."""
    a, b, c = map(np.array, (a, b, c))
    longest = max(np.linalg.norm(b - a), np.linalg.norm(c - b), np.linalg.norm(c - a))
    return np.linalg.norm(np.cross(b - a, c - a)) / longest / (longest + max(np.abs(a).max(), np.abs(b).max(), np.abs(c).max())) if longest else 0.


_cls = {}


def cls(a, b, c):
    """'gone', 'kept' or None if the triangle may be removed because of rounding."""
    k = (a, b, c)
    if k not in _cls:
        _cls[k] = 'gone' if exact_degenerate(a, b, c) else ('kept' if fat(a, b, c) > 1e-10 else None)
    return _cls[k]


def near(a, b):
    return all(abs(x - y) <= REL * max(abs(x), abs(y)) for x, y in zip(a, b))


def judge(pts, lines, triangles, gl, gt, m, rec, where):
    """m is the mesh constructed from pts (tuples), lines and triangles (lists of index tuples) and the groups."""
    P = [tuple(p) for p in m.points.tolist()]
    rec.check(len(set(P)) == len(P), 'C19/points', lambda: f'{where}: the points of the mesh contain the same point twice')
    # no point is lost, none is invented
    rec.check(all(any(near(p, q) for q in P) for p in pts), 'C19/lost', lambda: f'{where}: point lost: {[p for p in pts if not any(near(p, q) for q in P)]}')
    rec.check(all(any(near(p, q) for q in pts) for p in P), 'C19/invented', lambda: f'{where}: new points: {[p for p in P if not any(near(p, q) for q in pts)]}')
    # lines: same coordinates in the same order
    ok = m.lines.shape[0] == len(lines) and all(near(P[int(i)], pts[j]) for l, o in zip(m.lines, lines) for i, j in zip(l, o))
    rec.check(ok, 'C19/lines', lambda: f'{where}: lines are {[[P[int(i)] for i in l] for l in m.lines]}, were {[[pts[i] for i in l] for l in lines]}')
    # points that are equal have become one, others have not (each line may tell)
    new = {}
    if ok:
        for l, o in zip(m.lines, lines):
            for i, j in zip(l, o):
                rec.check(new.setdefault(j, int(i)) == int(i), 'C19/one', lambda: f'{where}: point {j} has two indices')
        for i, j in itertools.combinations(sorted(new), 2):
            s = same(pts[i], pts[j])
            if s is not None:
                rec.check((new[i] == new[j]) == s, 'C19/merge' if s else 'C19/apart', lambda: f'{where}: points {pts[i]} and {pts[j]} have indices {new[i]} and {new[j]}')
    # triangles
    number = {}       # new number of every triangle that is kept
    k, bad = 0, None
    for i, o in enumerate(triangles):
        c = cls(*[pts[j] for j in o[:3]])
        match = k < len(m.triangles) and all(near(P[int(a)], pts[b]) for a, b in zip(m.triangles[k], o))
        if c == 'kept' or (c is None and match):
            if not match:
                bad = bad or f'triangle {i} {[pts[j] for j in o]} is missing or different'
            number[i] = k
            k += 1
    rec.check(bad is None and k == len(m.triangles), 'C19/triangles', lambda: f'{where}: {bad}; {len(m.triangles)} triangles, expected {k}')
    rec.check(set(m.physical_to_lines) == set(gl) and all([int(x) for x in m.physical_to_lines[g]] == list(gl[g]) for g in gl), 'C19/groups-lines', lambda: f'{where}: {m.physical_to_lines}')
    rec.check(set(m.physical_to_triangles) == set(gt) and all([int(x) for x in m.physical_to_triangles[g]] == [number[i] for i in gt[g] if i in number] for g in gt), 'C19/groups',
              lambda: f'{where}: {m.physical_to_triangles} should be { {g: [number[i] for i in gt[g] if i in number] for g in gt} }')
    return k


def make(pts, lines, triangles, gl, gt, rec, **kw):
    a = np.array(pts, float).reshape(-1, 3)
    l, tr = np.array(lines, dtype=np.uint64), np.array(triangles, dtype=np.uint64)
    gl, gt = {k: np.array(v, dtype=int) for k, v in gl.items()}, {k: np.array(v, dtype=int) for k, v in gt.items()}
    keep = [x.tobytes() for x in (a, l, tr, *gl.values(), *gt.values())], list(gl), list(gt)
    m = rec.call('C19/make', lambda: M.Mesh(points=a, lines=l, triangles=tr, physical_to_lines=gl, physical_to_triangles=gt, ensure_outward_normals=False, **kw))
    rec.check(([x.tobytes() for x in (a, l, tr, *gl.values(), *gt.values())], list(gl), list(gt)) == keep, 'C19/arguments', lambda: f'the constructor modifies its arguments for {pts}')
    return m


def run(case, rec):
    {'lists': lists, 'order': order, 'grid': grid, 'scale': scale, 'higher': higher, 'types': types}[case['what']](case, rec)


def elements(n):
    lines = list(itertools.product(range(n), repeat=2))
    triangles = list(itertools.product(range(n), repeat=3))
    gl = dict(odd=list(range(1, len(lines), 2)), some=[i for i in range(len(lines)) if i % 3 == 0][::-1]) if n else {}
    gt = dict(odd=list(range(1, len(triangles), 2)), back=[i for i in range(len(triangles)) if i % 3 != 1][::-1], middle=list(range(len(triangles) // 3, len(triangles) // 2)), none=[]) if n else {}
    return lines, triangles, gl, gt


def lists(case, rec):
    n = case['n']
    letters = SMALL[:7] if case.get('tiny') else SMALL if case.get('small') else range(len(ALPHABET))
    lines, triangles, gl, gt = elements(n)
    if n == 5:
        triangles = triangles[::2]
        gt = dict(odd=list(range(1, len(triangles), 2)))
    for rest in itertools.product(letters, repeat=n - len(case['first'])):
        ids = case['first'] + list(rest)
        pts = [ALPHABET[i] for i in ids]
        m = make(pts, lines, triangles, gl, gt, rec)
        k = judge(pts, lines, triangles, gl, gt, m, rec, f'points {ids}')
        rec.state((n, tuple(ids)))
        rec.step(2)
        # doing it again changes nothing
        m2 = rec.call('C19/again', lambda: M.Mesh(m.points, m.lines, m.triangles, m.physical_to_lines, m.physical_to_triangles, ensure_outward_normals=False))
        ok = np.array_equal(m2.points, m.points) and np.array_equal(m2.lines, m.lines) and np.array_equal(m2.triangles, m.triangles) and all(np.array_equal(m2.physical_to_triangles[g], m.physical_to_triangles[g]) for g in gt)
        rec.check(ok, 'C19/again', lambda: f'points {ids}: constructing a mesh from a mesh changes it')
        rec.trace()


def order(case, rec):
    """The points of the mesh do not depend on the order in which they are given."""
    for c in itertools.islice(itertools.combinations_with_replacement(SMALL, case['n']), case['k'], None, 8):
        ref = None
        for perm in itertools.permutations(range(case['n'])):
            pts = [ALPHABET[c[i]] for i in perm]
            m = make(pts, [(i, (i + 1) % len(perm)) for i in range(len(perm))], [], {}, {}, rec)
            got = sorted(tuple(p) for p in (m.points + 0.).tolist())
            ref = ref or got
            rec.check(got == ref, 'C19/order', lambda: f'points {c} in order {perm}: {got}, in another order {ref}')
            rec.step()
        rec.state(c)
        rec.trace()


def grid(case, rec):
    """Points of a grid, every one repeated for each cell it belongs to, in many orders, cells of unequal size."""
    xs = [np.array([0., 0.1, 0.3, 0.30000001, 1, 2, 3, 5, 8, 13, 1e3, 1e4])[:s] - 0.3 if s <= 12 else np.linspace(-1, 1, s) for s in case['shape']]
    G = [tuple(p) for p in itertools.product(*xs)]
    pts = []
    for p in G:
        pts += [p] * (1 + len(pts) % 4)
        if len(pts) % 3 == 0:
            pts.append(tuple(x * (1 + 2 * e) if x else x for x in p))
    N = len(pts)
    for stride in [s for s in range(1, N) if np.gcd(s, N) == 1][:24]:
        pp = [pts[(i * stride) % N] for i in range(N)]
        lines = [(i, (i + 1) % N) for i in range(N)]
        tri = [(i, (i + 1) % N, (i * i + 2) % N) for i in range(N)]
        gl, gt = dict(a=list(range(0, N, 3))), dict(a=list(range(0, N, 2)), b=list(range(N // 2)))
        m = make(pp, lines, tri, gl, gt, rec)
        judge(pp, lines, tri, gl, gt, m, rec, f'grid {case["shape"]} stride {stride}')
        rec.state((case['shape'], stride))
        rec.step(N)
        rec.trace()


SCALES = [1e-12, 1e-9, 1e-6, 1e-3, 1 / 3, 1., 1e3, 1e9, 1e15]


def scale(case, rec):
    """Fat and thin triangles of every size, at the origin and away from it."""
    s = SCALES[case['k']]
    shapes = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0.3, 0.001, 0), (0.5, 1e-6, 1e-6), (2, 0, 0), (0.1, 0.2, 0.3), (0.2, 0.4, 0.6)]
    for off in ((0, 0, 0), (1, -1, 1), (100, 0, 0), (0, 1e4, -1e4)):
        pts = [tuple((np.array(p) + off) * s) for p in shapes]
        lines, triangles, gl, gt = elements(len(pts))
        m = make(pts, lines, triangles, gl, gt, rec)
        k = judge(pts, lines, triangles, gl, gt, m, rec, f'scale {s} at {off}')
        rec.check(k > 0, 'C19/scale', lambda: 'no triangle is kept')
        rec.state((s, off))
        rec.step(len(triangles))
        rec.trace()


def higher(case, rec):
    """Line elements of four nodes, triangles of six nodes."""
    base = [(0., 0, 0), (1., 0, 0), (0., 0, 1.), (0., 1., 0)]
    k = case['k']
    for merged in itertools.product(range(3), repeat=4):
        pts = base + [tuple(np.array(base[i]) * (1, 1 + 5 * e, 1 + 3 * e)[c]) if c < 2 else base[(i + 1) % 4] for i, c in enumerate(merged)] + [(0.5, 0.1, 0), (0.3, 0, 0.6), (1 / 3, 0, 2 / 3)]
        n = len(pts)
        step = [(1, 2, 3, 4, 5, 6), (3, 1, 4, 7, 2, 5), (7, 5, 1, 2, 9, 4), (2, 2, 2, 2, 2, 2), (9, 3, 6, 1, 1, 1), (4, 4, 8, 8, 3, 3)][k]
        for kind in ('lines', 'triangles', 'both'):
            lines = [(i % n, (i + step[0]) % n, (i + step[1]) % n, (i * i + step[2]) % n) for i in range(2 * n)] if kind != 'triangles' else []
            tri = [tuple((i * i + j * i + s) % n for j, s in enumerate(step)) for i in range(3 * n)] if kind != 'lines' else []
            gl, gt = (dict(a=[0, 5, 2]) if lines else {}), (dict(a=[4, 1, 7, 8, 20], b=list(range(len(tri)))) if tri else {})
            m = make(pts, lines, tri, gl, gt, rec)
            judge(pts, lines, tri, gl, gt, m, rec, f'higher order {kind} {merged} {step}')
            rec.state((kind, merged, k))
            rec.step()
        rec.trace()


def types(case, rec):
    """Lists, tuples, arrays of every usual type; Fortran order and views."""
    pts = [(0, 0, 0), (1, 0, 0), (0, 0, 2), (1, 0, 0), (0, 3, 0), (0, 0, 0)]
    lines, tri = [(0, 1), (3, 2), (5, 4)], [(0, 1, 3), (5, 3, 2), (4, 1, 0)]
    ref = None
    for p in (pts, np.array(pts), np.array(pts, float), np.array(pts, np.float32), np.asfortranarray(np.array(pts, float)), np.repeat(np.array(pts, float), 2, axis=0)[::2], [list(x) for x in pts]):
        for conv in (list, lambda x: [list(y) for y in x], np.array, lambda x: np.array(x, np.int32), lambda x: np.array(x, np.uint64), lambda x: np.asfortranarray(np.array(x))):
            for g in (np.array, lambda x: np.array(x, np.uint64), lambda x: np.array(x, np.int32)):
                m = rec.call('C19/types', lambda: M.Mesh(points=p, lines=conv(lines), triangles=conv(tri), physical_to_lines={'l': g([2, 0])}, physical_to_triangles={'t': g([1, 0, 2])}, ensure_outward_normals=False))
                judge([tuple(map(float, x)) for x in pts], lines, tri, dict(l=[2, 0]), dict(t=[1, 0, 2]), m, rec, f'types {type(p)} {type(conv(lines))}')
                rec.step()
                rec.state((str(type(p)), getattr(p, 'dtype', 0).__str__(), rec.n if hasattr(rec, 'n') else 0))
    rec.trace()
