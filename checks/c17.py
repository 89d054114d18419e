"""Operations on meshes: all sequences of operations up to a depth over a pool of small meshes. After every step the content of the
result (named elements by coordinates) is compared with what the operation denotes, computed from the operands."""
import itertools, os
from collections import Counter
import numpy as np
import vlib

PROPERTY = 'C17'
RULE = 'State: content of a mesh (elements by coordinates, with their groups) together with its element order. Non-trivial: the mesh has elements.'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, M, E
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    M, E = t.mesher, t.excitation


P = np.array([[.5, 0, 0], [1, 0, 0], [1, 0, 1], [2, 0, 1], [2, 0, 2], [.5, 0, 2], [3, 0, 0], [3, 0, -1.]])
Y = np.array([[.5, 0, 0], [1, 0, 0], [1, 0, 1], [.5, 1, 0], [2, 1, 1], [3, 1, 1.5], [1, -1, 0.25]])


def pool():
    I = np.array
    d = {}
    d['lines'] = lambda: M.Mesh(points=P[:3], lines=[[0, 1], [2, 1]], physical_to_lines={'a': I([0, 1])})
    d['two groups'] = lambda: M.Mesh(points=P[1:6], lines=[[0, 1], [2, 1], [2, 3], [3, 4], [4, 0]], physical_to_lines={'b': I([3, 1]), 'a': I([0])})
    d['triangles'] = lambda: M.Mesh(points=Y[:5], triangles=[[0, 1, 2], [1, 2, 3], [4, 3, 2]], physical_to_triangles={'a': I([0, 2])})
    d['degenerate'] = lambda: M.Mesh(points=Y, triangles=[[5, 5, 1], [5, 4, 1], [2, 3, 3], [1, 6, 5], [0, 6, 0], [0, 1, 3]], physical_to_triangles={'c': I([0, 1, 4, 5]), 'd': I([2]), 'f': I([5, 3])})
    d['curved'] = lambda: M.Mesh(points=np.concatenate((P, P + [0.25, 0, 0.125])), lines=[[0, 1, 8, 9], [2, 1, 10, 9], [3, 4, 11, 12]], physical_to_lines={'a': I([0, 1]), 'e': I([2])})
    d['shared'] = lambda: M.Mesh(points=P[[0, 1, 2, 1, 0, 6]], lines=[[0, 1], [3, 2], [0, 4 + 1]], physical_to_lines={'a': I([0, 1]), 'b': I([1, 2])})
    d['both'] = lambda: M.Mesh(points=Y, lines=[[0, 1], [1, 4]], triangles=[[0, 1, 3], [3, 1, 5]], physical_to_lines={'a': I([1])}, physical_to_triangles={'a': I([1]), 'c': I([0])})
    d['tetrahedron'] = lambda: M.Mesh(points=Y[[0, 1, 2, 4]], triangles=[[0, 1, 2], [0, 1, 3], [1, 2, 3], [2, 0, 3]], physical_to_triangles={'t': I([0, 1, 2, 3])})
    d['plain'] = lambda: M.Mesh(points=P[[6, 7, 1]], lines=[[0, 1]])
    d['empty'] = lambda: M.Mesh()
    d['points'] = lambda: M.Mesh(points=P[4:6])
    return d


POOL = ['lines', 'two groups', 'triangles', 'degenerate', 'curved', 'shared', 'both', 'tetrahedron', 'plain', 'empty', 'points']

OPS = [('add', n) for n in POOL] + [('radd', n) for n in ('lines', 'curved', 'both', 'degenerate')] + [('self', None)] + [('extract', n) for n in 'abct'] + \
    [('lines', None), ('triangles', None), ('flip', None), ('move', None), ('mirror', None), ('turn', None), ('map', None), ('raise', None), ('out', 'a'), ('in', 'a'), ('in', 't'), ('outward c', 'c')]

# the last step of the sequences of the quick check
LAST = [('add', 'lines'), ('add', 'both'), ('radd', 'degenerate'), ('self', None), ('extract', 'a'), ('extract', 'c'), ('lines', None), ('triangles', None), ('flip', None), ('mirror', None), ('raise', None), ('in', 'a')]


def rd(x, n=11):
    return tuple((np.round(np.asarray(x, float), n) + 0.).tolist())


def coarse(e):
    return e[0], tuple(rd(p, 7) for p in e[1]), e[2]


def elements(m):
    """List of (kind, coordinates, groups) for every element."""
    out = []
    for kind, el, ph in (('line', m.lines, m.physical_to_lines), ('triangle', m.triangles, m.physical_to_triangles)):
        groups = [set() for _ in range(len(el))]
        for k, v in ph.items():
            for i in np.asarray(v).tolist():
                groups[i].add(k)
        for e, g in zip(np.asarray(el).astype(int), groups):
            out.append((kind, tuple(rd(m.points[i]) for i in e), frozenset(g)))
    return out


def names(m):
    return set(m.physical_to_lines), set(m.physical_to_triangles)


def loose(e):
    """Without the orientation, which may be changed for the elements of a group when a mesh is made."""
    kind, c, g = e
    if not g:
        return e
    if kind == 'line':
        return kind, min(c, tuple(c[i] for i in ([1, 0] if len(c) == 2 else [1, 0, 3, 2]))), g
    return kind, tuple(sorted(c)), g


def flipped(e):
    kind, c, g = e
    return kind, tuple(c[i] for i in ([0, 2, 1] if kind == 'triangle' else [1, 0] if len(c) == 2 else [1, 0, 3, 2])), g


def rotations(e):
    """A triangle may start at any of its vertices."""
    kind, c, g = e
    if kind == 'line':
        return e
    k = c.index(min(c))
    return kind, c[k:] + c[:k], g


def freeze(m):
    return (m.points.copy(), m.lines.copy(), m.triangles.copy(), {k: np.array(v) for k, v in m.physical_to_lines.items()}, {k: np.array(v) for k, v in m.physical_to_triangles.items()})


def same(m, f):
    a = freeze(m)
    return all(np.array_equal(x, y) for x, y in zip(a[:3], f[:3])) and all(list(x) == list(y) and all(np.array_equal(x[k], y[k]) for k in x) for x, y in zip(a[3:], f[3:]))


def valid(m, rec, where):
    n = len(m.points)
    rec.check(m.points.shape == (n, 3) and (m.lines < n).all() and (m.triangles < n).all(), 'C17/index', lambda: f'{where}: elements refer to points that do not exist')
    for ph, el in ((m.physical_to_lines, m.lines), (m.physical_to_triangles, m.triangles)):
        for k, v in ph.items():
            v = np.asarray(v)
            rec.check(v.dtype.kind in 'iu' and ((0 <= v) & (v < len(el))).all() if len(v) else True, 'C17/index', lambda: f'{where}: group {k} has indices {v} of {len(el)} elements')
    rec.check(len({rd(p) for p in m.points}) == n, 'C17/points', lambda: f'{where}: points occur twice: {m.points.tolist()}')


def mapped(el, f):
    return [(k, tuple(rd(f(np.array(p))) for p in c), g) for k, c, g in el]


def raised(el):
    out = []
    for k, c, g in el:
        if k == 'line' and len(c) == 2:
            a, b = np.array(c[0]), np.array(c[1])
            c = c + (rd(a + (b - a) / 3), rd(a + 2 * (b - a) / 3))
        out.append((k, c, g))
    return out


def order(el):
    return {len(c) for k, c, _ in el if k == 'line'}


def step(m, op, rec, where):
    """Apply the operation, compare, return the new mesh or None."""
    kind, arg = op
    el = elements(m)
    nl, nt = names(m)
    before = freeze(m)
    other = None
    exact = kind in ('flip', 'raise')
    if kind in ('add', 'radd', 'self'):
        other = m if kind == 'self' else pool()[arg]()
        oe, (ol, ot) = elements(other), names(other)
        ob = freeze(other)
        fun = (lambda: other + m) if kind == 'radd' else (lambda: m + other)
        # unnamed and named elements of both, groups with equal names merge
        want, wn = el + oe, (nl | ol, nt | ot)
        ok = len(order(el) | order(oe)) < 2
        fa = [len(x.lines) > 0 for x in (m, other)]
    elif kind == 'extract':
        ok = arg in nl | nt
        fun = lambda: m.extract_physical_group(arg)
        want, wn = [(k, c, frozenset([arg])) for k, c, g in el if arg in g], (nl & {arg}, nt & {arg})
    elif kind == 'lines':
        ok, fun, want, wn = True, m.remove_lines, [e for e in el if e[0] != 'line'], (set(), nt)
    elif kind == 'triangles':
        ok, fun, want, wn = True, m.remove_triangles, [e for e in el if e[0] != 'triangle'], (nl, set())
    elif kind == 'flip':
        ok, fun, want, wn = True, m.flip_normals, [flipped(e) for e in el], (nl, nt)
    elif kind == 'move':
        ok, fun, want, wn = True, lambda: m.move(0.5, 0.25, -1.), mapped(el, lambda p: p + [0.5, 0.25, -1]), (nl, nt)
    elif kind == 'mirror':
        ok, fun, want, wn = True, m.mirror_xy, mapped(el, lambda p: p * [1, 1, -1]), (nl, nt)
    elif kind == 'turn':
        ok, fun, want, wn = True, lambda: m.rotate(Ry=np.pi / 2), mapped(el, lambda p: np.array([p[2], p[1], -p[0]])), (nl, nt)
    elif kind == 'map':
        f = lambda p: np.array([2 * p[0] + 1, p[1] - p[2], p[2]])
        ok, fun, want, wn = True, lambda: m.map_points(f), mapped(el, f), (nl, nt)
    elif kind == 'raise':
        fun = getattr(m, '_to_higher_order_mesh', None)     # what the solver uses
        if fun is None:
            return None
        ok, want, wn = True, raised(el), (nl, nt)
    elif kind in ('out', 'in', 'outward c'):
        if arg not in nl | nt:
            return None

        def fun():
            x = m.move(dx=0.)
            # orientation may only change for elements of the group
            o = elements(x)
            (x.ensure_inward_normals if kind == 'in' else x.ensure_outward_normals)(arg)
            a = elements(x)
            rec.check(len(o) == len(a) and all(p == q if arg not in p[2] else loose(p) == loose(q) for p, q in zip(o, a)), 'C17/orient', lambda: f'{where}: elements outside the group changed, or of the group changed more than their orientation')
            return x
        ok, want, wn = True, el, (nl, nt)
    if not ok:
        rec.raises('C17/reject', fun)
        rec.check(same(m, before) and (other is None or same(other, ob) or other is m), 'C17/operand', lambda: f'{where}: operand changed by a rejected {op}')
        return None
    r = rec.call('C17/' + kind, fun)
    rec.step()
    got = elements(r)
    valid(r, rec, f'{where} {op}')
    norm = (lambda e: rotations(coarse(e))) if exact else (lambda e: loose(rotations(coarse(e))))
    a, b = Counter(map(norm, got)), Counter(map(norm, want))
    rec.check(a == b, 'C17/elements', lambda: f'{where} {op}: not in the result: {list((b - a).elements())[:3]}, should not be in the result: {list((a - b).elements())[:3]}')
    rec.check(names(r) == wn, 'C17/names', lambda: f'{where} {op}: groups {names(r)}, should be {wn}')
    rec.check(same(m, before), 'C17/operand', lambda: f'{where}: operand changed by {op}')
    if other is not None and other is not m:
        rec.check(same(other, ob), 'C17/operand', lambda: f'{where}: second operand changed by {op}')
    if kind == 'extract':
        used = set(r.lines.ravel().tolist()) | set(r.triangles.ravel().tolist())
        rec.check(len(used) == len(r.points), 'C17/unused', lambda: f'{where} {op}: points that belong to no element of the group')
    else:
        keep = {rd(p, 7) for p in r.points}
        lost = [p for e in want for p in e[1] if rd(p, 7) not in keep]
        rec.check(not lost, 'C17/points', lambda: f'{where} {op}: points {lost[:3]} are lost')
    # closed groups point outward after a mesh is made
    if not exact and kind != 'in' and 't' in r.physical_to_triangles and len(r.physical_to_triangles['t']) == 4:
        T = r.points[r.triangles[r.physical_to_triangles['t']].astype(int)]
        c = T.reshape(-1, 3).mean(axis=0)
        n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
        rec.check((((T.mean(axis=1) - c) * n).sum(axis=1) > 0).all(), 'C17/outward', lambda: f'{where} {op}: the tetrahedron does not point outward')
    rec.check(r is not m, 'C17/operand', lambda: f'{where}: {op} returns its operand')
    return r


def canon(m):
    return repr(([coarse(e) for e in elements(m)], sorted(names(m)[0]), sorted(names(m)[1])))


def cases(tier, seed):
    return [dict(base=b, first=i, depth=3 if tier == 'quick' else 4) for b in POOL for i in range(len(OPS))] + [dict(base=b, first=None) for b in POOL]


def run(case, rec):
    base = case['base']
    m = rec.call('C17/make', pool()[base])
    if case['first'] is None:
        return start(base, m, rec)
    seen = set()
    r = step(m, OPS[case['first']], rec, base)
    frontier = [] if r is None else [(r, [OPS[case['first']]])]
    for depth in range(1, case['depth']):
        nxt = []
        for x, path in frontier:
            for op in (LAST if case['depth'] == 3 and depth == 2 else OPS):
                if len(x.lines) + len(x.triangles) > 14:
                    continue
                y = step(x, op, rec, f'{base} {path}')
                if y is None:
                    rec.trace()
                    continue
                c = hash(canon(y))
                if c in seen:
                    rec.trace()
                    continue
                seen.add(c)
                rec.state(c)
                if depth + 1 < case['depth']:
                    nxt.append((y, path + [op]))
                else:
                    rec.trace()
        frontier = nxt


WANT = {
    'degenerate': ({('triangle', (5, 4, 1), 'c'), ('triangle', (1, 6, 5), 'f'), ('triangle', (0, 1, 3), 'cf')}, Y),
}


def start(base, m, rec):
    """The pool itself: constructing keeps the elements."""
    valid(m, rec, base)
    rec.state(canon(m))
    rec.trace()
    if base == 'degenerate':
        got = {loose(rotations(coarse(e))) for e in elements(m)}
        want = {loose(rotations((k, tuple(rd(Y[i]) for i in ix), frozenset(g)))) for k, ix, g in WANT[base][0]}
        rec.check(got == want and set(m.physical_to_triangles) == {'c', 'd', 'f'}, 'C17/degenerate', lambda: f'{got}, should be {want}')
    rec.check(sorted(m.get_electrodes()) == sorted(list(m.physical_to_lines) + list(m.physical_to_triangles)) or sorted(set(m.get_electrodes())) == sorted(set(m.physical_to_lines) | set(m.physical_to_triangles)),
              'C17/electrodes', lambda: f'{base}: get_electrodes {m.get_electrodes()}')
    rec.check(bool(m.is_2d()) == bool((m.points[:, 1] == 0).all()) and bool(m.is_3d()) == bool((m.points[:, 1] != 0).any()), 'C17/dimension', lambda: f'{base}: is_2d {m.is_2d()} is_3d {m.is_3d()}')
    rec.check(bool(m.is_higher_order()) == (base == 'curved'), 'C17/order', lambda: f'{base}: is_higher_order {m.is_higher_order()}')
    # flipping twice gives the same mesh
    f2 = m.flip_normals().flip_normals()
    rec.check(Counter(rotations(coarse(e)) for e in elements(f2)) == Counter(rotations(coarse(e)) for e in elements(m)), 'C17/flip-twice', lambda: f'{base}: {elements(f2)}')
