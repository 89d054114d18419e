"""Collections: every word of additions (+, +=), namings and transformations up to a depth over a pool of paths (surfaces), names and
collections, against plain lists of members; every operation of a collection, for every way of putting it together, against its members."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C28'
RULE = ('State: (members of every variable, what they are). Words of additions are complete over the alphabet up to the depth; non-trivial: a variable that is a collection of two '
        'or more members. Every way to put a collection together (every association of +, +=) times every operation of collections.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, DEEP
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    DEEP = tier != 'quick'


def make(kind, i):
    """The member i of the pool."""
    G = t.geometry
    if kind == 'path':
        p = [lambda: G.Path.line([1., 0, 0], [2., 0, 1.]), lambda: G.Path.line([3., 0, 0], [3., 0, 1.]).line_to([4., 0, 1.5]), lambda: G.Path.arc([1., 0, 4.], [2., 0, 4.], [1., 0, 5.]),
             lambda: G.Path.circle_xz(2., 8., .5), lambda: G.Path.line([5., 0, 0], [5., 0, -1.])][i]()
    else:
        p = [lambda: G.Surface.disk_xy(0., 0., 1.), lambda: G.Path.line([3., 0, 0], [3., 0, 1.]).line_to([4., 0, 1.5]).extrude([0., 1., 0.]), lambda: G.Surface.sphere(.5).move(dz=5.),
             lambda: G.Surface.rectangle_xz(5., 6., 0., 2.), lambda: G.Surface.rectangle_xy(0., 1., 0., .5).move(dz=-4.)][i]()
    if i in (1, 4):
        p.name = f'n{i}'
    return p


UV = {'path': (0., .23, .5, .77, 1.), 'surface': [(u, v) for u in (.1, .6, 1.) for v in (0., .3, .9)]}


def sample(x):
    """Points on one path or surface."""
    if isinstance(x, t.geometry.Path):
        return np.array([x(u * x.path_length) for u in UV['path']])
    return np.array([x(u * x.path_length1, v * x.path_length2) for u, v in UV['surface']])


def members(x, kind):
    C = t.geometry.PathCollection if kind == 'path' else t.geometry.SurfaceCollection
    return (x.paths if kind == 'path' else x.surfaces) if isinstance(x, C) else [x]


class Thing:
    """Reference of one path or surface: shared between variables like the object itself."""
    def __init__(self, points, name):
        self.points, self.name = points, name


class Var:
    """Reference of a variable: a single member or a list of members."""
    def __init__(self, things, single):
        self.things, self.single = things, single


SHIFT = np.array([10., 0., -3.])


def alphabet(n, deep):
    out = [(o, i, j) for o in ('add', 'iadd') for i in range(n) for j in range(n)]
    return out + [('name', i) for i in range(n)] + [('move', i) for i in range(n)]


def apply(kind, V, R, op, rec):
    """One operation, on the real variables V and the reference variables R."""
    key = 'C28/' + op[0]
    if op[0] == 'add':
        i, j = op[1:]
        V.append(rec.call(key, lambda: V[i] + V[j]))
        R.append(Var(R[i].things + R[j].things, False))
    elif op[0] == 'iadd':
        i, j = op[1:]

        def f():
            x = V[i]
            x += V[j]
            return x
        V[i] = rec.call(key, f)
        if R[i].single:
            R[i] = Var(R[i].things + R[j].things, False)
        else:
            R[i].things[:] = R[i].things + R[j].things
    elif op[0] == 'name':
        V[op[1]].name = 'new'
        rec.check(V[op[1]].name == 'new', 'C28/name', 'the name of the collection is not the assigned one')
        for x in R[op[1]].things:
            x.name = 'new'
    else:
        V[op[1]] = rec.call(key, lambda: V[op[1]].move(*SHIFT))
        R[op[1]] = Var([Thing(x.points + SHIFT, x.name) for x in R[op[1]].things], R[op[1]].single)


def compare(kind, V, R, rec, what):
    C = t.geometry.PathCollection if kind == 'path' else t.geometry.SurfaceCollection
    M = t.geometry.Path if kind == 'path' else t.geometry.Surface
    for k, (x, y) in enumerate(zip(V, R)):
        rec.step()
        if not rec.check(isinstance(x, M if y.single else C), 'C28/kind', lambda: f'{what()}: variable {k} is {x!r}'):
            continue
        ms = members(x, kind)
        if rec.check(len(ms) == len(y.things), 'C28/members', lambda: f'{what()}: variable {k} has {len(ms)} members instead of {len(y.things)}'):
            for a, b in zip(ms, y.things):
                rec.check(a.name == b.name, 'C28/member-name', lambda: f'{what()}: variable {k} has a member with the name {a.name!r} instead of {b.name!r}')
                key = id(a), id(b)
                if key not in SEEN:      # a and b are alive, kept in SEEN, and immutable apart from the name
                    SEEN[key] = (a, b, np.allclose(sample(a), b.points, rtol=1e-9, atol=1e-9))
                rec.check(SEEN[key][2], 'C28/members', lambda: f'{what()}: variable {k} has another member at a place')
        if not y.single:
            rec.state((kind, k, tuple((b.name, b.points.tobytes()) for b in y.things)))


SEEN = {}


def start(kind):
    a, b, c = (make(kind, i) for i in range(3))
    C = t.geometry.PathCollection if kind == 'path' else t.geometry.SurfaceCollection
    L = [b, c]
    V = [a, b, C(L), C([])]
    T = [Thing(sample(x), x.name) for x in (a, b, c)]
    return V, [Var([T[0]], True), Var([T[1]], True), Var([T[1], T[2]], False), Var([], False)], L


def words(n):
    return list(itertools.product(alphabet(4, DEEP), repeat=n))


def run_words(kind, first, rec):
    for rest in words((2 if DEEP else 1)):
        SEEN.clear()
        word = (first,) + rest
        V, R, L = start(kind)
        keep = list(L)
        for k, op in enumerate(word):
            apply(kind, V, R, op, rec)
            compare(kind, V, R, rec, lambda: f'{kind}s after {word[:k + 1]}')
        rec.check(L == keep, 'C28/list', lambda: f'the list that was given to the collection changed through {word}')
        rec.trace()
    rec.outcome((kind, first[0]))


# ---- every operation, for every way of putting the collection together

def trees(leaves):
    """Every association: ('+', left, right) with the leaves in order; and left-to-right chains of +=."""
    if len(leaves) == 1:
        return [leaves[0]]
    return [(o, a, b) for k in range(1, len(leaves)) for a in trees(leaves[:k]) for b in trees(leaves[k:]) for o in ('+', '+=')]


def build(tree, pool):
    if not isinstance(tree, tuple):
        return pool[tree]
    a, b = build(tree[1], pool), build(tree[2], pool)
    if tree[0] == '+':
        return a + b
    a += b
    return a


def transformations():
    R = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])
    return {'move': lambda x: x.move(.5, -1., 2.), 'move_to': lambda x: x.move(dz=-3.), 'rotate': lambda x: x.rotate(Ry=.3, origin=[1., 0., -1.]),
            'mirror': lambda x: x.mirror_xz(), 'mirror_xy': lambda x: x.mirror_xy(), 'mirror_yz': lambda x: x.mirror_yz(), 'map': lambda x: x.map_points(lambda p: 2 * R @ p + [0., 0., 1.])}


MADE = {'revolve_x': lambda x: x.move(dz=9.).revolve_x(), 'revolve_y': lambda x: x.move(dx=9.).revolve_y(angle=1.), 'revolve_z': lambda x: x.revolve_z(), 'revolve_z-part': lambda x: x.revolve_z(angle=.5),
        'revolve_z-negative': lambda x: x.revolve_z(angle=-.5), 'extrude': lambda x: x.extrude([0., 2., .5]), 'extrude_by_path': lambda x: x.extrude_by_path(t.geometry.Path.arc([0., 0, 0], [1., 0, 0], [0., 1., 0]))}

MESHES = {'size': dict(mesh_size=.7), 'factor': dict(mesh_size_factor=2.), 'default': {}, 'name': dict(mesh_size=.6, name='given'), 'open': dict(mesh_size=.8, ensure_outward_normals=False),
          'higher': dict(mesh_size=.9, higher_order=True)}


def elements(m):
    """The elements of a mesh as sets of points, with the groups each belongs to."""
    out = []
    for els, groups, what in ((m.lines, m.physical_to_lines, 'line'), (m.triangles, m.physical_to_triangles, 'triangle')):
        of = {}
        for name, idx in groups.items():
            for i in idx:
                of.setdefault(int(i), []).append(name)
        for i, e in enumerate(els):
            pts = [tuple(np.round(m.points[k] + 1.234567e-7, 6) + 0.) for k in e]
            out.append((what, tuple(sorted(pts)), tuple(sorted(of.get(i, [])))))
    return sorted(out)


def directed(m):
    """The elements with their orientation."""
    out = []
    for els in (m.lines, m.triangles):
        for e in els:
            pts = [tuple(np.round(m.points[k] + 1.234567e-7, 6) + 0.) for k in e]
            if len(pts) == 3:
                k = pts.index(min(pts))
                pts = pts[k:] + pts[:k]
            out.append(tuple(pts))
    return sorted(out)


def run_operation(kind, tree, rec):
    G = t.geometry
    tree = tuplify(tree)
    n = len(leaves(tree))
    fresh = lambda: [make(kind, i) for i in range(5)]
    get = lambda: build(tree, fresh())
    c = rec.call('C28/build', get)
    rec.check([x.name for x in members(c, kind)] == [make(kind, i).name for i in leaves(tree)], 'C28/members', lambda: f'{tree}: wrong names of members')
    ms = lambda: [make(kind, i) for i in leaves(tree)]

    def same(result, expected, key, what, kind=kind):
        rec.step()
        rec.state((kind, tree, what))
        got = members(result, kind)
        if rec.check(len(got) == len(expected), key, lambda: f'{what} of {tree} has {len(got)} members instead of {len(expected)}'):
            for a, b in zip(got, expected):
                rec.check(np.allclose(sample(a), sample(b), rtol=1e-9, atol=1e-9), key, lambda: f'{what} of {tree}: a member is not the one made of the member')
                rec.check(a.name == b.name, key + '-name', lambda: f'{what} of {tree}: the name of a member is {a.name!r} instead of {b.name!r}')
                L = lambda s: [s.path_length] if kind == 'path' else [s.path_length1, s.path_length2]
                B = lambda s: [s.breakpoints] if kind == 'path' else [s.breakpoints1, s.breakpoints2]
                rec.check(np.allclose(L(a), L(b), rtol=1e-12) and all(len(x) == len(y) and np.allclose(x, y, rtol=1e-12) for x, y in zip(B(a), B(b))), key, lambda: f'{what} of {tree}: lengths or breakpoints of a member differ')

    for named in (None, 'all'):
        def obj():
            c = get()
            if named:
                c.name = named
            return c

        def parts():
            out = ms()
            for x in out:
                if named:
                    x.name = named
            return out
        ops = dict(transformations())
        for name, f in ops.items():
            c = obj()
            r = rec.call('C28/transform', lambda: f(c))
            same(r, [f(x) for x in parts()], 'C28/transform', name)
            same(c, parts(), 'C28/operand', 'operand of ' + name)
            rec.check(r.name == (named if named else r.name) and (named or r.name is None or n == 1), 'C28/transform-name', lambda: f'{name} of {tree} named {named} has the name {r.name!r}')
            for nm, g in ops.items() if DEEP else ():
                same(rec.call('C28/transform', lambda: g(r)), [g(f(x)) for x in parts()], 'C28/transform', name + ' ' + nm)
            if kind == 'path':
                for nm, g in (MADE.items() if DEEP or name == 'move' else ()):
                    same(rec.call('C28/surface', lambda: g(r)), [g(f(x)) for x in parts()], 'C28/surface', name + ' ' + nm, 'surface')
        if kind == 'path':
            for name, f in MADE.items():
                c = obj()
                r = rec.call('C28/surface', lambda: f(c))
                same(r, [f(x) for x in parts()], 'C28/surface', name, 'surface')
                same(c, parts(), 'C28/operand', 'operand of ' + name)
        for name, kw in MESHES.items():
            if name == ('higher' if kind == 'surface' else 'default'):
                continue
            meshes([lambda x: x.mesh(**kw)], obj, parts, rec, (tree, named, name), kw.get('name', named), 'ensure_outward_normals' in kw)
        if kind == 'path':
            meshes([lambda x: x.revolve_z(angle=1.).mesh(mesh_size=1.), lambda x: x.extrude([0., 1., 0.]).mesh(mesh_size=1.)], obj, parts, rec, (tree, named, 'made'), named, False)
    # naming after the fact
    c = get()
    c.name = 'x'
    c.name = 'y'
    rec.check(all(m.name == 'y' for m in members(c, kind)), 'C28/name', 'naming a collection again does not name the members')
    rec.outcome((kind, n))


_parts = {}


def meshes(fs, obj, parts, rec, what, name, exact):
    for k, f in enumerate(fs):
        m = rec.call('C28/mesh', lambda: f(obj()))
        union = []
        for x in parts():
            union.append(f(x))
        rec.step()
        rec.state(what + (k,))
        rec.check(elements(m) == sorted(sum((elements(u) for u in union), [])), 'C28/mesh', lambda: f'the mesh of {what} is not the union of the meshes of its members')
        groups = set(m.physical_to_lines) | set(m.physical_to_triangles)
        rec.check(groups == ({name} if name else {x.name for x in parts() if x.name}), 'C28/mesh-name', lambda: f'the mesh of {what} has the groups {groups}')
        if exact:
            rec.check(directed(m) == sorted(sum((directed(u) for u in union), [])), 'C28/mesh', lambda: f'the mesh of {what} has elements with the other orientation than the meshes of its members')


def leaves(tree):
    return [tree] if not isinstance(tree, tuple) else leaves(tree[1]) + leaves(tree[2])


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, (list, tuple)) else x


def run_misuse(rec):
    """What cannot be added is rejected, and nothing changes."""
    G = t.geometry
    for kind, other in (('path', 'surface'), ('surface', 'path')):
        C = G.PathCollection if kind == 'path' else G.SurfaceCollection
        D = G.SurfaceCollection if kind == 'path' else G.PathCollection
        for left in (make(kind, 0), C([make(kind, 0), make(kind, 1)]), C([])):
            for right in (make(other, 0), D([make(other, 0)]), D([]), 3, None, 'a', [make(kind, 2)]):
                before = list(members(left, kind))
                rec.state((kind, repr(left), repr(right)))
                rec.raises('C28/misuse', lambda: left + right)

                def f():
                    x = left
                    x += right
                    return x
                rec.raises('C28/misuse', f)
                after = members(left, kind)
                rec.check(len(after) == len(before) and all(a is b for a, b in zip(after, before)), 'C28/misuse', 'a rejected addition changed the collection')
                rec.step(2)
    # made from any iterable
    for C, kind in ((G.PathCollection, 'path'), (G.SurfaceCollection, 'surface')):
        x = [make(kind, i) for i in range(3)]
        for y in (x, tuple(x), iter(x), (k for k in x), np.array(x, dtype=object)):
            c = rec.call('C28/iterable', lambda: C(y))
            rec.check(len(members(c, kind)) == 3 and len(members(rec.call('C28/iterable', lambda: c + x[0]), kind)) == 4, 'C28/iterable', lambda: f'a collection made of {type(y)} has {len(members(c, kind))} members')
            rec.step()
        e = rec.call('C28/empty', lambda: C([]).mesh(mesh_size=1.))
        rec.check(len(e.points) == 0 and len(e.lines) == 0 and len(e.triangles) == 0, 'C28/empty', 'the mesh of an empty collection is not empty')
    rec.outcome('misuse')


def cases(tier, seed):
    deep = tier != 'quick'
    out = [{'kind': 'misuse'}]
    for kind in ('path', 'surface'):
        out += [{'kind': 'words', 'of': kind, 'first': list(op)} for op in alphabet(4, deep)]
        orders = [[0], [0, 1], [1, 0], [0, 1, 2], [2, 2], [1, 3, 4], [0, 1, 2, 3]] + ([[4, 3, 2, 1, 0], [3, 1, 3, 1]] if deep else [])
        for o in orders:
            ts = [x for x in trees(o) if isinstance(x, tuple)]
            out += [{'kind': 'operation', 'of': kind, 'tree': x} for x in ts]
    return out


def run(case, rec):
    if case['kind'] == 'misuse':
        run_misuse(rec)
    elif case['kind'] == 'words':
        run_words(case['of'], tuple(case['first']), rec)
    else:
        run_operation(case['of'], case['tree'], rec)
    rec.trace()
