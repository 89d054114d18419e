"""Solutions follow the symmetries of the problem: all words (up to a length) of symmetry operations applied to small problems with every kind of
excitation; potentials, fields, charges and axial series at the probe points moved along."""
import itertools, os
import numpy as np
import vlib, problems as pr

PROPERTY = 'C22'
RULE = ('State: (problem, word of symmetry operations). The word is applied to a plain description of the problem, the solved fields are compared at the moved '
        'points with those of the original. Every word up to the depth is executed; non-trivial: not the empty word.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)


# ---- problems: (three dimensional?, elements [(group, nodes)], coils [(group, nodes)], excitations {group: (kind, value)})

def line4(a, b):
    a, b = np.array([a[0], 0., a[1]]), np.array([b[0], 0., b[1]])
    return np.array([a, b, a + (b - a) / 3, a + 2 * (b - a) / 3])


def arc(c, r, a0, a1):
    al = np.array([a0, a1, a0 + (a1 - a0) / 3, a0 + 2 * (a1 - a0) / 3])
    return np.stack([c[0] + r * np.cos(al), 0 * al, c[1] + r * np.sin(al)], axis=1)


SEGS = [(None, (3., 0.), (3., 0.4)), ('a', (1., 0.), (1., 0.4)), ('b', (1.2, 0.6), (1.2, 1.)), ('a', (1.2, 1.), (0.8, 1.35)), ('c', (0.7, -0.5), (1.1, -0.4)), ('d', (0.4, 2.), (0.9, 2.1)),
        ('c', (1.5, 1.4), (1.6, 1.9)), ('e', (2.2, -1.), (2.2, 0.)), ('e', (2.2, 0.), (2.3, 1.2))]
ARCS = [('b', (2., 0.), 0.6, 0.2, 1.1), (None, (0., 4.), 1., 0.4, 0.8), ('a', (0.3, 1.5), 0.8, 1.2, 0.5), ('c', (1.2, -1.5), 0.5, 2.8, 1.9), ('d', (0., -3.), 0.8, 1.3, 0.6), ('e', (1.9, 2.6), 0.5, -0.3, 0.6)]
# a closed dielectric ring (counter-clockwise) and a closed boundary around everything
RING = [((.8, .5), (1.2, .5)), ((1.2, .5), (1.2, .9)), ((1.2, .9), (.8, .9)), ((.8, .9), (.8, .5))]
BOX = [((0., -2.), (4., -2.)), ((4., -2.), (4., 3.)), ((4., 3.), (0., 3.))]
COILS = [('coil', ((2., 3.), (2.5, 3.), (2., 3.5))), ('coil2', ((3.8, 1.), (4.2, 1.), (4., 1.4))), ('coil', ((2.5, 3.), (2.6, 3.5), (2., 3.5)))]
SOLID = [('d', ((0, 0, 0), (1, 0, 0), (0, 1, 0.2))), (None, ((5, 5, 5), (6, 5, 5), (5, 6, 5.2))), ('a', ((1, 0, 0), (1, 1, 0.3), (0, 1, 0.2))), ('b', ((0, 0, 1.5), (1, 0, 1.6), (0, 1, 1.4))),
         ('c', ((3, 0, 0), (3, 1, 0), (3, 0, 1))), ('a', ((-9, 0, 0), (-9, 1, 0), (-9.2, 0, 1))), ('c', ((0, 7, 0), (1, 7.2, 0), (0, 7, 1))), ('e', ((1, 1, -2), (2, -1, -2), (0, -1, -1.5)))]
SLIVERS = [('a', ((0, 0, 0), (0.2, 0, 0), (0, 3, 0))), ('b', ((1.3, 0, 0.1), (1.2, 3, 0), (1.1, 0, 0))), ('c', ((-1.3, 3, 0), (-1.2, 0, 0.5), (-1.1, 0, 0.4))), ('d', ((0, 1, 1.2), (0.15, 1, 1.2), (0.1, 4, 1.5))),
           ('e', ((0, -1, 5), (1, 0, 5), (0, 1, 5)))]
SOLID, SLIVERS = [[(n, np.array(p) * 1.) for n, p in x] for x in (SOLID, SLIVERS)]
CUBE = []
for d, s in itertools.product(range(3), (0, 1)):
    u, v = (d + 1) % 3, (d + 2) % 3
    q = np.zeros((4, 3))
    q[:, d], q[[1, 2], u], q[[2, 3], v] = s, 1, 1
    q = q if s else q[[0, 3, 2, 1]]
    CUBE += [('d', q[[0, 1, 2]] * .8 + [.2, -.4, -.4]), ('d', q[[0, 2, 3]] * .8 + [.2, -.4, -.4])]
CUBE += [('a', np.array([(-1., 0, 0), (-1, 1, 0), (-1, 0, 1.3)])), ('b', np.array([(2., 0, -1), (2, 1.5, 0), (2, 0, 1.3)])), ('c', np.array([(0., 2, -1), (1.5, 2, 0), (0, 2.5, .3)])), ('e', np.array([(0., -2, -1), (1.5, -2, 0), (0, -1.5, .3)]))]

GEOMETRY = {'straight': (False, [(n, np.array([(a[0], 0, a[1]), (b[0], 0, b[1])])) for n, a, b in SEGS], True), 'straight4': (False, [(n, line4(a, b)) for n, a, b in SEGS[::-1]], True),
            'curved4': (False, [(n, arc(*r)) for n, *r in ARCS], True),
            'ring': (False, [('d', line4(*x)) for x in RING] + [(n, line4(a, b)) for n, a, b in SEGS if n not in ('d', 'e', 'c')], False),
            'box': (False, [('e', line4(*x)) for x in BOX] + [(n, line4(a, b)) for n, a, b in SEGS if n != 'e'], False),
            'solid': (True, SOLID, False), 'slivers': (True, SLIVERS, False), 'cube': (True, CUBE, False)}


def fun(x, y, z):
    return 2. + x - 0.5 * z + .3 * y


ELEC = [{'a': ('V', 5.), 'b': ('V', -3.), 'd': ('D', 4.)}, {'a': ('V', 2.), 'c': ('F', fun), 'd': ('D', .3), 'e': ('B',)}, {'b': ('V', 1.), 'c': ('V', -1e3), 'e': ('D', 30.)}, {'a': ('F', fun), 'b': ('D', 2.)}]
MAGN = [{'b': ('P', 2.), 'd': ('M', 10.), 'coil': ('I', 3.)}, {'a': ('P', -1.), 'e': ('N',), 'coil2': ('I', -2.), 'coil': ('I', 4.)}, {'a': ('V', 5.), 'b': ('P', 3.), 'c': ('M', .2), 'd': ('D', 3.), 'coil': ('I', 1.)}]


PROBES, PROBES3 = [(0.1, 0., 0.2), (0.05, -0.2, 0.7), (0., 0., -0.5), (-1.8, 0.4, 0.8), (0., 0.1, 2.6), (.3, 0., 20.)], [(0.3, -2.3, 0.8), (2., -1.5, 0.5), (0.4, 0.5, 3.5), (-4., 2., 1.), (.5, 1.5, -2.)]


class Problem:
    """Elements, coils, excitations and the map of the original problem onto this one."""
    def __init__(self, three, els, coils, exc, curved, inward=False):
        self.three, self.els, self.coils, self.exc, self.inward = three, els, coils, exc, inward
        self.A, self.s, self.T, self.c, self.m, self.merge, self.renumber = np.eye(3), 1., np.zeros(3), 1., 1., False, False

    def clone(self, **kw):
        q = Problem.__new__(Problem)
        q.__dict__.update(self.__dict__)
        q.__dict__.update(kw)
        return q

    def move(self, x):
        return self.s * (x @ self.A.T) + self.T

    def affine(self, A, s, T, flip):
        """Points go to s A x + T; flip: the elements are listed in the other sense, such that normals move along."""
        f = lambda x: s * (x @ A.T) + T
        inv = lambda y: ((y - T) / s) @ A
        def moved(x):
            if not isinstance(x[-1], float) and len(x) == 2 and callable(x[1]):
                g = x[1]
                return (x[0], lambda a, b, c: g(*inv(np.array([a, b, c]))))
            if flip and x[0] == 'I':
                return (x[0], -x[1])      # the field of a current is an axial vector
            return x
        els = [(n, f(flipped(e) if flip else e)) for n, e in self.els]
        coils = [(n, f(e)) for n, e in self.coils]
        return self.clone(els=els, coils=coils, exc={n: moved(x) for n, x in self.exc.items()}, A=A @ self.A, s=s * self.s, T=s * (A @ self.T) + T)

    def mesh(self):
        pts, cells, g, tri, gt = [], [], {}, [], {}
        index = {}

        def add(x):
            k = tuple(x)
            if self.merge and k in index:
                return index[k]
            index[k] = len(pts)
            pts.append(np.array(x))
            return len(pts) - 1
        for i, (n, e) in enumerate(self.els):
            cells.append([add(x) for x in e])
            if n:
                g.setdefault(n, []).append(i)
        for i, (n, e) in enumerate(self.coils):
            tri.append([add(x) for x in e])
            gt.setdefault(n, []).append(i)
        if self.renumber:
            p = np.argsort([(7 * i + 3) % 101 + i / 1e6 for i in range(len(pts))])
            inv = np.argsort(p)
            pts, cells, tri = [pts[i] for i in p], [[int(inv[k]) for k in c] for c in cells], [[int(inv[k]) for k in c] for c in tri]
        g, gt = [{k: np.array(v) for k, v in x.items()} for x in (g, gt)]
        if self.three:
            return t.mesher.Mesh(points=pts, triangles=cells, physical_to_triangles=g, ensure_outward_normals=False)
        return t.mesher.Mesh(points=pts, lines=cells, triangles=tri, physical_to_lines=g, physical_to_triangles=gt, ensure_outward_normals=False)

    def solve(self):
        E = t.excitation
        m = self.mesh()
        e = E.Excitation(m, E.Symmetry.THREE_D if self.three else E.Symmetry.RADIAL)
        for n, x in self.exc.items():
            if x[0] in 'BN':
                (e.add_electrostatic_boundary if x[0] == 'B' else e.add_magnetostatic_boundary)(n, ensure_inward_normals=self.inward)
            else:
                {'V': e.add_voltage, 'F': e.add_voltage, 'D': e.add_dielectric, 'P': e.add_magnetostatic_potential, 'M': e.add_magnetizable, 'I': e.add_current}[x[0]](**{n: x[1]})
        return t.solver.solve_direct(e)


def flipped(e):
    return e[[1, 0, 3, 2]] if len(e) == 4 else (e[::-1] if len(e) == 2 else e[[0, 2, 1]])


def base(name, k, mag):
    three, els, coils = GEOMETRY[name]
    groups = {n for n, _ in els} | {n for n, _ in COILS if coils}
    exc = {n: x for n, x in (MAGN if mag else ELEC)[k].items() if n in groups}
    return Problem(three, els, [(n, np.array([(x, 0., z) for x, z in p])) for n, p in COILS] if coils else [], exc, name == 'curved4', inward=name == 'box')


# ---- operations

def turn(ax, al):
    ax = np.array(ax, float) / np.linalg.norm(ax)
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    return np.eye(3) + np.sin(al) * K + (1 - np.cos(al)) * K @ K


def scale_values(p, kinds, k):
    def f(x):
        if x[0] not in kinds:
            return x
        if x[0] == 'F':
            g = x[1]
            return ('F', lambda a, b, c: k * g(a, b, c))
        return (x[0], k * x[1])
    return p.clone(exc={n: f(x) for n, x in p.exc.items()})


def free(p):
    """Groups whose orientation has no meaning."""
    return {None} | {n for n in {n for n, _ in p.els} if n not in p.exc or p.exc[n][0] in 'VFP'}


def turned(p):
    ok = free(p)
    return p.clone(els=[(n, flipped(e) if n in ok else e) for n, e in p.els])


def cycled(p, k):
    return p.clone(els=[(n, np.roll(e, k, axis=0)) if len(e) == 3 else (n, e) for n, e in p.els], coils=[(n, np.roll(e, k, axis=0)) for n, e in p.coils])


I = np.eye(3)
COMMON = {
    'small': lambda p: p.affine(I, 3e-7, np.zeros(3), False), 'large': lambda p: p.affine(I, 1e3, np.zeros(3), False), 'milli': lambda p: p.affine(I, 1.7e-3, np.zeros(3), False),
    'volts': lambda p: scale_values(p, 'VF', -2.5).clone(c=-2.5 * p.c), 'microvolts': lambda p: scale_values(p, 'VF', 1e-6).clone(c=1e-6 * p.c),
    'amperes': lambda p: scale_values(p, 'PI', 40.).clone(m=40. * p.m),
    'reverse': lambda p: p.clone(els=p.els[::-1], coils=p.coils[::-1]), 'rotate': lambda p: p.clone(els=p.els[2:] + p.els[:2]), 'interleave': lambda p: p.clone(els=p.els[::2] + p.els[1::2]),
    'excite': lambda p: p.clone(exc=dict(list(p.exc.items())[::-1])), 'orient': turned, 'merge': lambda p: p.clone(merge=True), 'renumber': lambda p: p.clone(renumber=True)}
RADIAL = COMMON | {
    'shift': lambda p: p.affine(I, 1., p.s * np.array([0, 0, -3.7]), False), 'shift-far': lambda p: p.affine(I, 1., p.s * np.array([0, 0, 200.]), False), 'mirror': lambda p: p.affine(np.diag([1., 1, -1]), 1., np.zeros(3), True),
    'cycle': lambda p: cycled(p, 1)}
SOLIDS = COMMON | {
    'shift': lambda p: p.affine(I, 1., p.s * np.array([1., -3.7, .4]), False), 'shift-far': lambda p: p.affine(I, 1., p.s * np.array([0, 50, 200.]), False), 'mirror': lambda p: p.affine(np.diag([-1., 1, 1]), 1., np.zeros(3), True),
    'quarter-z': lambda p: p.affine(np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]]), 1., np.zeros(3), False), 'axes': lambda p: p.affine(np.array([[0., 0, 1], [1, 0, 0], [0, 1, 0]]), 1., np.zeros(3), False),
    'turn': lambda p: p.affine(turn([1, 2, 3], 1.1), 1., np.zeros(3), False), 'cycle': lambda p: cycled(p, 1), 'cycle2': lambda p: cycled(p, 2)}


def signed_permutations():
    for perm in itertools.permutations(range(3)):
        for s in itertools.product((1., -1.), repeat=3):
            A = np.zeros((3, 3))
            A[range(3), perm] = s
            yield A


def cases(tier, seed):
    out = []
    for name, (three, els, coils) in GEOMETRY.items():
        for mag in ((False,) if three else (False, True)):
            for k in range(len(MAGN if mag else ELEC)):
                for first in (RADIAL if not three else SOLIDS):
                    out.append({'name': name, 'mag': mag, 'k': k, 'first': first, 'depth': 2 if tier == 'quick' else 3})
                if three:
                    out.append({'name': name, 'mag': mag, 'k': k, 'first': None, 'depth': 1})
    return out


def observe(f, p):
    """Potentials and fields at the moved probes, converted back."""
    phi, vec = [], []
    for x in PROBES3 if p.three else PROBES:
        y = p.move(np.array(x))
        phi += [f.electrostatic_potential_at_point(y) / p.c, f.magnetostatic_potential_at_point(y) / p.m]
        vec += [p.A.T @ f.electrostatic_field_at_point(y) * p.s / p.c, p.A.T @ f.magnetostatic_field_at_point(y) * p.s / p.m]
    n = len(f.electrostatic_point_charges.charges)
    q = f.charge_on_elements(list(range(n))) / p.c / p.s if n else 0.
    return np.array(phi).reshape(-1, 2), np.array(vec).reshape(-1, 2, 3), q


_first = {}


def original(name, mag, k):
    if (name, mag, k) not in _first:
        p = base(name, k, mag)
        f = p.solve()
        _first[name, mag, k] = observe(f, p), axial(f, p) if not p.three else None
    return _first[name, mag, k]


def axial(f, p):
    """Potential and field near the axis from the radial series, over the moved interval."""
    ends = sorted(p.move(np.array([0, 0, z]))[2] for z in (-1.1, 1.3))
    g = t.interpolation.FieldRadialAxial(f, *ends, N=50)
    out = []
    for x in ((0., 0., .1), (.05, .02, .4), (-.03, 0., -.8)):
        y = p.move(np.array(x))
        out += [g.electrostatic_potential_at_point(y) / p.c, *(p.A.T @ g.electrostatic_field_at_point(y)) * p.s / p.c, g.magnetostatic_potential_at_point(y) / p.m, *(p.A.T @ g.magnetostatic_field_at_point(y)) * p.s / p.m]
    return np.array(out).reshape(-1, 2, 4)


def judge(case, word, p, rec):
    name, mag, k = case['name'], case['mag'], case['k']
    (phi0, vec0, q0), ax0 = rec.call('C22/original', lambda: original(name, mag, k))
    where = lambda: f"{name}, {(MAGN if mag else ELEC)[k]}, after {' then '.join(word)}"
    rec.state((name, mag, k, tuple(word)))
    f = rec.call('C22/solve', p.solve)
    if f is None:
        return
    phi, vec, q = rec.call('C22/observe', lambda: observe(f, p))
    rec.step(1 + 2 * len(phi))
    tol = 1e-8 + 1e-9 * np.linalg.norm(p.T) / p.s      # coordinates are stored with eleven digits
    for i, what in enumerate(('electrostatic', 'magnetostatic')):
        a, b = np.max(np.abs(phi0[:, i])), np.max(np.linalg.norm(vec0[:, i], axis=1))
        d, e = np.abs(phi[:, i] - phi0[:, i]), np.linalg.norm(vec[:, i] - vec0[:, i], axis=1)
        j = np.argmax(e)
        rec.check(np.all(d <= tol * max(a, 1e-300)), f'C22/{what}-potential', lambda: f'{where()}: {what} potential {phi[np.argmax(d), i]} at the moved point of {(PROBES3 if p.three else PROBES)[np.argmax(d)]}, before {phi0[np.argmax(d), i]} (converted back)')
        rec.check(np.all(e <= tol * max(b, 1e-300)), f'C22/{what}-field', lambda: f'{where()}: {what} field {vec[j, i]} at the moved point of {(PROBES3 if p.three else PROBES)[j]}, before {vec0[j, i]} (converted back)')
    rec.check(abs(q - q0) <= tol * max(abs(q0), np.max(np.abs(phi0[:, 0]))), 'C22/charge', lambda: f'{where()}: total charge {q}, before {q0} (converted back)')
    if ax0 is not None and len(word) == 1:
        ax = rec.call('C22/axial', lambda: axial(f, p))
        rec.step()
        for i in range(2):
            for sl in (slice(0, 1), slice(1, 4)):
                size = np.max(np.abs(ax0[:, i, sl]))
                rec.check(np.all(np.abs(ax[:, i, sl] - ax0[:, i, sl]) <= (1e-6 + 100 * tol) * max(size, 1e-300)), 'C22/axial', lambda: f'{where()}: radial series {ax[:, i, sl]}, before {ax0[:, i, sl]} (converted back)')
    rec.outcome((name, mag, k, round(float(phi[0, 0]), 6), len(word)))


def run(case, rec):
    p0 = base(case['name'], case['k'], case['mag'])
    if case['first'] is None:
        for A in signed_permutations():
            judge(case, [f'axes {A.tolist()}'], p0.affine(A, 1., np.zeros(3), np.linalg.det(A) < 0), rec)
        rec.trace()
        return
    ops = SOLIDS if p0.three else RADIAL

    def walk(p, word):
        judge(case, word, p, rec)
        rec.trace()
        if len(word) < case['depth']:
            for g, op in ops.items():
                if word[-1] in GROUP.get(g, ()):
                    continue
                q = op(p)
                if 2e-7 < q.s < 1e7:
                    walk(q, word + [g])
    walk(ops[case['first']](p0), [case['first']])


GROUP = {'merge': ('merge',), 'renumber': ('renumber',), 'excite': ('excite',)}
