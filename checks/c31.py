"""Element integrals are right and symmetric for every relative position: a full product of shapes, vertex orders, rigid motions, units of length and strata
of the observation point for triangles and rings, the elliptic integrals on a dense grid, a family of integrands for the adaptive integration."""
import itertools, os
import numpy as np
import scipy.special as sp
import vlib, ref, problems as pr

PROPERTY = 'C31'
RULE = ('State: (element, order of its vertices or mirror image, motion, unit of length, position of the observation point) or (integrand, interval, tolerance). '
        'Every product is executed; non-trivial: every one.')
CASE_TIMEOUT = 120


def setup(tier, seed):
    global t, B, DEEP
    DEEP = tier != 'quick'
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    B = t.backend


SHAPES = {'unit': [[0, 0, 0], [1, 0, 0], [0, 1, 0]], 'equi': [[0, 0, 0], [1, 0, 0], [.5, .866, 0]], 'obtuse': [[0, 0, 0], [1, 0, 0], [2.5, .5, .3]],
          'thin': [[0, 0, 0], [1, 0, 0], [.5, .01, 0]], 'needle': [[0, 0, 0], [.01, 0, 0], [0, 1, 0]], 'tilted': [[.1, .2, .3], [.9, -.4, .7], [.3, .8, 1.3]],
          'long': [[0, 0, 0], [0, 0, 4], [0, .7, 1.5]], 'right': [[1, 1, 1], [1, 4, 1], [1, 1, 5]]}
STRATA = {'inside': (.2, .5, .3), 'centroid': (1 / 3, 1 / 3, 1 / 3), 'inside2': (.05, .05, .9), 'edge': (.5, .5, 0), 'edge2': (0, .5, .5), 'edge3': (.3, 0, .7), 'vertex': (1, 0, 0),
          'vertex1': (0, 1, 0), 'vertex2': (0, 0, 1), 'line': (1.5, -.5, 0), 'line2': (-.5, 0, 1.5), 'line3': (0, -.5, 1.5), 'out': (.9, .6, -.5), 'out2': (-1, 1, 1), 'out3': (1, -.3, .3),
          'beyond': (5, -2, -2), 'far': (-30, 18, 13)}
HEIGHTS = (0, 1e-8, 1e-5, 1e-3, .03, .1, .5, 1, 4, 40)
UNITS = (1e-6, 1e-3, 1., 1e3)
GENERIC = np.array([0.3, -0.7, 0.55])


def motions():
    def rot(ax, al):
        ax = np.array(ax, float) / np.linalg.norm(ax)
        K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
        return np.eye(3) + np.sin(al) * K + (1 - np.cos(al)) * K @ K
    yield 'identity', np.eye(3), np.zeros(3)
    yield 'quarter', np.array([[0., -1, 0], [0, 0, 1], [-1, 0, 0]]), np.zeros(3)
    yield 'turn', rot([1, 2, 3], 1.1), np.array([.5, -1., 2.])
    yield 'mirror', np.diag([1., 1, -1]), np.zeros(3)
    yield 'move', np.eye(3), np.array([-3., 1., 2.5])


def cases(tier, seed):
    out = []
    units = UNITS if tier == 'quick' else UNITS + (1e-9, 1e6)
    for s in SHAPES:
        for m in ('identity', 'quarter', 'turn', 'mirror', 'move'):
            for u in units:
                out.append({'kind': 'triangle', 'shape': s, 'motion': m, 'unit': u})
        out.append({'kind': 'split', 'shape': s})
        out.append({'kind': 'self', 'shape': s})
    out += [{'kind': 'ring', 'r': r} for r in (1e-6, 1e-3, .4, 1., 7., 1e3)]
    out += [{'kind': 'loop', 'r': r} for r in (1e-6, 1e-3, .4, 1., 7., 1e3)]
    out += [{'kind': 'elliptic', 'n': 4000 if tier == 'quick' else 100000}]
    out += [{'kind': 'adaptive', 'name': n} for n in INTEGRANDS]
    out += [{'kind': 'element', 'shape': s, 'unit': u} for s in SHAPES for u in units]
    return out


def run(case, rec):
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)


def position(v, n, L, b, h):
    return np.array(b) @ v + n * h * L


def run_triangle(shape, motion, unit, rec):
    v = np.array(SHAPES[shape], float)
    n, L = ref.tri_normal(v), max(np.linalg.norm(v[i] - v[j]) for i in range(3) for j in range(3))
    R, T = next((R, T) for nm, R, T in motions() if nm == motion)
    for (bn, b), h, side in itertools.product(STRATA.items(), HEIGHTS, (1, -1)):
        if h == 0 and side < 0:
            continue
        p = position(v, n, L, b, side * h)
        P, E = ref.tri_pot_E(v, p)
        P, E = 4 * np.pi * P, 4 * np.pi * E
        boundary = min(b) == 0 or bn.startswith('line')
        width = 1. if shape not in ('thin', 'needle') else 100.
        tolP = 1e-9 if h > 1e-6 or not boundary else 1e-7 * width
        tolE = 1e-9 + 1e-13 / h * width if h else 1e-9 * width
        rec.state((shape, motion, unit, bn, side * h))
        q = (R @ p + T) * unit
        for perm in itertools.permutations(range(3)) if motion == 'identity' and unit == 1 or DEEP else ((0, 1, 2), (2, 1, 0)):
            w = ((v @ R.T + T) * unit)[list(perm)]
            got = rec.call('C31/potential', lambda: B.potential_triangle(w[0], w[1], w[2], q)) / unit
            rec.step()
            rec.check(abs(got - P) <= tolP * abs(P), 'C31/potential',
                      lambda: f'triangle {w.tolist()}, at {q.tolist()} ({bn}, height {side * h} of its size): potential integral {got * unit}, exact {P * unit}')
            if np.min(b) > 0 and h == 0:
                dirs = [v[1] - v[0], v[2] - v[0]]      # on the triangle itself: the normal component jumps
            elif h == 0 and boundary:
                continue                               # infinite on an edge
            else:
                dirs = list(np.eye(3)) + [GENERIC]
            for d in dirs:
                g = rec.call('C31/flux', lambda: B.flux_triangle(w[0], w[1], w[2], q, R @ d))
                rec.step()
                rec.check(abs(g - E @ d) <= tolE * np.linalg.norm(d) * max(np.linalg.norm(E), 1e-300), 'C31/flux',
                          lambda: f'triangle {w.tolist()}, at {q.tolist()} ({bn}, height {side * h} of its size), along {(R @ d).tolist()}: flux {g}, exact {E @ d}')
        rec.outcome((round(P, 6), motion == 'mirror'))
    rec.trace()


def run_split(shape, rec):
    """A triangle is the sum of its parts, independently of the reference; far away it is the quadrature of its points."""
    v = np.array(SHAPES[shape], float)
    n, L = ref.tri_normal(v), max(np.linalg.norm(v[i] - v[j]) for i in range(3) for j in range(3))
    for (bn, b), h, cut in itertools.product(STRATA.items(), HEIGHTS[2:], ((1 / 3, 1 / 3, 1 / 3), (.5, .5, 0), (.2, .1, .7))):
        p, c = position(v, n, L, b, h), np.array(cut) @ v
        parts = [np.array([v[i], v[(i + 1) % 3], c]) for i in range(3) if cut[(i + 2) % 3] > 0]
        rec.state((shape, bn, h, cut))
        whole = B.potential_triangle(*v, p)
        some = sum(B.potential_triangle(*w, p) for w in parts)
        rec.step(2)
        rec.check(abs(whole - some) <= 1e-8 * abs(whole), 'C31/additive', lambda: f'triangle {v.tolist()} split at {c.tolist()}, at {p.tolist()}: {whole}, sum of parts {some}')
        fl, fs = B.flux_triangle(*v, p, GENERIC), sum(B.flux_triangle(*w, p, GENERIC) for w in parts)
        size = np.linalg.norm([B.flux_triangle(*v, p, d) for d in np.eye(3)]) + 1e-300
        rec.check(abs(fl - fs) <= 1e-7 * size, 'C31/additive', lambda: f'triangle {v.tolist()} split at {c.tolist()}, at {p.tolist()}: flux {fl}, sum of parts {fs}')
        if h >= 4:
            x, w = ref.tri_nodes(v)
            d = p - x
            r = np.linalg.norm(d, axis=1)
            rec.check(abs(whole - np.sum(w / r)) <= 1e-9 * whole, 'C31/quadrature', lambda: f'triangle {v.tolist()}, at {p.tolist()}: {whole}, quadrature {np.sum(w / r)}')
            q = np.sum(w / r**3 * (d @ GENERIC))
            rec.check(abs(fl - q) <= 1e-8 * size, 'C31/quadrature', lambda: f'triangle {v.tolist()}, at {p.tolist()}: flux {fl}, quadrature {q}')
        rec.outcome(round(whole, 6))
    rec.trace()


def run_self(shape, rec):
    v = np.array(SHAPES[shape], float)
    for unit, (bn, b) in itertools.product(UNITS, [x for x in STRATA.items() if min(x[1]) > 0]):
        p = np.array(b) @ v
        want = 4 * np.pi * ref.tri_pot_E(v, p)[0]
        rec.state((shape, unit, bn))
        for perm in itertools.permutations(range(3)):
            w = v[list(perm)] * unit
            got = rec.call('C31/self', lambda: B.self_potential_triangle(*w, p * unit)) / unit
            rec.step()
            rec.check(abs(got - want) <= 1e-9 * want, 'C31/self', lambda: f'triangle {w.tolist()}: potential integral at its interior point {(p * unit).tolist()} is {got * unit}, exact {want * unit}')
            one = rec.call('C31/self', lambda: B.self_potential_triangle_v0(*w)) / unit
            exact = 4 * np.pi * ref.tri_pot_E(v, v[perm[0]])[0]
            rec.check(abs(one - exact) <= 1e-7 * exact, 'C31/self', lambda: f'triangle {w.tolist()}: potential integral at its first vertex is {one * unit}, exact {exact * unit}')
        rec.outcome(round(want, 8))
    rec.trace()


OFFSETS = (0, 1e-7, 1e-4, .01, .3, 1, 3, 50)


def ring_points(r):
    for a, z in itertools.product(sorted({-1., *[s * o for o in OFFSETS for s in (1, -1) if s * o >= -1]} | {-1 + 1e-7, -1 + 1e-4, -.97}), (0., *[s * o for o in OFFSETS[1:] for s in (1, -1)])):
        if a == 0 and z == 0:
            continue
        yield r * (1 + a), r * z, min(np.hypot(a, z), 1)


def run_ring(r, rec):
    for z0 in (0., 2. * r, -1. * r):
        for r0, dz, d in ring_points(r):
            rec.state((r, z0, r0, dz))
            P, (Er, Ez) = float(ref.ring_pot(r0, dz, r, 0.)), map(float, ref.ring_E(r0, dz, r, 0.))
            a = (r0, z0 + dz, r, z0)
            got = rec.call('C31/ring', lambda: (B.potential_radial_ring(*a), -B.dr1_potential_radial_ring(*a), -B.dz1_potential_radial_ring(*a)))
            rec.step(3)
            tol = 1e-10 + 1e-14 / d
            E = P / np.hypot(r - r0, dz)
            rec.check(abs(got[0] - P) <= tol * abs(P), 'C31/ring', lambda: f'ring of radius {r} at z={z0}, at (r, z)={a[:2]}: potential {got[0]}, exact {P}')
            axis = 1e-13 * r / max(r0, 1e-9 * r) + (1.01 * r0 / r if r0 < 1.001e-10 else 0.)     # the formula cancels close to the axis, zero is returned within 1e-10 of it
            rec.check(abs(got[1] - Er) <= (tol * E + axis * E) and abs(got[2] - Ez) <= tol * E, 'C31/ring',
                      lambda: f'ring of radius {r} at z={z0}, at (r, z)={a[:2]}: field {got[1:]}, exact {(Er, Ez)}')
            if r0 > 0:
                back = B.potential_radial_ring(r, z0, r0, z0 + dz)
                rec.check(abs(back * r - P * r0) <= (tol + 1e-9) * P * r0, 'C31/ring', lambda: f'not reciprocal: {(r, z0)} and {a[:2]}: {back * r}, {P * r0}')
            rec.outcome((round(P, 7), round(Er * r, 7)))
    rec.trace()


def run_loop(r, rec):
    for z0 in (0., 2. * r, -1. * r):
        for r0, dz, d in ring_points(r):
            rec.state((r, z0, r0, dz))
            Hr, Hz = map(float, ref.loop_H(r0, dz, r, 0.))
            got = rec.call('C31/loop', lambda: B.current_field_radial_ring(r0, z0 + dz, r, z0))
            rec.step()
            tol = 1e-8 + 1e-13 / d
            H = np.hypot(Hr, Hz)
            axis = 3e-14 * (r * r + dz * dz) / r / max(r0, 1e-9 * r) + (1.01 * r0 / r if r0 < 1.001e-10 else 0.)
            rec.check(abs(got[0] - Hr) <= (tol + axis) * H and abs(got[1] - Hz) <= tol * H, 'C31/loop',
                      lambda: f'loop of radius {r} at z={z0}, at (r, z)={(r0, z0 + dz)}: field {got}, exact {(Hr, Hz)}')
            rec.outcome((round(Hr * r, 7), round(Hz * r, 7)))
    rec.trace()


def run_elliptic(n, rec):
    p = np.concatenate([np.geomspace(1e-300, 1, n), 1 - np.geomspace(1e-16, .9, n)])
    k = np.concatenate([np.linspace(-5, 1, n + 1)[:-1], -np.geomspace(1e-12, 1e12, n), 1 - np.geomspace(1e-15, 1, n)])
    p0, k1 = np.append(p, 0.), np.append(k, 1.)         # K is infinite there, E is 1
    for name, arg, want in (('ellipkm1', p, sp.ellipkm1(p)), ('ellipem1', p0, sp.ellipe(1 - p0)), ('ellipk', k, sp.ellipk(k)), ('ellipe', k1, sp.ellipe(k1))):
        got = rec.call('C31/elliptic', lambda: getattr(B, name)(arg))
        rec.step(len(arg))
        bad = np.flatnonzero(~(np.abs(got - want) <= 1e-12 * np.abs(want)))
        for i in range(len(arg)):
            rec.state((name, arg[i]))
        rec.check(not len(bad), 'C31/elliptic', lambda: f'{name}({arg[bad[0]]!r}) = {got[bad[0]]}, exact {want[bad[0]]} ({len(bad)} arguments differ)')
        rec.outcome((name, len(bad)))
    rec.trace()


# name: (function with parameter, antiderivative)
INTEGRANDS = {f'power{k}': (lambda x, c, k=k: (x - c)**k, lambda x, c, k=k: (x - c)**(k + 1) / (k + 1)) for k in (0, 1, 2, 5, 9)}
INTEGRANDS |= {
    'peak.1': (lambda x, c: 1 / ((x - c)**2 + .1**2), lambda x, c: np.arctan((x - c) / .1) / .1),
    'peak.01': (lambda x, c: 1 / ((x - c)**2 + .01**2), lambda x, c: np.arctan((x - c) / .01) / .01),
    'gauss': (lambda x, c: np.exp(-(x - c)**2 * 4), lambda x, c: np.sqrt(np.pi) / 4 * sp.erf(2 * (x - c))),
    'exp': (lambda x, c: np.exp(3 * (x - c)), lambda x, c: np.exp(3 * (x - c)) / 3),
    'sin': (lambda x, c: np.sin(9 * (x - c)), lambda x, c: -np.cos(9 * (x - c)) / 9)}
INTERVALS = [(0., 1.), (-1., 1.), (-2.3, -.4), (.5, .5 + 1e-6), (0., 1e-4), (-1.5, 2.), (0., 0.)]
TOLERANCES = [(1e-6, 1e-12), (0., 1e-6), (1e-9, 1e-12), (0., 1e-10), (1e-9, 1e-9)]


def run_adaptive(name, rec):
    f, F = INTEGRANDS[name]
    for (a, b), c, (ea, er), scale in itertools.product(INTERVALS, (0., 1 / 3, .7, -.1), TOLERANCES, (1., -1e3, 1e-5)):
        want = scale * (F(b, c) - F(a, c))
        x = np.linspace(a, b, 2001)
        size = abs(scale) * max(1e-300, np.mean([abs(f(y, c)) for y in (x[1:] + x[:-1]) / 2]) * (b - a))
        rounding = 2e-13 * abs(scale) * max(abs(F(b, c)), abs(F(a, c)))
        calls = [0]
        
        def fun(y):
            calls[0] += 1
            return scale * f(y, c)
        rec.state((name, a, b, c, ea, er, scale))
        got = rec.call('C31/adaptive', lambda: B.kronrod_adaptive(fun, a, b, ea, er))
        rec.step()
        # the tolerance is applied to every part of the interval
        pieces = max(1, calls[0] / 30)
        rec.check(abs(got - want) <= pieces * ea + 3 * er * size + rounding + 1e-14 * size, 'C31/adaptive',
                  lambda: f'integral of {scale} * {name} (parameter {c}) over {a}, {b} with tolerances {ea}, {er}: {got}, exact {want} ({calls[0]} evaluations)')
        rec.outcome((name, calls[0]))
    rec.trace()


def run_element(shape, unit, rec):
    """The field of one triangle through the public interface: charge at a given voltage, field from twice its size, any order of vertices."""
    v = np.array(SHAPES[shape], float)
    n, L = ref.tri_normal(v), max(np.linalg.norm(v[i] - v[j]) for i in range(3) for j in range(3))
    c = v.mean(axis=0)
    want = 1 / ref.tri_pot_E(v, c)[0]
    for perm, motion in itertools.product(itertools.permutations(range(3)), ('identity', 'turn', 'quarter')):
        R, T = next((R, T) for nm, R, T in motions() if nm == motion)
        w = ((v @ R.T + T) * unit)[list(perm)]
        m = pr.tri_mesh(t, [('a', w)])
        e = t.excitation.Excitation(m, t.excitation.Symmetry.THREE_D)
        e.add_voltage(a=1.)
        rec.state((shape, unit, perm, motion))
        f = rec.call('C31/element', lambda: t.solver.solve_direct(e))
        q = rec.call('C31/element', lambda: f.charge_on_elements([0]))
        rec.step(2)
        rec.check(abs(q - want * ref.tri_area(v) * unit) <= 1e-8 * q, 'C31/element', lambda: f'triangle {w.tolist()} at 1 V: charge {q}, exact {want * ref.tri_area(v) * unit}')
        for b, h in itertools.product(((1 / 3, 1 / 3, 1 / 3), (4, -2, -1), (-3, 2, 2), (1, 5, -5)), (2.5, -6, 40)):
            p = position(v, n, L, b, h)
            P, E = ref.tri_pot_E(v, p)
            x = (R @ p + T) * unit
            got = rec.call('C31/element', lambda: (f.potential_at_point(x), f.field_at_point(x)))
            rec.step(2)
            rec.check(abs(got[0] - P * want) <= 1e-5 * P * want, 'C31/element', lambda: f'triangle {w.tolist()} at 1 V, at {x.tolist()}: potential {got[0]}, exact {P * want}')
            rec.check(np.linalg.norm(got[1] - R @ E * want / unit) <= 1e-4 * np.linalg.norm(E * want / unit), 'C31/element',
                      lambda: f'triangle {w.tolist()} at 1 V, at {x.tolist()}: field {got[1]}, exact {R @ E * want / unit}')
        rec.outcome((shape, round(q / unit, 9)))
    rec.trace()
