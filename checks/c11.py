"""Field bounds: the 27 regions that three pairs of bounds make, for every field kind, form of the bounds and history of setting them, in the reported field and
in the motion of electrons."""
import itertools, os
import numpy as np
import vlib, ref, problems as pr

PROPERTY = 'C11'
RULE = 'State: (field kind, bounds, region, launch). Non-trivial: regions where the field without bounds is not zero (all of them).'
CASE_TIMEOUT = 600


def setup(tier, seed):
    global t, base
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    import c10
    c10.t = t
    base = c10


KINDS = ['elec', 'mag', 'coil', 'coilmag', 'mixed', 'sum', 'elec3', 'mag3', 'mixed3', 'sum3']
BOXES = {'centre': ((-0.2, 0.15), (-0.1, 0.25), (-0.3, 0.2)), 'ints': ((-1, 1), (-2, 1), (0, 2)), 'off': ((0.05, 0.2), (-0.3, -0.1), (0.1, 0.6)), 'thin': ((-0.1, 0.2), (-1., 1.), (-0.01, 0.03))}
ORDINARY = BOXES['centre']


def cases(tier, seed):
    out = []
    for k in KINDS:
        for b in BOXES:
            out.append(dict(what='regions', kind=k, box=b, tier=tier))
        out.append(dict(what='forms', kind=k))
        out.append(dict(what='histories', kind=k))
        out.append(dict(what='crossing', kind=k, tier=tier))
    return out


def run(case, rec):
    {'regions': regions, 'forms': forms, 'histories': histories, 'crossing': crossing}[case['what']](case, rec)
    rec.trace()


def fresh(kind):
    """A field object of its own, without bounds."""
    return rec_call(lambda: 1. * base.make(kind))


def rec_call(fun):
    return fun()


def values(f, p, pots=True):
    p = np.asarray(p)
    v = [*f.electrostatic_field_at_point(p), *f.magnetostatic_field_at_point(p)]
    if pots:
        v += [f.electrostatic_potential_at_point(p), f.magnetostatic_potential_at_point(p)]
    return np.array(v)


def places(lo, hi):
    w = min(hi - lo, 0.3)
    return [[lo - 0.35 * w, np.nextafter(lo, -9)], [lo + 0.01 * w, 0.6 * lo + 0.4 * hi, hi - 0.02 * w], [np.nextafter(hi, 9), hi + 0.3 * w]]


def inside(p, b):
    return all(lo < x < hi for x, (lo, hi) in zip(p, b))


DIRS = [(0., 0., 1.), (1., -1., 0.3), (-0.2, 0.5, -1.)]


def regions(case, rec):
    kind, b = case['kind'], BOXES[case['box']]
    f = rec.call('C11/field', lambda: fresh(kind))
    free = rec.call('C11/field', lambda: fresh(kind))
    rec.call('C11/set-bounds', lambda: f.set_bounds(b))
    pl = [places(*x) for x in b]
    for region in itertools.product(range(3), repeat=3):
        for p in itertools.product(*(pl[k][region[k]] for k in range(3))):
            p = np.array(p)
            rec.state((kind, case['box'], p.tobytes()))
            where = f'{kind} bounds {b} at {p.tolist()}'
            got = rec.call('C11/evaluate', lambda: values(f, p))
            want = values(free, p)
            rec.step()
            if inside(p, b):
                rec.check(np.array_equal(got, want), 'C11/inside', lambda: f'{where}: {got}, without bounds {want}')
            else:
                rec.check(np.array_equal(got[:6], np.zeros(6)), 'C11/outside', lambda: f'{where}: field {got[:6]} outside of the bounds')
            got3 = np.asarray(f.current_field_at_point(p)) if hasattr(f, 'current_field_at_point') and kind in ('coil', 'coilmag', 'mixed') else None
            if got3 is not None:
                rec.check(np.array_equal(got3, np.asarray(free.current_field_at_point(p)) if inside(p, b) else np.zeros(3)), 'C11/current-field', lambda: f'{where}: field of the current {got3}')
        # motion within the region
        p = np.array([pl[k][region[k]][1 if region[k] == 1 else (0 if region[k] == 0 else 1)] for k in range(3)])
        m = min(min(abs(x - y) for y in bb) for x, bb in zip(p, b))
        box = [(x - 0.9 * m, x + 0.9 * m) for x in p]
        for d in DIRS:
            for energy in (300., 5000.):
                v = energy * np.array(d) / np.linalg.norm(d)
                where = f'{kind} bounds {b}, electron from {p.tolist()} with {np.round(v, 2).tolist()} eV'
                rec.state((kind, case['box'], p.tobytes(), d, energy))
                T, P = rec.call('C11/trace', lambda: f.get_tracer(box)(p, v))
                if inside(p, b):
                    if m < 0.02:
                        continue
                    T2, P2 = free.get_tracer(box)(p, v)
                    # the step to the last sample may feel what is outside of the bounds
                    k = slice(0, max(1, min(len(P), len(P2)) - 3))
                    # (and a discontinuous force leads to smaller steps)
                    rec.check(abs(len(P) - len(P2)) <= 3 and np.allclose(P[k], P2[k], rtol=1e-12, atol=1e-12), 'C11/motion-inside', lambda: f'{where}: ends at {P[-1]}, without bounds at {P2[-1]}')
                else:
                    q = P[:-1] if len(P) > 1 and not all(x - m < y < x + m for x, y in zip(p, P[-1, :3])) else P
                    rec.check(np.allclose(q[:, 3:], P[0, 3:], rtol=1e-13, atol=0), 'C11/motion-outside', lambda: f'{where}: velocity changes from {P[0, 3:]} to {q[-1, 3:]} outside of the bounds')
                rec.step()


def equivalent(f, g, b, rec, key, where):
    for p in ([0.02, 0.03, 0.1], [0.02, 0.03, 0.5], [0.25, 0.03, 0.1], [0.02, -0.3, 0.1], [-0.6, 0.2, 1.2], [0.1, 0., -0.9], [0.3, -0.3, 2.5]):
        a, c = rec.call(key, lambda: values(f, p)), values(g, p)
        rec.check(np.array_equal(a, c), key, lambda: f'{where}: at {p} {a}, should be {c}')
    for p, d in (([0.02, 0.03, -0.9], [0.03, 0., 1.]), ([-0.5, 0.02, 0.1], [1., 0., 0.05]), ([0.01, 0.6, 0.5], [0., -1., -0.2])):
        box = ((-0.7, 0.7), (-0.7, 0.7), (-1., 1.))
        v = 3000 * np.array(d)
        A, B = rec.call(key, lambda: f.get_tracer(box)(np.array(p), v)), g.get_tracer(box)(np.array(p), v)
        rec.check(all(np.array_equal(x, y) for x, y in zip(A, B)), key, lambda: f'{where}: electron from {p} ends at {A[1][-1]}, should be {B[1][-1]}')
    rec.step()


def forms(case, rec):
    kind = case['kind']
    for name, b in BOXES.items():
        ref_field = fresh(kind)
        ref_field.set_bounds(np.array(b, float))
        a = np.array(b, float)
        variants = {'lists': [list(x) for x in b], 'tuples': b, 'transposed': np.array([a[:, 0], a[:, 1]]).T, 'slice': np.stack([a[:, 0], 9 + 0 * a[:, 0], a[:, 1]], axis=1)[:, ::2], 'list of arrays': [np.array(x) for x in b], 'big-endian': a.astype('>f8')}
        if name == 'ints':
            for dt in (np.int64, np.int32, np.int8, np.float32):
                variants[str(dt)] = np.array(b, dt)
        for n, v in variants.items():
            f = fresh(kind)
            keep = repr(v)
            rec.call('C11/set-bounds', lambda: f.set_bounds(v))
            rec.state((kind, name, n))
            rec.check(repr(v) == keep, 'C11/argument-changed', n)
            equivalent(f, ref_field, b, rec, 'C11/form', f'{kind}: bounds {name} as {n}')


def histories(case, rec):
    kind = case['kind']
    free, bounded, other = fresh(kind), fresh(kind), fresh(kind)
    bounded.set_bounds(ORDINARY)
    other.set_bounds(BOXES['off'])
    b = np.array(ORDINARY)
    ops = {}

    def op(name):
        def deco(fun):
            ops[name] = fun
        return deco

    @op('the array passed in changes afterwards')
    def _():
        a = b.copy()
        f = fresh(kind)
        f.set_bounds(a)
        a[:] = 0.
        return f, bounded

    @op('set twice')
    def _():
        f = fresh(kind)
        f.set_bounds(BOXES['off'])
        f.set_bounds(ORDINARY)
        return f, bounded

    @op('tracer made before')
    def _():
        f = fresh(kind)
        box = ((-0.7, 0.7), (-0.7, 0.7), (-1., 1.))
        tr = f.get_tracer(box)
        x, v = np.array([0.02, 0.03, -0.9]), np.array([30., 0., 3000.])
        f.set_bounds(ORDINARY)
        rec.check(np.array_equal(tr(x, v)[1], bounded.get_tracer(box)(x, v)[1]), 'C11/tracer-before', f'{kind}: a tracer that was made before the bounds were set ignores them')
        return f, bounded

    @op('refused bounds')
    def _():
        f = fresh(kind)
        f.set_bounds(ORDINARY)
        for bad in (((-1, 1), (-1, 1)), (1, 2, 3), ((-1, 1, 2),) * 3, None):
            rec.raises('C11/reject', f.set_bounds, bad)
        return f, bounded

    @op('other field of the same problem')
    def _():
        f, g = fresh(kind), fresh(kind)
        f.set_bounds(ORDINARY)
        return g, free

    @op('operand of a product')
    def _():
        f = fresh(kind)
        g = 1. * f
        f.set_bounds(ORDINARY)
        return g, free

    @op('result of a product')
    def _():
        f = fresh(kind)
        g = 1. * f
        g.set_bounds(ORDINARY)
        return f, free

    @op('product of bounded')
    def _():
        f = fresh(kind)
        f.set_bounds(ORDINARY)
        return 1. * f, bounded

    @op('negation of bounded, twice')
    def _():
        f = fresh(kind)
        f.set_bounds(ORDINARY)
        return -(-f), bounded

    @op('product of bounded, then other bounds')
    def _():
        f = fresh(kind)
        f.set_bounds(ORDINARY)
        g = 1. * f
        g.set_bounds(BOXES['off'])
        equivalent(g, other, None, rec, 'C11/history', f'{kind}: product with other bounds')
        return f, bounded

    @op('sum of bounded')
    def _():
        f, g = 0.5 * fresh(kind), 0.5 * fresh(kind)
        f.set_bounds(ORDINARY)
        g.set_bounds(ORDINARY)
        return f + g, bounded

    @op('sum with different bounds')
    def _():
        f, g = fresh(kind), fresh(kind)
        f.set_bounds(ORDINARY)
        g.set_bounds(BOXES['off'])
        rec.raises('C11/sum', lambda: f + g)
        rec.raises('C11/sum', lambda: f + fresh(kind))
        rec.raises('C11/sum', lambda: fresh(kind) - f)
        return f, bounded

    for name, fun in ops.items():
        rec.state((kind, name))
        f, want = rec.call('C11/history', fun)
        equivalent(f, want, None, rec, 'C11/history', f'{kind}: {name}')
    # every sequence of setting bounds, up to three
    names = list(BOXES)
    for n in (1, 2, 3):
        for seq in itertools.product(names, repeat=n):
            f, g = fresh(kind), fresh(kind)
            for x in seq:
                f.set_bounds(BOXES[x])
            g.set_bounds(np.array(BOXES[seq[-1]], float))
            rec.state((kind, seq))
            p = [0.1, 0.05, 0.15]
            for p in ([0.1, 0.05, 0.15], [0.1, -0.2, 0.3], [0.1, 0.1, 0.02], [0.02, 0., -0.1]):
                rec.check(np.array_equal(values(f, p), values(g, p)), 'C11/sequence', lambda: f'{kind}: bounds {seq} at {p}')


def crossing(case, rec):
    """Straight up to the bounds, the force of the field inside, straight after."""
    kind = case['kind']
    for name, b in BOXES.items():
        f, free = fresh(kind), fresh(kind)
        f.set_bounds(b)
        a = np.array(b, float)
        c = np.array([0.04, -0.03, 0.02]) if name in ('centre', 'thin') else a.mean(axis=1) * 0.3 + 0.7 * np.clip([0.1, -0.15, 0.3], a[:, 0], a[:, 1])
        for d in [x for x in itertools.product((-1, 0, 1), repeat=3) if any(x)]:
            d = np.array(d) / np.linalg.norm(d)
            x0, v = c - 1.3 * d, 4000. * d
            box = [(x - 1.5, x + 1.5) for x in c]
            where = f'{kind} bounds {b}, electron from {x0.tolist()} with {v.tolist()} eV'
            rec.state((kind, name, tuple(d)))
            T, P = rec.call('C11/trace', lambda: f.get_tracer(box)(x0, v))
            rec.step()
            ins = np.array([inside(q, a) for q in P[:, :3]])
            margin = 0.02
            far = np.array([not inside(q, a + [-margin, margin]) for q in P[:, :3]])
            dv = np.linalg.norm(np.diff(P[:, 3:], axis=0), axis=1) / np.linalg.norm(P[0, 3:])
            out = far[:-1] & far[1:]
            rec.check(np.all(dv[out] < 1e-12), 'C11/crossing-outside', lambda: f'{where}: velocity changes between {P[:-1, :3][out][np.argmax(dv[out])]} and the next sample, outside of the bounds')
            deep = np.array([inside(q, a + [margin, -margin]) for q in P[:, :3]])
            # (not close to the elements)
            k = np.flatnonzero(deep[:-1] & deep[1:] & (np.hypot(P[:-1, 0], P[:-1, 1]) < 0.4))
            acc = ref.lorentz(free.electrostatic_field_at_point, free.magnetostatic_field_at_point)
            for i in k[::6]:
                h = T[i + 1] - T[i]
                F = [acc(P[j, :3], P[j, 3:]) for j in (i, i + 1)]
                mean = h * (F[0] + F[1]) / 2
                diff = np.linalg.norm(P[i + 1, 3:] - P[i, 3:] - mean)
                rec.check(diff <= 0.05 * np.linalg.norm(mean) + 1e-7 * np.linalg.norm(P[i, 3:]), 'C11/crossing-inside', lambda: f'{where}: inside of the bounds the velocity changes by {P[i + 1, 3:] - P[i, 3:]}, the field accounts for {mean}')
            rec.outcome((kind, name, tuple(np.round(P[-1, :3], 4))))
