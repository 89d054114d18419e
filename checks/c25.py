"""The focus is the point closest to all final rays: every bundle of up to four or five rays out of a pool, in every order, with any number of samples, speeds and
senses; moved, turned, mirrored and scaled bundles; bundles without a common point against an independent least-squares solution."""
import itertools, os
import numpy as np
import vlib

PROPERTY = 'C25'
RULE = ('State: (bundle of rays, order, presentation). Every subset of the pool of slopes of the stated sizes is executed, bundles of parallel rays excepted (there the focus '
        'is at infinity); non-trivial: at least two rays that are not parallel.')
CASE_TIMEOUT = 300


def setup(tier, seed):
    global t, DEEP
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    DEEP = tier != 'quick'


SLOPES = [(0., 0.), (.1, 0.), (-.1, 0.), (0., .1), (.02, -.07), (-.3, .2), (1., 1.), (1e-3, 0.), (0., -2e-3)]
FOCI = [(0., 0., 0.), (.3, -.2, 5.), (-1., 2., -40.), (0., 0., 1e-3)]
DISTANCES = [3., -2., .5, 10., -.01, 1.]


def cases(tier, seed):
    sizes = (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5, 6)
    out = [{'kind': k, 'n': n, 'first': i} for k in ('common', 'skew') for n in sizes for i in range(len(SLOPES))]
    return out + [{'kind': 'presentation'}, {'kind': 'single'}, {'kind': 'fine'}]


def run(case, rec):
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)
    rec.trace()


def ray(x, slope, samples=3, speed=1., sense=1):
    """A trajectory that ends in x with the given slope; its other samples lie elsewhere."""
    v = sense * speed * np.array([slope[0], slope[1], 1.])
    rows = [np.concatenate([x + np.array([k * k, -k, 3. * k]), [k, 1., -1. - k]]) for k in range(1, samples)]
    return np.array(rows[::-1] + [np.concatenate([x, v])])


def bundle(focus, slopes, dist, **kw):
    return [ray(np.array(focus) + d * np.array([s[0], s[1], 1.]), s, **kw) for s, d in zip(slopes, dist)]


def focus(b, rec, key='C25/focus'):
    before = [p.copy() for p in b] if isinstance(b, (list, tuple)) else None
    rec.step()
    r = rec.call(key, lambda: t.focus.focus_position(b))
    if before is not None:
        rec.check(all(np.array_equal(x, y) for x, y in zip(before, b)), 'C25/argument', 'focus_position changed the trajectories')
    return r


def best(b):
    """Least squares through the normal equations in centred coordinates: for a given z the best (x, y) is the mean."""
    X = np.array([p[-1] for p in b])
    a = X[:, 3:5] / X[:, 5:6]
    c = X[:, :2] - X[:, 2:3] * a               # at z = 0
    da, dc = a - a.mean(axis=0), c - c.mean(axis=0)
    z = -np.sum(da * dc) / np.sum(da * da)
    x = (c + z * a).mean(axis=0)
    return np.array([*x, z]), np.sum(da * da)


def close(got, want, scale, spread, tol=1e-12):
    """The error in z is amplified by the inverse of the spread of the slopes."""
    return got is not None and np.shape(got) == (3,) and np.all(np.abs(got - want) <= tol * scale * (1 + 1 / spread))


def run_common(n, first, rec):
    for rest in itertools.combinations([i for i in range(len(SLOPES)) if i > first], n - 1):
        sl = [SLOPES[i] for i in (first, *rest)]
        for fi, f in enumerate(FOCI):
            for k in range(len(DISTANCES)):
                b = bundle(f, sl, [DISTANCES[(k + 5 * i) % len(DISTANCES)] for i in range(n)])
                spread = np.sqrt(best(b)[1])
                rec.state(('common', first, rest, fi, k))
                got = focus(b, rec)
                rec.check(close(got, f, 50., min(spread, spread**2)), 'C25/focus', lambda: f'rays with slopes {sl} through {f}: focus {got}')
        b = bundle(FOCI[1], sl, DISTANCES)
        for order in itertools.islice(itertools.permutations(range(n)), 1, 24 if not DEEP else 120):
            rec.state(('common', first, rest, order))
            got = focus([b[i] for i in order], rec)
            rec.check(close(got, FOCI[1], 50., min(spread, spread**2)), 'C25/order', lambda: f'rays with slopes {[sl[i] for i in order]} through {FOCI[1]}: focus {got}')
        rec.outcome((first, rest))


def run_skew(n, first, rec):
    """No common point: the least-squares best, which moves with the bundle."""
    for rest in itertools.combinations([i for i in range(len(SLOPES)) if i > first], n - 1):
        sl = [SLOPES[i] for i in (first, *rest)]
        for k in range(4):
            x0 = [np.array([.1 * ((3 * i + k) % 4) - .15, .05 * ((5 * i + 2 * k) % 3), .7 * ((i + k) % 3)]) for i in range(n)]
            b = [ray(x, s, samples=1 + (i + k) % 3) for i, (x, s) in enumerate(zip(x0, sl))]
            want, sp = best(b)
            rec.state(('skew', first, rest, k))
            size = 1 + np.max(np.abs(want))
            cond = min(np.sqrt(sp), sp)
            got = focus(b, rec)
            if not rec.check(close(got, want, size, cond, 1e-11), 'C25/least-squares', lambda: f'final samples {[p[-1].tolist() for p in b]}: focus {got}, least-squares best {want}'):
                continue
            for order in list(itertools.permutations(range(n)))[1:6]:
                g = focus([b[i] for i in order], rec)
                rec.check(close(g, want, size, cond, 1e-11), 'C25/order', lambda: f'final samples {[b[i][-1].tolist() for i in order]}: focus {g}, in another order {want}')
            moves = {'shift': lambda x: (x + np.array([1., -2., 5.]), 1.), 'scale': lambda x: (1e-3 * x, 1.), 'large': lambda x: (100. * x, 1.)}
            for name, A, T, s in (('shift', np.eye(3), [1., -2., 5.], 1.), ('scale', np.eye(3), [0, 0, 0], 1e-3), ('large', np.eye(3), [0, 0, 0], 100.), ('mirror', np.diag([-1, 1, 1]), [0, 0, 0], 1.), ('back', np.diag([1, 1, -1]), [0, 0, 0], 1.),
                                  ('turn', np.array([[.6, -.8, 0], [.8, .6, 0], [0, 0, 1]]), [0, 0, 0], 1.), ('swap', np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.]]), [0, 0, 0], 1.)):
                c = [np.hstack([s * p[:, :3] @ A.T + T, p[:, 3:] @ A.T]) for p in b]
                rec.state(('skew', first, rest, k, name))
                g = focus(c, rec)
                rec.check(close(g, s * A @ want + T, size * s + np.max(np.abs(T)), cond, 1e-11), 'C25/moves', lambda: f'{name}: final samples {[p[-1].tolist() for p in c]}: focus {g}, expected {s * A @ want + T}')
            for name, kw in (('along', {}), ('speed', {}), ('sense', {}), ('samples', {})):
                c = []
                for i, p in enumerate(b):
                    q = p.copy()
                    if name == 'along':
                        q[-1, :3] += (i - 1.3) * q[-1, 3:] / q[-1, 5]
                    if name == 'speed':
                        q[:, 3:] *= (1e7, 3., 1e-3)[i % 3]
                    if name == 'sense':
                        q[-1, 3:] *= (-1) ** i
                    if name == 'samples':
                        q = q[-1:]
                    c.append(q)
                rec.state(('skew', first, rest, k, name))
                g = focus(c, rec)
                rec.check(close(g, want, size * 3, cond, 1e-11), 'C25/lines-only', lambda: f'{name}: final samples {[p[-1].tolist() for p in c]}: focus {g}, expected {want} as the lines are the same')
        rec.outcome((first, rest))


def run_presentation(rec):
    sl = [SLOPES[i] for i in (1, 3, 5)]
    for f, (m, kw) in itertools.product(FOCI, [(s, dict(samples=s, speed=v, sense=q)) for s in (1, 2, 7, 200) for v in (1., 1e7, 1e-4) for q in (1, -1)]):
        b = bundle(f, sl, DISTANCES, **kw)
        for name, p in (('list', b), ('tuple', tuple(b)), ('array', np.array(b)), ('generator', (x for x in b)), ('iterator', iter(b)), ('fortran', [np.asfortranarray(x) for x in b]), ('slice', [np.hstack([x, x])[:, :6] for x in b]), ('map', map(np.array, b))):
            rec.state(('presentation', f, str(kw), name))
            got = focus(p, rec, 'C25/presentation')
            rec.check(close(got, f, 50., .01), 'C25/presentation', lambda: f'{name} of {len(b)} rays through {f}, {kw}: focus {got}')
    for bad in (np.zeros((4, 5)), np.zeros(6), np.zeros((2, 7))):
        rec.state(('malformed', bad.shape))
        rec.raises('C25/malformed', lambda: t.focus.focus_position([np.ones((3, 6)), bad]))
    rec.outcome('presentation')


def run_single(rec):
    """One ray, or rays on the same line: a point on that line."""
    for f, s, d, copies in itertools.product(FOCI, SLOPES, DISTANCES, (1, 2, 3)):
        b = bundle(f, [s] * copies, [d + i for i in range(copies)])
        rec.state(('single', f, s, d, copies))
        got = focus(b, rec)
        dist = got[:2] - np.array(f[:2]) - (got[2] - f[2]) * np.array(s)
        rec.check(np.all(np.isfinite(got)) and np.all(np.abs(dist) <= 1e-9), 'C25/single', lambda: f'{copies} rays on one line through {f} with slope {s}: focus {got} is not on it')
    rec.outcome('single')


def run_fine(rec):
    """Beams with very small opening angles."""
    for f, a, tilt in itertools.product(FOCI, (1e-2, 1e-4, 1e-6), (0., .05)):
        sl = [(tilt + a * c, a * s) for c, s in ((1, 0), (-1, 0), (0, 1), (0, -1), (.5, .5))]
        b = bundle(f, sl, [2., 2., 3., 4., 5.])
        rec.state(('fine', f, a, tilt))
        got = focus(b, rec)
        rec.check(close(got, f, 50., a if not tilt else a, 1e-12), 'C25/fine', lambda: f'beam of opening angle {a}, tilt {tilt}, through {f}: focus {got}')
    rec.outcome('fine')
