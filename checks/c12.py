"""Plane intersections: every sign/zero pattern of a trajectory relative to a plane, every orientation and scaling
of the normal, against a reference that walks the polyline."""
import itertools
import numpy as np
import vlib

PROPERTY = 'C12'
RULE = ('A case fixes plane, normal and trajectory length; inside, every assignment of signed distances from the alphabet '
        'to the samples is one trajectory (state). Non-trivial: trajectories that meet the plane.')


def setup(tier, seed):
    global T, t
    t = vlib.import_traceon(vlib.build_backend())
    vlib.silence(t)
    T = t.tracing


NORMALS = {'x': (1., 0., 0.), 'y': (0., 1., 0.), 'z': (0., 0., 1.), 'xyz': (1., 2., -2.), 'xz': (0.25, 0., -3.), 'yz': (0., -1.5, 0.5)}
LONG = 40


def cases(tier, seed):
    out = []
    nmax = 5 if tier == 'quick' else 6
    for n in range(1, nmax + 1):
        for name in NORMALS:
            for off in (0, 1):
                for first in range(4 if n > 1 else 1):
                    out.append(dict(kind='patterns', n=n, normal=name, off=off, first=first))
    for name in NORMALS:
        out.append(dict(kind='long', normal=name))
    out.append(dict(kind='reject'))
    return out


AXIS = ('x', 'y', 'z')
P0 = ((0., 0., 0.), (0.5, -1.25, 2.0))
ALPHA_ZERO = (-2., -0.5, 0., 1.)
ALPHA = (-2., -0.5, 0.75, 1.)


def build(dist, name, p0):
    n = np.array(NORMALS[name])
    nn = n / np.linalg.norm(n)
    # two directions in the plane
    a = np.cross(nn, (0., 0., 1.)) if abs(nn[2]) < 0.9 else np.cross(nn, (1., 0., 0.))
    a = a / np.linalg.norm(a)
    b = np.cross(nn, a)
    pos = np.zeros((len(dist), 6))
    for i, d in enumerate(dist):
        if name in AXIS:
            lateral = np.array([0.5 * i, 0.25 * i * i, -0.75 * i + 0.125])
            lateral['xyz'.index(name)] = 0.
            pos[i, :3] = np.array(p0) + d * n + lateral
        else:
            pos[i, :3] = np.array(p0) + d * nn + 0.5 * i * a + 0.25 * i * i * b
        pos[i, 3:] = (1. + i, -2. * i, 0.5 * i * i - 3.)
    return pos


def expected(dist, pos):
    """Segments that meet the plane: list of acceptable points for the last one, or None."""
    for i in range(len(dist) - 2, -1, -1):
        d0, d1 = dist[i], dist[i + 1]
        if d0 * d1 < 0 or d0 == 0 or d1 == 0:
            if d0 == 0 and d1 == 0:
                return 'inplane', pos[i], pos[i + 1]
            s = d0 / (d0 - d1)
            return 'point', pos[i] + s * (pos[i + 1] - pos[i]), None
    return None


def on(call, key, rec, want, where):
    rec.step()
    try:
        got = call()
    except ValueError:
        got = None
    if want is None:
        rec.check(got is None, key + '/found-nothing-to-find', lambda: f'{where}: returned {got} although the trajectory does not meet the plane')
        return None
    if not rec.check(got is not None, key + '/not-found', lambda: f'{where}: the trajectory meets the plane at {want[1]} but none was found'):
        return None
    got = np.asarray(got, dtype=float)
    if not rec.check(got.shape == (6,) and np.all(np.isfinite(got)), key + '/shape', lambda: f'{where}: {got}'):
        return None
    if want[0] == 'point':
        rec.check(np.allclose(got, want[1], rtol=1e-9, atol=1e-9), key + '/wrong-point', lambda: f'{where}: got {got}, expected {want[1]}')
    else:
        a, b = want[1], want[2]
        s = np.dot(got - a, b - a) / np.dot(b - a, b - a)
        ok = -1e-9 <= s <= 1 + 1e-9 and np.allclose(got, a + s * (b - a), atol=1e-9)
        rec.check(ok, key + '/wrong-point', lambda: f'{where}: got {got}, expected a point of the segment {a}..{b} lying in the plane')
    return got


def run(case, rec):
    if case['kind'] == 'reject':
        return run_reject(rec)
    name = case['normal']
    n = np.array(NORMALS[name])
    if case['kind'] == 'long':
        # one crossing (or touch) at every possible place of a long trajectory
        for k in range(LONG - 1):
            for s in (1., -1.):
                dist = [s] * (k + 1) + [-s * 0.5] * (LONG - k - 1)
                judge(dist, name, n, P0[1], rec)
                if k:
                    dist2 = list(dist)
                    dist2[0] = -s  # an earlier crossing as well: the later one counts
                    judge(dist2, name, n, P0[1], rec)
        return
    alpha = ALPHA_ZERO if name in AXIS else ALPHA
    N = case['n']
    p0 = P0[case['off']]
    if N == 1:
        pos = build([1.], name, p0)
        rec.state((name, 'single'))
        rec.raises('C12/single-sample', T.plane_intersection, pos, np.array(p0), n)
        return
    for rest in itertools.product(alpha, repeat=N - 1):
        dist = [alpha[case['first']]] + list(rest)
        judge(dist, name, n, p0, rec)


def judge(dist, name, n, p0, rec):
    pos = build(dist, name, p0)
    before = pos.copy()
    want = expected(dist, pos)
    rec.state((name, p0, tuple(dist)))
    p0a = np.array(p0)
    kind = 'zero' if 0. in dist else 'generic'
    for scale in (1., -1., 1e-3, -250.):
        on(lambda: T.plane_intersection(pos, p0a, scale * n), f'C12/{kind}', rec, want, f'distances {dist} to plane {name}, normal x {scale}')
    # another point of the same plane describes the same plane
    if name in AXIS:
        sh = np.array([4., -8., 16.])
        sh['xyz'.index(name)] = 0.
        on(lambda: T.plane_intersection(pos, p0a + sh, n), f'C12/{kind}', rec, want, f'distances {dist} to plane {name}, other base point')
        f = {'x': T.yz_plane_intersection, 'y': T.xz_plane_intersection, 'z': T.xy_plane_intersection}[name]
        c = p0['xyz'.index(name)]
        on(lambda: f(pos, c), f'C12/{kind}', rec, want, f'distances {dist} to axis plane {name}')
        # trajectories are often slices of larger arrays
        big = np.zeros((2 * len(pos), 6))
        big[::2] = pos
        on(lambda: T.plane_intersection(big[::2], p0a, n), f'C12/{kind}', rec, want, f'distances {dist}, strided trajectory')
        if name == 'x' and p0 == (0., 0., 0.) and want is not None and want[0] == 'point':
            z = T.axis_intersection(pos)
            rec.check(np.isclose(z, want[1][2], atol=1e-9), 'C12/axis', lambda: f'{dist}: axis_intersection {z}, expected {want[1][2]}')
    rec.check(np.array_equal(before, pos), 'C12/modified', 'the trajectory was modified')
    rec.outcome('none' if want is None else want[0])
    rec.trace()


def run_reject(rec):
    pos = build([1., -1.], 'z', P0[0])
    n, p = np.array([0., 0., 1.]), np.zeros(3)
    rec.state('reject')
    rec.step(4)
    rec.raises('C12/no-velocity', T.plane_intersection, pos[:, :3], p, n)
    rec.raises('C12/empty', T.plane_intersection, np.zeros((0, 6)), p, n)
    rec.raises('C12/flat', T.plane_intersection, pos[0], p, n)
    rec.raises('C12/2d-normal', T.plane_intersection, pos, p, n[:2])
