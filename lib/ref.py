"""Independent reference kernels (scipy elliptic integrals, closed-form triangle integrals, graded Gauss quadrature) and an integrator."""
import numpy as np
from numpy.polynomial.legendre import leggauss
from scipy.special import ellipkm1, ellipe, ellipk

E_CHARGE, M_E = 1.602176634e-19, 9.1093837015e-31
EM = -E_CHARGE / M_E
MU_0 = 1.25663706212e-06


# ---- rings. Normalisation: surface charge in units of eps0, i.e. potential of a charge q is q/(4 pi d)

def ring_pot(r0, z0, r, z):
    """Potential at (r0, z0) of a ring of radius r with unit charge per length of its cross-section curve (times r)."""
    r0, z0, r, z = np.broadcast_arrays(*map(np.float64, (r0, z0, r, z)))
    d2 = (r + r0)**2 + (z - z0)**2
    p = ((r - r0)**2 + (z - z0)**2) / d2
    return ellipkm1(p) * r / (np.pi * np.sqrt(d2))


def ring_E(r0, z0, r, z):
    r0, z0, r, z = np.broadcast_arrays(*map(np.float64, (r0, z0, r, z)))
    a2 = (r + r0)**2 + (z - z0)**2
    b2 = (r - r0)**2 + (z - z0)**2
    m = np.clip(4 * r * r0 / a2, 0, 1)
    K, Ee = ellipkm1(b2 / a2), ellipe(m)
    Ez = (z0 - z) * r * Ee / (np.pi * np.sqrt(a2) * b2)
    with np.errstate(all='ignore'):
        Er = r / (np.pi * 2 * r0 * np.sqrt(a2)) * (K - (r * r - r0 * r0 + (z - z0)**2) / b2 * Ee)
        # close to the axis: E_r = (r0/2) * (-dE_z/dz) + ..., the closed form cancels
        d2 = r * r + (z - z0)**2
        h = z0 - z
        # potential of the ring on the axis: r/(2 sqrt(d2)); E_r = (r0/2) phi'' - (r0^3/16) phi''''
        phi2 = r / 2 * (3 * h * h / d2**2.5 - 1 / d2**1.5)
        phi4 = r / 2 * (105 * h**4 / d2**4.5 - 90 * h * h / d2**3.5 + 9 / d2**2.5)
        phi6 = r / 2 * (10395 * h**6 / d2**6.5 - 14175 * h**4 / d2**5.5 + 4725 * h * h / d2**4.5 - 225 / d2**3.5)
    small = r0 < 2e-3 * np.sqrt(d2)
    return np.where(small, r0 / 2 * phi2 - r0**3 / 16 * phi4 + r0**5 / 384 * phi6, Er), Ez


def loop_H(r0, z0, a, z):
    """(H_r, H_z) at (r0, z0) of a loop of radius a at height z with unit current."""
    r0, z0, a, z = np.broadcast_arrays(*map(np.float64, (r0, z0, a, z)))
    h = z0 - z
    A2, B2 = (a + r0)**2 + h * h, (a - r0)**2 + h * h
    m = np.clip(4 * a * r0 / A2, 0, 1)
    K, Ee = ellipkm1(B2 / A2), ellipe(m)
    Hz = (K + (a * a - r0 * r0 - h * h) / B2 * Ee) / (2 * np.pi * np.sqrt(A2))
    with np.errstate(all='ignore'):
        Hr = h / (2 * np.pi * r0 * np.sqrt(A2)) * (-K + (a * a + r0 * r0 + h * h) / B2 * Ee)
        d2 = a * a + h * h
        # H_z on the axis: a^2 / (2 d2^1.5); H_r = -(r0/2) Hz' + (r0^3/16) Hz'''
        H1 = a * a / 2 * (-3 * h / d2**2.5)
        H3 = a * a / 2 * (45 * h / d2**3.5 - 105 * h**3 / d2**4.5)
    small = r0 < 1e-3 * np.sqrt(d2)
    return np.where(small, -r0 / 2 * H1 + r0**3 / 16 * H3, Hr), Hz


# ---- line elements with four nodes (order of the mesh: end, end, 1/3, 2/3)

_GX, _GW = leggauss(24)


def _graded(alpha0, levels=36):
    """Gauss nodes and weights on [-1, 1], graded towards alpha0."""
    xs, ws = [], []
    for end in (-1., 1.):
        L = end - alpha0
        if abs(L) < 1e-14:
            continue
        edges = [0.] + [2.**-k for k in range(levels, -1, -1)]
        for u, v in zip(edges[:-1], edges[1:]):
            a, b = alpha0 + L * u, alpha0 + L * v
            xs.append((a + b) / 2 + (b - a) / 2 * _GX)
            ws.append(abs(b - a) / 2 * _GW)
    return np.concatenate(xs), np.concatenate(ws)


def shape4(a):
    """Lagrange polynomials of the nodes -1, 1, -1/3, 1/3 (mesh order) and their derivatives."""
    nodes = [-1., 1., -1 / 3., 1 / 3.]
    N, D = [], []
    for i in range(4):
        o = [nodes[j] for j in range(4) if j != i]
        c = np.poly(o) / np.prod([nodes[i] - x for x in o])
        N.append(np.polyval(c, a))
        D.append(np.polyval(np.polyder(c), a))
    return np.array(N), np.array(D)


def line4(el, a):
    """Positions (r, z) and derivative with respect to alpha of the curve of a line element (2 or 4 nodes, 3 coordinates)."""
    el = np.asarray(el, float)
    if len(el) == 2:
        el = np.array([el[0], el[1], el[0] + (el[1] - el[0]) / 3, el[0] + 2 * (el[1] - el[0]) / 3])
    N, D = shape4(np.asarray(a, float))
    P, T = np.tensordot(N.T, el, 1), np.tensordot(D.T, el, 1)
    return P[..., [0, 2]], T[..., [0, 2]]


def line_normal(el, a=0.):
    _, T = line4(el, a)
    n = np.array([T[..., 1], -T[..., 0]])
    return n / np.linalg.norm(n)


def _nearest(el, p):
    a = np.linspace(-1, 1, 81)
    P, _ = line4(el, a)
    for _ in range(40):
        i = np.argmin(np.sum((P - p)**2, axis=1))
        lo, hi = a[max(i - 1, 0)], a[min(i + 1, len(a) - 1)]
        a = np.linspace(lo, hi, 9)
        P, _ = line4(el, a)
        if hi - lo < 1e-15:
            break
    return float(a[np.argmin(np.sum((P - p)**2, axis=1))])


def line_nodes(el, p, alpha0=None):
    a, w = _graded(_nearest(el, np.asarray(p)) if alpha0 is None else alpha0)
    P, T = line4(el, a)
    return P[:, 0], P[:, 1], w * np.linalg.norm(T, axis=1)


def line_pot(el, p, alpha0=None):
    """Potential at p = (r, z) of a ring-shaped element with unit surface charge."""
    r, z, w = line_nodes(el, p, alpha0)
    return float(np.sum(w * ring_pot(p[0], p[1], r, z)))


def line_E(el, p, alpha0=None, normal=None):
    """Field at p; with a normal, only its component along it, for p on the element this is the principal value (average of both sides)."""
    r, z, w = line_nodes(el, p, alpha0)
    if normal is not None:
        Er, Ez = ring_E(p[0], p[1], r, z)
        f = normal[0] * Er + normal[1] * Ez
        if alpha0 is not None:
            # pairs at equal distance in alpha left and right of alpha0 cancel their odd parts: far from rounding only
            d2 = (r - p[0])**2 + (z - p[1])**2
            f = np.where(d2 < 1e-16, 0., f)
        return float(np.sum(w * f))
    Er, Ez = ring_E(p[0], p[1], r, z)
    return np.array([np.sum(w * Er), np.sum(w * Ez)])


def line_area(el):
    a, w = _graded(0., 3)
    P, T = line4(el, a)
    return float(np.sum(w * np.linalg.norm(T, axis=1) * 2 * np.pi * P[:, 0]))


# ---- triangles

def _tri(v):
    v = np.asarray(v, float)
    n = np.cross(v[1] - v[0], v[2] - v[0])
    A = np.linalg.norm(n)
    return v, n / A, A / 2


def tri_pot_E(v, p):
    """Potential and field at p of a flat triangle with unit surface charge (in a plane of the triangle the average of both sides)."""
    v, n, A = _tri(v)
    p = np.asarray(p, float)
    d = float(np.dot(p - v[0], n))
    scale = np.sqrt(A)
    if abs(d) < 1e-13 * scale:
        d = 0.
    rho = p - d * n
    pot, E, beta = 0., np.zeros(3), 0.
    for i in range(3):
        a, b = v[i], v[(i + 1) % 3]
        s = (b - a) / np.linalg.norm(b - a)
        u = np.cross(s, n)
        lp, lm = np.dot(b - rho, s), np.dot(a - rho, s)
        P0 = np.dot(a - rho, u)
        R0sq = P0 * P0 + d * d
        Rp, Rm = np.sqrt(R0sq + lp * lp), np.sqrt(R0sq + lm * lm)
        if R0sq < (1e-13 * scale)**2:
            if lm * lp > 0:
                f = np.log(lp / lm) * np.sign(lp)
            else:
                f = np.inf   # on the edge itself: only the potential (P0 * f -> 0) is finite
        else:
            # log((Rp + lp)/(Rm + lm)) without cancellation
            f = np.arcsinh(lp / np.sqrt(R0sq)) - np.arcsinh(lm / np.sqrt(R0sq))
        if np.isfinite(f):
            pot += P0 * f
            E += u * f
        else:
            E += np.nan
        if d != 0.:
            bt = np.arctan2(P0 * lp, R0sq + abs(d) * Rp) - np.arctan2(P0 * lm, R0sq + abs(d) * Rm)
            pot -= abs(d) * bt
            beta += bt
    E = E + n * np.sign(d) * beta
    return pot / (4 * np.pi), E / (4 * np.pi)


def tri_pot(v, p):
    return tri_pot_E(v, p)[0]


def tri_E(v, p):
    return tri_pot_E(v, p)[1]


def tri_normal(v):
    return _tri(v)[1]


def tri_area(v):
    return _tri(v)[2]


def tri_nodes(v, n=16):
    """Points and weights of a product rule on a triangle (sum of weights: area)."""
    x, w = leggauss(n)
    x, w = (x + 1) / 2, w / 2
    U, V = np.meshgrid(x, x, indexing='ij')
    W = np.outer(w, w) * (1 - U)
    v = np.asarray(v, float)
    A2 = 2 * tri_area(v)
    b1, b2 = U, V * (1 - U)
    P = v[0] + b1[..., None] * (v[1] - v[0]) + b2[..., None] * (v[2] - v[0])
    return P.reshape(-1, 3), (W * A2).ravel()


def coil_H(tris, density, p, n=16):
    """H at p (3 coordinates) of rings with cross-section tris (list of 3x3 in the xz plane) and current density."""
    r0 = np.hypot(p[0], p[1])
    Hr = Hz = 0.
    for v in tris:
        P, w = tri_nodes(v, n)
        a, b = loop_H(r0, p[2], P[:, 0], P[:, 2])
        Hr += density * np.sum(w * a)
        Hz += density * np.sum(w * b)
    if r0 == 0.:
        return np.array([0., 0., Hz])
    return np.array([p[0] / r0 * Hr, p[1] / r0 * Hr, Hz])


# ---- motion

def integrate(accel, x, v, T, rtol=1e-11):
    """Position and velocity after time T under the acceleration accel(x, v)."""
    from scipy.integrate import solve_ivp
    x, v = np.asarray(x, float), np.asarray(v, float)
    L = np.linalg.norm(v)
    r = solve_ivp(lambda s, y: np.concatenate([y[3:] , accel(y[:3], y[3:] * L) / L**2]), (0, T * L), np.concatenate([x, v / L]), method='DOP853', rtol=rtol, atol=1e-13)
    return np.concatenate([r.y[:3, -1], r.y[3:, -1] * L])


def lorentz(E, H):
    return lambda x, v: EM * (np.asarray(E(x)) + MU_0 * np.cross(v, np.asarray(H(x))))
