"""Small problems shared by the checks, built from plain arrays through the public constructors."""
import numpy as np


def line_mesh(t, segs, higher=False, tris=None, outward=False):
    """segs: list of (name, (x0,z0), (x1,z1)); tris: list of (name, 3 x (x,z)). One element per entry, in the given order."""
    pts, lines, g, tri, gt = [], [], {}, [], {}
    for i, (name, a, b) in enumerate(segs):
        n = len(pts)
        a, b = np.array([a[0], 0., a[1]]), np.array([b[0], 0., b[1]])
        if higher:
            pts += [a, b, a + (b - a) / 3, a + 2 * (b - a) / 3]
            lines.append([n, n + 1, n + 2, n + 3])
        else:
            pts += [a, b]
            lines.append([n, n + 1])
        if name is not None:
            g.setdefault(name, []).append(i)
    for i, (name, p) in enumerate(tris or []):
        n = len(pts)
        pts += [np.array([q[0], 0., q[1]]) for q in p]
        tri.append([n, n + 1, n + 2])
        if name is not None:
            gt.setdefault(name, []).append(i)
    return t.mesher.Mesh(points=pts, lines=lines, triangles=tri, physical_to_lines={k: np.array(v) for k, v in g.items()},
                         physical_to_triangles={k: np.array(v) for k, v in gt.items()}, ensure_outward_normals=outward)


def tri_mesh(t, tris, outward=False):
    """tris: list of (name, 3x3)."""
    pts, tr, g = [], [], {}
    for i, (name, p) in enumerate(tris):
        n = len(pts)
        pts += [np.array(q, float) for q in p]
        tr.append([n, n + 1, n + 2])
        if name is not None:
            g.setdefault(name, []).append(i)
    return t.mesher.Mesh(points=pts, triangles=tr, physical_to_triangles={k: np.array(v) for k, v in g.items()},
                         ensure_outward_normals=outward)


def radial_segments(n):
    """n elements of a tube (r = 1) with a disk-like lid, alternating groups a and b; the last of many is a dielectric c."""
    out = []
    for i in range(n):
        name = 'ab'[i % 2] if not (n > 3 and i == n - 1) else 'c'
        if i % 3 != 2:
            out.append((name, (1. + 0.1 * i, 0.4 * i), (1. + 0.1 * i, 0.4 * i + 0.35)))
        else:
            out.append((name, (0.3, 0.4 * i), (0.8, 0.4 * i)))
    return out


COIL = [('coil', ((2., 0.), (2.5, 0.), (2., 0.5))), ('coil', ((2.5, 0.), (2.5, 0.5), (2., 0.5))), ('coil2', ((3., 1.), (3.5, 1.), (3.2, 1.4)))]


def triangles_3d(n):
    base = [((0, 0, 0), (1, 0, 0), (0, 1, 0.2)), ((1, 0, 0), (1, 1, 0.3), (0, 1, 0.2)), ((0, 0, 1.5), (1, 0, 1.6), (0, 1, 1.4)),
            ((1, 0, 1.6), (1, 1, 1.5), (0, 1, 1.4)), ((3, 0, 0), (3, 1, 0), (3, 0, 1)), ((-9, 0, 0), (-9, 1, 0), (-9.2, 0, 1)),
            ((0, 7, 0), (1, 7.2, 0), (0, 7, 1))]
    return [('ab'[i % 2] if not (n > 3 and i == n - 1) else 'c', base[i]) for i in range(n)]
