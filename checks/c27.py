"""Results depend on the arguments only and no operation changes its inputs: sequences of operations over a pool of shared objects, every result compared with the one of the same operation in
a fresh process, every object, array, default argument and global setting compared with what it was before."""
import inspect, itertools, os, pickle, sys, tempfile
import numpy as np
import vlib, problems as pr

PROPERTY = 'C27'
RULE = ('State: (sequence of operations, last operation) with all pairs of the alphabet in every order, all triples of a reduced alphabet, on a pool of shared objects that is never reset within a case, plus states of '
        'the pool and of the package reached (exactly one if the property holds).')
CASE_TIMEOUT = 240


def setup(tier, seed):
    global t, DEEP, REF
    os.environ['TRACEON_THREADS'] = '1'
    t = vlib.import_traceon(vlib.build_backend())
    import traceon.interpolation, traceon.tracing, traceon.focus
    vlib.silence(t)
    adversarial_id()
    DEEP = tier != 'quick'
    REF = references()


def adversarial_id():
    """Python promises that id() is unique among the objects that exist, not that the id of an object that ended is not used again: in the modules of the package the id of a new object
    is the smallest one that is free, such that it is used again as soon as this is allowed."""
    import heapq, weakref
    of, free, last = {}, [], [0]

    def smallest(x):
        real = id(x)
        if real in of and of[real][0]() is x:
            return of[real][1]
        n = heapq.heappop(free) if free else last[0] + 16
        last[0] = max(last[0], n)

        def ended(ref, real=real, n=n):
            if real in of and of[real][1] == n:
                del of[real]
            heapq.heappush(free, n)
        try:
            of[real] = (weakref.ref(x, ended), n)
        except TypeError:
            heapq.heappush(free, n)
            return real
        return n
    for name, mod in list(sys.modules.items()):
        if name == 'traceon' or name.startswith('traceon.'):
            mod.id = smallest


# ---- what is compared
def canon(x, depth=0):
    """A value: nested tuples of strings, numbers and arrays."""
    G, S, M, E = t.geometry, t.solver, t.mesher, t.excitation
    if x is None or isinstance(x, (str, bool, int, bytes)):
        return ('atom', type(x).__name__ if not isinstance(x, (bool, int)) else 'int', x)
    if isinstance(x, (float, np.floating)):
        return ('array', np.array(float(x)))
    if isinstance(x, np.integer):
        return ('atom', 'int', int(x))
    if isinstance(x, np.ndarray):
        return ('array', np.array(x, dtype=float) if x.dtype.kind in 'fiub' else x.astype(str))
    if isinstance(x, M.Mesh):
        return ('mesh', canon(x.points), canon(x.lines), canon(x.triangles), canon(x.physical_to_lines), canon(x.physical_to_triangles))
    if isinstance(x, G.Path):
        return ('path', canon(x.path_length), canon(np.array(sorted(x.breakpoints), float)), canon(x.name), canon(np.array([x(u * x.path_length) for u in (0., .13, .5, .77, 1.)])))
    if isinstance(x, G.Surface):
        return ('surface', canon(x.name), canon(np.array([x.path_length1, x.path_length2])), canon(np.array(sorted(x.breakpoints1), float)), canon(np.array(sorted(x.breakpoints2), float)),
                canon(np.array([x(u * x.path_length1, v * x.path_length2) for u in (0., .3, 1.) for v in (.1, .6, 1.)])))
    if isinstance(x, G.PathCollection):
        return ('paths', tuple(canon(p) for p in x.paths))
    if isinstance(x, G.SurfaceCollection):
        return ('surfaces', tuple(canon(p) for p in x.surfaces))
    if isinstance(x, E.Excitation):
        return ('excitation', str(x.symmetry), canon({k: (str(a), b if not callable(b) else b(.3, .2, .1)) for k, (a, b) in x.excitation_types.items()}), canon(x.mesh))
    if isinstance(x, S.FieldBEM):
        return ('field', type(x).__name__, *(canon(np.asarray(y)) for c in (x.electrostatic_point_charges, x.magnetostatic_point_charges, x.current_point_charges) for y in (c.charges, c.jacobians, c.positions)), canon(x.field_bounds))
    if isinstance(x, t.interpolation.FieldAxial):
        return ('axial', canon(x.z), canon(x.electrostatic_coeffs), canon(x.magnetostatic_coeffs))
    if isinstance(x, dict):
        return ('dict', tuple((str(k), canon(x[k])) for k in sorted(x, key=str)))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(canon(y) for y in x))
    if type(x).__module__.startswith('traceon') and hasattr(x, '__dict__'):
        return ('object', type(x).__name__, canon({k: v for k, v in vars(x).items() if not callable(v)}))
    return ('other', type(x).__name__)


def differ(a, b, rtol=1e-9, path=''):
    """None or where two canonical values differ."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{path}: shape {a.shape} instead of {b.shape}'
        if a.dtype.kind != 'f':
            return None if np.array_equal(a, b) else f'{path}: {a} instead of {b}'
        if a.size == 0:
            return None
        with np.errstate(all='ignore'):
            ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.nanmax(np.abs(np.where(np.isfinite(b), b, 0.))))
        if np.all(ok):
            return None
        k = np.argmin(ok)
        return f'{path}: {a.flat[k]!r} instead of {b.flat[k]!r}'
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f'{path}: {len(a)} parts instead of {len(b)}'
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, f'{path}/{a[0] if k and isinstance(a[0], str) else k}{k}')
            if d:
                return d
        return None
    if isinstance(a, (tuple, np.ndarray)) or isinstance(b, (tuple, np.ndarray)):
        return f'{path}: {type(a).__name__} instead of {type(b).__name__}'
    return None if type(a) == type(b) and a == b else f'{path}: {repr(a)[:100]} instead of {repr(b)[:100]}'


def digest(c):
    """Exact fingerprint of a canonical value."""
    out = []

    def walk(x):
        if isinstance(x, np.ndarray):
            out.append((x.shape, x.tobytes()))
        elif isinstance(x, tuple):
            out.append('(')
            for y in x:
                walk(y)
        else:
            out.append(x)
    walk(c)
    return hash(tuple(out))


# ---- the pool of shared objects
def fun(x, y, z):
    return 1. + x - .3 * z


def make_pool():
    G, S, M, E, T, I = t.geometry, t.solver, t.mesher, t.excitation, t.tracing, t.interpolation
    P = {}
    P['v'] = np.array([.1, .2, .3])
    P['pts'] = np.array([[1., 0., 0.], [1.2, 0., 1.], [1., 0., 2.], [1.5, 0., 2.5]])
    P['bounds'] = np.array([[-.5, .5], [-.5, .5], [-3., 3.]])
    P['bounds2'] = [[-.4, .4], [-.4, .4], [-2., 2.]]
    P['z'] = np.linspace(-2., 2., 9)
    P['z2'] = np.linspace(-1., 1., 9)
    P['origin'] = np.array([1., 0., -1.])
    P['name_list'] = ['a', 'b']
    for k, s in (('p', 1.), ('q', 1.3)):
        P[k] = G.Path.line([s, 0., -1.], [s, 0., -.2]).line_to([s + .5, 0., -.2])
        P[k].name = 'ab'[k == 'q']
    P['r'] = G.Path.line(P['q'].endpoint(), P['q'].endpoint() + np.array([.2, 0., .4]))
    P['ring'] = G.Path.circle_xz(3., 0., .5)
    P['ring'].name = 'ring'
    P['curve'] = G.Path.arc([1., 0., 1.], [1., 0., 1.5], [1.5, 0., 1.])
    P['c'] = P['p'] + P['q']
    P['s'] = G.Surface.rectangle_xy(-1., 1., -1., 1.)
    P['s'].name = 'low'
    P['s2'] = G.Surface.disk_xy(0., 0., .8).move(dz=1.)
    P['s2'].name = 'high'
    P['sc'] = P['s'] + P['s2']
    segs = [('a', (1., -1.), (1., -.6)), ('a', (1., -.6), (1., -.2)), ('b', (1., .2), (1.2, 1.)), ('c', (1.5, 0.), (2., 0.)), ('c', (2., 0.), (1.8, .4)), ('c', (1.8, .4), (1.5, 0.)), (None, (3., 0.), (3., 1.))]
    P['m'] = pr.line_mesh(t, segs, False, pr.COIL)
    P['m4'] = pr.line_mesh(t, segs, True, pr.COIL, outward=True)
    P['mb'] = pr.line_mesh(t, [(n, (b[0] + .1, b[1]), (a[0] + .1, a[1])) for n, a, b in segs])
    P['m3'] = pr.tri_mesh(t, pr.triangles_3d(4))
    P['e'] = E.Excitation(P['m'], E.Symmetry.RADIAL)
    P['e'].add_voltage(a=3., b=-1.)
    P['e'].add_dielectric(c=4.)
    P['e4'] = E.Excitation(P['m4'], E.Symmetry.RADIAL)
    P['e4'].add_voltage(a=fun, b=2.)
    P['em'] = E.Excitation(P['m'], E.Symmetry.RADIAL)
    P['em'].add_magnetostatic_potential(a=2.)
    P['em'].add_magnetizable(b=50., c=.1)
    P['em'].add_current(coil=3.)
    P['both'] = E.Excitation(P['mb'], E.Symmetry.RADIAL)
    P['both'].add_voltage(a=3.)
    P['both'].add_magnetostatic_potential(b=2.)
    P['e3'] = E.Excitation(P['m3'], E.Symmetry.THREE_D)
    P['e3'].add_voltage(a=3., b=-1.)
    P['f'], P['f4'], P['fm'], P['f3'] = (S.solve_direct(P[k]) for k in ('e', 'e4', 'em', 'e3'))
    P['fa'], P['fa2'] = I.FieldRadialAxial(P['f'], -2., 2., 30), I.FieldRadialAxial(P['fm'], -2., 2., 30)
    P['traj'] = np.array([[.1 * k, .05 * k, 1. - .1 * k, 1., .5, -1.] for k in range(20)])
    P['trajs'] = [P['traj'] + np.array([d, 0., 0., .01 * d, 0., 0.]) for d in (-.1, .1)]
    P['vel'] = T.velocity_vec(100., [0., .1, -1.])
    P['pos'] = np.array([.05, .02, 1.5])
    P['tracer'] = P['f'].get_tracer(P['bounds'])
    P['empty'] = M.Mesh()
    return P


def scratch_file(ext):
    fd, name = tempfile.mkstemp(suffix=ext)
    os.close(fd)
    return name


def through_file(x, cls):
    f = scratch_file('.vtk')
    x.write(f)
    y = cls.read(f)
    os.unlink(f)
    return y


def through_mesh_file(m):
    f = scratch_file('.vtk')
    m.write_file(f)
    y = t.mesher.Mesh.read_file(f)
    os.unlink(f)
    return y


def with_boundary(m, name, kind='electrostatic'):
    """Mark a boundary of a mesh that was derived from a shared one."""
    e = t.excitation.Excitation(m, t.excitation.Symmetry.RADIAL if not (len(m.triangles) and not len(m.lines)) else t.excitation.Symmetry.THREE_D)
    (e.add_electrostatic_boundary if kind == 'electrostatic' else e.add_magnetostatic_boundary)(name)
    return e


def more(e, **kw):
    """Another excitation of the same mesh."""
    n = t.excitation.Excitation(e.mesh, e.symmetry)
    n.add_voltage(**kw)
    return n


def iadd(a, b):
    a += b
    return a


def bounded(f, b):
    g = 1. * f
    g.set_bounds(b)
    return g


def sample(f, three=False):
    P = [np.array(p) for p in ((.1, 0., .2), (.2, -.3, .7), (0., 0., -.5), (4., 1., 2.))]
    return [np.array([f.potential_at_point(p) if not (f.is_electrostatic() and f.is_magnetostatic()) else 0. for p in P]), np.array([f.electrostatic_field_at_point(p) for p in P]), np.array([f.magnetostatic_field_at_point(p) for p in P])]


def rename(x, n):
    x = x.move(dx=0.)
    x.name = n
    return x


def overwritten(make, use, *arrays):
    """The arrays handed in are reused by the caller afterwards."""
    arrays = [np.array(a, float) for a in arrays]
    x = make(*arrays)
    for a in arrays:
        a[:] = -7.5
    return use(x)


VALUES = (2., -3., .5, 7., -1.2)
TEMPORARY = {
    'temporary.interpolate': lambda P, v: t.interpolation.FieldRadialAxial(v * P['f'], -2., 2., 30),
    'temporary.interpolate-mag': lambda P, v: t.interpolation.FieldRadialAxial(v * P['fm'], -2., 2., 12),
    'temporary.trace': lambda P, v: (v * P['f']).get_tracer(P['bounds'])(P['pos'], P['vel']),
    'temporary.trace-axial': lambda P, v: (v * P['fa']).get_tracer(P['bounds'])(P['pos'], P['vel']),
    'temporary.trace-3d': lambda P, v: (v * P['f3']).get_tracer(P['bounds'])(P['pos'], P['vel']),
    'temporary.solve': lambda P, v: t.solver.solve_direct(more(t.excitation.Excitation(P['m'].move(dz=v), t.excitation.Symmetry.RADIAL), a=2., b=v)),
    'temporary.superposition': lambda P, v: t.solver.solve_direct_superposition(more(t.excitation.Excitation(P['m'].map_points(lambda p: abs(v) * p), t.excitation.Symmetry.RADIAL), a=2., b=v)),
    'temporary.sample': lambda P, v: [sample(P['f'] + v * P['f4']), sample(v * P['fa']), sample(v * P['f3']), sample(v * P['fm'])],
    'temporary.derivs': lambda P, v: [(v * P['fm']).get_magnetostatic_axial_potential_derivatives(P['z']), (v * P['f']).get_electrostatic_axial_potential_derivatives(abs(v) * P['z'])],
    'temporary.path': lambda P, v: t.geometry.Path.line([v, 0., 0.], [1., 0., v]).line_to([3., 0., 0.]).mesh(mesh_size=.3),
    'temporary.surface': lambda P, v: P['p'].extrude([0., v, .1]).mesh(mesh_size=.7),
    'temporary.mesh': lambda P, v: [P['m'].move(dz=v) + P['mb'], P['m3'].rotate(Rx=v).flip_normals(), P['m'].move(dx=abs(v)).extract_physical_group('c')],
    'temporary.intersect': lambda P, v: [t.tracing.plane_intersection(P['traj'] * 1., P['traj'][7, :3] + .001 * v, np.array([1., .1 * v, -1.])), t.focus.focus_position([x + .01 * v for x in P['trajs']])]}


def de_bruijn(k, n):
    """A sequence over range(k) that contains every word of length n."""
    a, out = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def _ops():
    G, S, M, E, T, I, F = t.geometry, t.solver, t.mesher, t.excitation, t.tracing, t.interpolation, t.focus
    D = lambda P: np.array([0., 0., -1.])
    return {
        # paths
        'path.mesh': lambda P: P['p'].mesh(mesh_size=.2),
        'path.mesh-other': lambda P: P['q'].mesh(mesh_size=.2, name='other'),
        'path.mesh-higher': lambda P: P['p'].mesh(mesh_size_factor=3, higher_order=True),
        'path.line': lambda P: G.Path.line(P['v'], P['origin']),
        'path.line_to': lambda P: P['p'].line_to([2., 0., 3.]),
        'path.line_to-array': lambda P: P['p'].line_to(P['origin']),
        'path.arc_to': lambda P: P['p'].arc_to([P['p'].endpoint()[0], 0., 0.3], [P['p'].endpoint()[0] + .5, 0., .3]),
        'path.join': lambda P: P['q'] >> P['r'],
        'path.close': lambda P: P['p'].close(),
        'path.cut': lambda P: list(P['p'].cut(.9)),
        'path.phase': lambda P: P['ring'].add_phase(.7),
        'path.phase-2': lambda P: P['ring'].add_phase(1.2).add_phase(.3),
        'path.move': lambda P: P['p'].move(dx=.2, dz=-1.),
        'path.rotate': lambda P: P['p'].rotate(Ry=.3),
        'path.rotate-origin': lambda P: P['p'].rotate(Ry=.3, origin=P['origin']),
        'path.rotate-list': lambda P: P['q'].rotate(Rx=-1., origin=[0., 0., 1.]),
        'path.mirror': lambda P: P['p'].mirror_xy(),
        'path.map': lambda P: P['p'].map_points(lambda p: 2 * p),
        'path.map-in-place': lambda P: P['p'].map_points(lambda p: (p.__imul__(2.), p)[1]),
        'path.revolve': lambda P: P['p'].revolve_z(1.),
        'path.extrude': lambda P: P['p'].extrude(P['v']),
        'path.extrude_by': lambda P: P['p'].extrude_by_path(P['curve']),
        'path.average': lambda P: P['p'].average(lambda p: p[2]),
        'path.spline': lambda P: G.Path.spline_through_points(P['pts']),
        'path.aperture': lambda P: G.Path.aperture(.2, .5, 2.).mesh(mesh_size=.5),
        'path.rectangle': lambda P: G.Path.rectangle_xz(1., 2., 0., .5),
        'path.ellipse': lambda P: G.Path.ellipse(1., 2.),
        'path.ends': lambda P: [P['p'].starting_point(), P['p'].middle_point(), P['p'].endpoint(), P['ring'].is_closed()],
        'path.name': lambda P: [P['p'].name, rename(P['p'], 'zz').mesh(mesh_size=.5), P['p'].name],
        'paths.add': lambda P: P['p'] + P['c'],
        'paths.add-2': lambda P: P['c'] + P['ring'],
        'paths.iadd': lambda P: iadd(P['c'] + P['ring'], P['curve']),
        'paths.iadd-2': lambda P: iadd(P['p'] + P['ring'], P['c']),
        'paths.iadd-one': lambda P: iadd(G.PathCollection([P['p']]), P['q']),
        'paths.mesh': lambda P: P['c'].mesh(mesh_size=.3),
        'paths.move': lambda P: P['c'].move(dz=1.),
        'paths.revolve': lambda P: P['c'].revolve_y(.5),
        'paths.name': lambda P: [rename(P['c'], 'zz').mesh(mesh_size=.5), P['c'].paths[0].name, P['p'].name],
        # surfaces
        'surface.mesh': lambda P: P['s'].mesh(mesh_size=.8),
        'surface.mesh-2': lambda P: P['s2'].mesh(mesh_size=.6, name='qq'),
        'surface.move': lambda P: P['s'].move(dx=1.),
        'surface.rotate': lambda P: P['s2'].rotate(Rx=.5, origin=P['origin']),
        'surface.map': lambda P: P['s'].map_points(lambda p: (p.__iadd__(1.), p)[1]),
        'surface.boundary': lambda P: P['s'].get_boundary_paths(),
        'surface.extrude': lambda P: P['s'].extrude_boundary(P['v']),
        'surface.revolve': lambda P: P['s'].revolve_boundary_x(.4),
        'surface.extrude_by': lambda P: P['s'].extrude_boundary_by_path(P['curve']),
        'surface.box': lambda P: G.Surface.box(P['v'], P['origin'] + 2.),
        'surface.sphere': lambda P: G.Surface.sphere(1.).mesh(mesh_size=1.),
        'surface.spanned': lambda P: G.Surface.spanned_by_paths(P['p'], P['q']),
        'surfaces.add': lambda P: P['s'] + P['sc'],
        'surfaces.iadd': lambda P: iadd(P['s'] + P['s2'], P['sc']),
        'surfaces.iadd-2': lambda P: iadd(P['sc'] + P['s2'], P['s']),
        'surfaces.mesh': lambda P: P['sc'].mesh(mesh_size=.8),
        # meshes
        'mesh.new': lambda P: M.Mesh(points=P['pts'], lines=np.array([[0, 1], [1, 2], [2, 3]]), physical_to_lines={'a': np.array([0, 1]), 'b': np.array([2])}),
        'mesh.empty': lambda P: [M.Mesh(), M.Mesh() + P['m'], P['m'] + P['empty'], M.Mesh(points=P['pts'])],
        'mesh.move': lambda P: P['m'].move(dz=.5),
        'mesh.move4': lambda P: P['m4'].move(dz=.5),
        'mesh.mirror': lambda P: P['m'].mirror_xy(),
        'mesh.rotate': lambda P: P['m3'].rotate(Rx=.2, origin=P['origin']),
        'mesh.map': lambda P: P['m'].map_points(lambda p: (p.__imul__(1.5), p)[1]),
        'mesh.flip': lambda P: P['m'].flip_normals(),
        'mesh.flip4': lambda P: P['m4'].flip_normals(),
        'mesh.flip3': lambda P: P['m3'].flip_normals(),
        'mesh.add': lambda P: P['m'] + P['mb'],
        'mesh.add-swapped': lambda P: P['mb'] + P['m'],
        'mesh.add-self': lambda P: P['m3'] + P['m3'],
        'mesh.extract': lambda P: P['m'].extract_physical_group('c'),
        'mesh.extract4': lambda P: P['m4'].extract_physical_group('a'),
        'mesh.extract-coil': lambda P: P['m'].extract_physical_group('coil'),
        'mesh.remove': lambda P: [P['m'].remove_lines(), P['m'].remove_triangles(), P['m3'].remove_lines()],
        'mesh.str': lambda P: [str(P['m']), str(P['m3']), P['m'].get_electrodes(), P['m'].is_2d(), P['m3'].is_3d(), P['m4'].is_higher_order()],
        'mesh.file': lambda P: through_file(P['m'], M.Mesh),
        'mesh.file-vtk': lambda P: through_mesh_file(P['m']),
        'mesh.meshio': lambda P: M.Mesh.from_meshio(P['m3'].to_meshio()),
        'mesh.outward-of-derived': lambda P: [(x.ensure_inward_normals('c'), x.ensure_outward_normals('a'), x)[2] for x in (P['m'].move(dz=.5), P['m'].extract_physical_group('c') + P['mb'], P['m'] + P['empty'], P['m'].flip_normals(), P['m'].remove_triangles(), P['empty'] + P['m4'])],
        # excitations
        'exc.new': lambda P: more(P['e'], a=1., c=2.),
        'exc.function': lambda P: more(P['e4'], a=fun),
        'exc.str': lambda P: [str(P['e']), str(P['em']), P['e'].is_electrostatic(), P['em'].has_current()],
        'exc.active': lambda P: [P['e'].get_electrostatic_active_elements(), P['em'].get_magnetostatic_active_elements(), P['e3'].get_electrostatic_active_elements()],
        'exc.boundary-of-derived': lambda P: [with_boundary(P['m'].move(dz=.5), 'c'), with_boundary(P['mb'] + P['m'].remove_triangles(), 'a'), with_boundary(P['m'].flip_normals(), 'b', 'magnetostatic'), with_boundary(P['m'].extract_physical_group('c'), 'c')],
        'exc.boundary-3d-of-derived': lambda P: [with_boundary(P['m3'].move(dz=.5), 'b'), with_boundary(P['m3'].remove_lines(), 'a'), with_boundary(P['m3'].extract_physical_group('a'), 'a')],
        # solving
        'solve': lambda P: S.solve_direct(P['e']),
        'solve4': lambda P: S.solve_direct(P['e4']),
        'solve-mag': lambda P: S.solve_direct(P['em']),
        'solve-both': lambda P: S.solve_direct(P['both']),
        'solve-3d': lambda P: S.solve_direct(P['e3']),
        'solve-other': lambda P: S.solve_direct(more(P['e'], a=7., b=1.)),
        'superposition': lambda P: S.solve_direct_superposition(P['e']),
        'superposition-mag': lambda P: S.solve_direct_superposition(P['em']),
        'superposition-both': lambda P: S.solve_direct_superposition(P['both']),
        # fields
        'field.sample': lambda P: sample(P['f']),
        'field.sample-mag': lambda P: sample(P['fm']),
        'field.sample-3d': lambda P: sample(P['f3']),
        'field.sample-array': lambda P: [P['f'].field_at_point(P['v']), P['fm'].field_at_point(P['v']), P['f3'].field_at_point(P['v']), P['fa'].field_at_point(P['v']), P['f'].potential_at_point(P['v']), P['fm'].magnetostatic_potential_at_point(P['v'])],
        'field.add': lambda P: P['f'] + P['f4'],
        'field.add-mag': lambda P: P['f'] + P['fm'],
        'field.scale': lambda P: [2 * P['f'], P['f'] * -.5, -P['fm'], P['f'] - P['f4']],
        'field.iadd': lambda P: [iadd(1. * P['f'], P['f4']), iadd(P['f'] + P['f'], P['f'])],
        'field.bounds': lambda P: [bounded(P['f'], P['bounds']), sample(bounded(P['f'], P['bounds']))],
        'field.bounds-2': lambda P: [bounded(P['f'], P['bounds2']), sample(bounded(P['fm'], P['bounds2'])), sample(bounded(P['f3'], P['bounds2']))],
        'field.charges': lambda P: [P['f'].charge_on_elements(range(3)), P['f3'].charge_on_elements(np.array([0, 1])), P['f'].area_of_element(0)],
        'field.str': lambda P: [str(P['f']), str(P['fa']), str(P['tracer'])],
        'field.axial-derivs': lambda P: [P['f'].get_electrostatic_axial_potential_derivatives(P['z']), P['fm'].get_magnetostatic_axial_potential_derivatives(P['z']), P['fm'].get_current_axial_potential_derivatives(P['z'])],
        'field.axial-derivs-2': lambda P: [P['f'].get_electrostatic_axial_potential_derivatives(P['z2']), P['f4'].get_electrostatic_axial_potential_derivatives(P['z2'])],
        'field.interpolate': lambda P: I.FieldRadialAxial(P['f'], -2., 2., 30),
        'field.interpolate-2': lambda P: I.FieldRadialAxial(P['f4'], -1., 1., 30),
        'field.interpolate-mag': lambda P: I.FieldRadialAxial(P['fm'], -2., 2., 30),
        'axial.sample': lambda P: [sample(P['fa']), sample(P['fa2'])],
        'axial.add': lambda P: [P['fa'] + P['fa2'], 2 * P['fa'], P['fa'] - P['fa'], -P['fa2'], iadd(1. * P['fa'], P['fa2'])],
        'field.file': lambda P: pickle.loads(pickle.dumps(P['f'])),
        # tracing
        'trace': lambda P: P['f'].get_tracer(P['bounds'])(P['pos'], P['vel']),
        'trace-shared': lambda P: P['tracer'](P['pos'], P['vel']),
        'trace-shared-2': lambda P: P['tracer'](P['v'], T.velocity_vec(50., [.1, 0., 1.])),
        'trace-tolerance': lambda P: P['tracer'](P['pos'], P['vel'], atol=1e-7),
        'trace-mag': lambda P: P['fm'].get_tracer(P['bounds2'])(P['pos'], P['vel']),
        'trace-3d': lambda P: P['f3'].get_tracer(P['bounds'])(P['pos'], P['vel']),
        'trace-axial': lambda P: P['fa'].get_tracer(P['bounds'])(P['pos'], P['vel']),
        'trace-bounded': lambda P: bounded(P['f'], P['bounds2']).get_tracer(P['bounds'])(P['pos'], P['vel']),
        'velocity': lambda P: [T.velocity_vec(100., P['v']), T.velocity_vec_spherical(10., .2, .3), T.velocity_vec_xz_plane(5., .1)],
        'intersect': lambda P: [T.xy_plane_intersection(P['traj'], .2), T.xz_plane_intersection(P['traj'], .3), T.yz_plane_intersection(P['traj'], .7), T.plane_intersection(P['traj'], P['v'], np.array([1., 1., -1.])), T.axis_intersection(P['traj'])],
        'focus': lambda P: F.focus_position(P['trajs']),
        # objects that live only during the operation (the next ones get their memory and their id)
        **{f'{n}#{k}': (lambda P, f=f, v=v: f(P, v)) for n, f in TEMPORARY.items() for k, v in enumerate(VALUES)},
        # arrays of the caller that are used again for something else
        'reuse.line': lambda P: overwritten(lambda a, b: G.Path.line(a, b), canon, P['v'], P['origin']),
        'reuse.bounds': lambda P: overwritten(lambda b: bounded(P['f'], b), sample, P['bounds']),
        'reuse.tracer': lambda P: overwritten(lambda b: P['f'].get_tracer(b), lambda x: x(P['pos'], P['vel']), P['bounds']),
        'reuse.mesh': lambda P: overwritten(lambda p: M.Mesh(points=p, lines=np.array([[0, 1], [2, 3]])), canon, P['pts'])}


# ---- state of the package and of the process
def functions():
    for name, mod in sorted(sys.modules.items()):
        if name == 'traceon' or name.startswith('traceon.'):
            for n, x in sorted(vars(mod).items(), key=lambda i: i[0]):
                if inspect.isfunction(x) and (x.__module__ or '').startswith('traceon'):
                    yield f'{name}.{n}', x
                elif inspect.isclass(x) and x.__module__ == name:
                    for k, y in sorted(vars(x).items()):
                        y = getattr(y, '__func__', y)
                        if inspect.isfunction(y):
                            yield f'{name}.{n}.{k}', y


def process_state():
    """Mutable defaults of functions, settings of numpy, environment, working directory, level of the log."""
    out = {n: (canon(f.__defaults__), canon(f.__kwdefaults__)) for n, f in functions() if any(isinstance(d, (list, dict, set, np.ndarray)) for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()))}
    out = {n: digest(c) for n, c in out.items()}
    out['errors'] = str(sorted(np.geterr().items()))
    out['print'] = str(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s = np.random.get_state()
    out['random'] = hash((s[1].tobytes(), s[2], s[3]))
    out['environment'] = hash(tuple(sorted(os.environ.items())))
    out['directory'] = os.getcwd()
    out['log'] = str(t.logging._log_level) if hasattr(t.logging, '_log_level') else ''
    return out


SHARED = None


def pool_state(P):
    out = {k: digest(canon(v)) for k, v in P.items()}
    # names and members are part of the objects; functions of excitations too
    return out


def fresh(fun):
    """The canonical result of fun() in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fun())
            except BaseException as e:
                out = ('error', f'{type(e).__name__}: {e}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect(pid, r):
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('error', 'the process ended')


def references():
    ops = _ops()
    out, names = {}, list(ops)
    for i in range(0, len(names), 8):
        running = [(n, *fresh(lambda n=n: canon(ops[n](make_pool())))) for n in names[i:i + 8]]
        for n, pid, r in running:
            out[n] = collect(pid, r)
    return out


def run_history(sequences, label, rec):
    """Sequences of operations on a pool that is shared by all of them."""
    ops = _ops()
    P = rec.call('C27/pool', make_pool)
    before, process = pool_state(P), process_state()
    rec.state(('pool', tuple(sorted(before))))
    for seq in sequences:
        for k, n in enumerate(seq):
            kind, want = REF[n]
            try:
                got = ('ok', canon(ops[n](P)))
            except Exception as e:
                got = ('error', f'{type(e).__name__}: {e}')
            rec.step()
            here = lambda: f'{label} {seq[max(0, k - 4):k + 1]}'
            if not rec.check(got[0] == kind == 'ok', 'C27/result', lambda: f'{here()}: {got[1] if got[0] == "error" else "no exception"}, in a fresh process {want if kind == "error" else "no exception"}'):
                return
            d = differ(got[1], want)
            rec.check(d is None, 'C27/result', lambda: f'{here()}: the result differs from that in a fresh process: {d}')
            after, now = pool_state(P), process_state()
            if after != before:
                which = [x for x in after if after[x] != before[x]]
                rec.check(False, 'C27/argument', lambda: f'{here()}: {which} of the pool of shared objects changed')
                before = after
            if now != process:
                which = [x for x in now if now.get(x) != process.get(x)]
                rec.check(False, 'C27/process', lambda: f'{here()}: {which} changed')
                process = now
            rec.count('steps')
        rec.state(tuple(seq))
        rec.outcome((seq[-1],))


REDUCED = ['path.mesh', 'path.line_to', 'path.phase', 'path.rotate-origin', 'path.spline', 'paths.iadd', 'surface.mesh', 'surfaces.iadd', 'mesh.empty', 'mesh.move', 'mesh.flip', 'mesh.add', 'mesh.outward-of-derived',
           'exc.boundary-of-derived', 'exc.new', 'solve', 'solve4', 'solve-mag', 'superposition-both', 'superposition-mag', 'field.bounds', 'field.add-mag', 'field.axial-derivs-2', 'field.interpolate-2', 'trace-shared-2', 'trace-mag', 'field.sample-array', 'intersect']


def cases(tier, seed):
    out = [{'kind': 'pairs', 'first': n} for n in _ops() if '#' not in n or n.endswith('#0')]
    out += [{'kind': 'alone', 'part': k} for k in range(4)]
    names = REDUCED if tier != 'quick' else ['mesh.flip', 'solve', 'superposition-mag', 'field.bounds', 'surfaces.iadd', 'mesh.outward-of-derived', 'field.add-mag']
    out += [{'kind': 'temporary', 'op': n, 'depth': 3 if tier != 'quick' else 2 if n == 'temporary.surface' else 3} for n in TEMPORARY]
    out += [{'kind': 'triples', 'first': a, 'names': names} for a in names]
    return out


def run(case, rec):
    if case['kind'] == 'pairs':
        run_history([[case['first'], b] for b in _ops() if '#' not in b or b.endswith('#1')], 'on shared objects', rec)
    elif case['kind'] == 'temporary':      # objects that live only during the operation: the next ones get their memory and their id
        run_history([[f"{case['op']}#{k}" for k in de_bruijn(len(VALUES), case['depth'])]], 'on objects of short life', rec)
    elif case['kind'] == 'alone':          # everything in four orders
        names = list(_ops())
        run_history([(names, names[::-1], names[1::2] + names[::2], [names[(17 * i) % len(names)] for i in range(len(names))])[case['part']]], 'all operations', rec)
    else:
        run_history([[case['first'], b, c] for b, c in itertools.product(case['names'], repeat=2)], 'on shared objects', rec)
    rec.trace()
