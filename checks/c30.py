"""The native code never reads or writes outside its arrays: every public operation that reaches native code with every small number of elements, points and samples, every position next to a boundary,
and every number of samples around the storage blocks of the tracer, on a backend compiled with address and bounds checks, with a guarded stretch of memory around every numpy array."""
import ctypes, itertools, os, resource, shutil, signal, subprocess, sys, tempfile
import numpy as np
import vlib, problems as pr

PROPERTY = 'C30'
RULE = ('State: (operation, sizes of all arrays, form of the arrays, position class). Sizes from none, one, two, ... to the bound are complete; a state is one execution in which the sanitizer had nothing to report. '
        'Operations that refuse an input with an exception are executed but not counted as states.')
RUNTIME = None

if __name__ == 'c30' and 'C30_LOG' not in os.environ:
    cc = vlib._cc()
    RUNTIME = subprocess.run([cc, '-print-file-name=' + ('libclang_rt.asan-x86_64.so' if 'clang' in cc else 'libasan.so')], capture_output=True, text=True).stdout.strip()
    d = tempfile.mkdtemp(prefix='verif_asan_')
    os.environ.update(C30_LOG=d, LD_PRELOAD=RUNTIME, PYTHONMALLOC='malloc',
                      ASAN_OPTIONS=f'detect_leaks=0:halt_on_error=0:suppress_equal_pcs=0:log_path={d}/log:detect_stack_use_after_return=1:redzone=128:max_redzone=2048:quarantine_size_mb=64:allocator_may_return_null=1',
                      UBSAN_OPTIONS=f'log_path={d}/log:print_stacktrace=1')
    os.execv(sys.executable, [sys.executable, '-P', *sys.argv])


def setup(tier, seed):
    global t, c09, DEEP, seen, CASE_TIMEOUT
    CASE_TIMEOUT = 120 if tier == 'quick' else 400
    import atexit, importlib.util
    pid, log = os.getpid(), os.environ['C30_LOG']
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(log, ignore_errors=True))
    for k in ('LD_PRELOAD',):          # not for the tools that are started from here
        os.environ.pop(k, None)
    os.environ['TRACEON_THREADS'] = '1'
    so = vlib.build_backend(['-O1', '-g', '-mavx', '-ffast-math', '-DNDEBUG', '-fsanitize=address,bounds', '-fno-sanitize-recover=', '-fsanitize-recover=address,bounds', '-fno-omit-frame-pointer'],
                            [os.path.join(vlib.VERIF, 'lib', 'guard.c')], link_flags=['-fPIC', '-g', '-fsanitize=address,bounds', '-fsanitize-recover=address,bounds'] + (['-shared-libasan'] if 'clang' in vlib._cc() else []))
    t = vlib.import_traceon(so)
    vlib.silence(t)
    seen = {}
    self_test(so)
    spec = importlib.util.spec_from_file_location('c09', os.path.join(vlib.VERIF, 'checks', 'c09.py'))
    c09 = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(c09)
    c09.t = t
    DEEP = tier != 'quick'


# ---- what the sanitizers reported
def report():
    """The new text in the log of this process."""
    name = f"{os.environ['C30_LOG']}/log.{os.getpid()}"
    try:
        n = os.stat(name).st_size
    except FileNotFoundError:
        return ''
    old = seen.get(name, 0)
    if n == old:
        return ''
    seen[name] = n
    with open(name, errors='replace') as f:
        f.seek(old)
        return f.read()


def summary(text):
    lines = [l.strip() for l in text.splitlines()]
    kind = next((l for l in lines if 'ERROR: AddressSanitizer' in l or 'runtime error' in l), lines[0] if lines else '')
    frames = [l.split(' in ', 1)[1].split(' (')[0] for l in lines if l.startswith('#') and ' in ' in l]
    frames = [f for f in frames if any(x in f for x in ('.c:', 'traceon'))][:3]
    access = next((l for l in lines if l.startswith(('READ of', 'WRITE of'))), '')
    return f'{kind[:160]} {access.split(" at ")[0]} in {frames}'


def self_test(so):
    """The machinery reports what it has to report."""
    lib = ctypes.CDLL(so)
    lib.guard_handler.restype = ctypes.c_void_p
    lib.guard_read.restype = lib.guard_table.restype = lib.guard_inner.restype = ctypes.c_double
    lib.guard_read.argtypes = lib.guard_write.argtypes = [ctypes.c_void_p, ctypes.c_long]
    lib.guard_inner.argtypes = [ctypes.c_void_p, ctypes.c_int]
    api = ctypes.pythonapi
    api.PyCapsule_GetPointer.restype = ctypes.c_void_p
    api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    api.PyCapsule_New.restype = ctypes.py_object
    api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    try:
        from numpy._core import _multiarray_umath as mu
    except ImportError:
        from numpy.core import _multiarray_umath as mu
    table = ctypes.cast(api.PyCapsule_GetPointer(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])
    capsule = api.PyCapsule_New(lib.guard_handler(), b'mem_handler', None)
    set_handler(capsule)
    globals()['_keep'] = (capsule, lib)
    a = np.zeros((3, 4))
    report()
    p = a.ctypes.data
    for f, args, want in ((lib.guard_read, (p, 0), 0), (lib.guard_read, (p, 11), 0), (lib.guard_read, (p, 12), 1), (lib.guard_read, (p, -1), 1), (lib.guard_write, (p, 12), 1), (lib.guard_read, (p, 1000), 1), (lib.guard_read, (p, -900), 1),
                          (lib.guard_table, (2,), 0), (lib.guard_table, (3,), 1), (lib.guard_inner, (p, 3), 0), (lib.guard_inner, (p, 4), 1)):
        f(*args)
        r = report()
        assert bool(r) == bool(want), f'the instrumentation does not work: {f.__name__}{args}: {r[:300]}'
    del a
    lib.guard_read(p, 0)
    assert 'use-after-poison' in (r := report()) or 'heap-use-after-free' in r, f'use of a freed array is not seen: {r[:300]}'
    # arrays of threads too
    import contextvars, threading
    real_run = threading.Thread.run

    class Run:
        pass

    def start(self, _start=threading.Thread.start):
        ctx = contextvars.copy_context()
        run = self.run
        self.run = lambda: ctx.run(run)
        _start(self)
    threading.Thread.start = start


class NoEnd(Exception):
    pass


def late(*a):
    raise NoEnd


def look(rec, key, what, fun, refuse=True):
    """Execute one operation on the real code and look into the log."""
    refused = None
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 25.)
    try:
        with np.errstate(all='ignore'):
            fun()
    except Exception as e:
        refused = e
        if not refuse:
            rec.check(False, key, f'{what}: {type(e).__name__}: {e}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0.)
    rec.step()
    r = report()
    if isinstance(refused, NoEnd):
        raise vlib.Violation(key, f'{what}: no end within 25 s; {summary(r) if r else "nothing reported"}')
    rec.evals += 1
    if r:
        raise vlib.Violation(key, f'{what}: {summary(r)}')
    if refused is None:
        rec.state(what)
        rec.outcome((what[0], 'done'))
    else:
        rec.outcome((what[0], type(refused).__name__))
        rec.count('refused')
    return refused is None


# ---- numbers of elements: solving and evaluating
def segments(n):
    return [('abcd'[i % 4], (1. + .3 * i, -1. + .2 * i), (1.1 + .3 * i, -.5 + .2 * i)) for i in range(n)]


def coil(n):
    return [('coil' if i % 2 == 0 else 'coil2', ((8. + i, 0.), (8.5 + i, 0.), (8. + i, .5))) for i in range(n)]


FORMS = {'plain': lambda a: a, 'fortran': lambda a: np.asfortranarray(a), 'strided': lambda a: np.repeat(a, 2, axis=0)[::2], 'reversed': lambda a: a[::-1][::-1] if a.ndim else a, 'backwards': lambda a: a[::-1].copy()[::-1], 'single': lambda a: a.astype(np.float32),
         'integer': lambda a: np.round(a).astype(np.int64), 'readonly': lambda a: (lambda b: (b.setflags(write=False), b)[1])(a.copy()), 'unaligned': lambda a: (lambda b: (b.__setitem__(slice(None), np.frombuffer(a.tobytes(), np.uint8)), b.view(np.float64).reshape(a.shape))[1])(np.zeros(a.nbytes + 1, np.uint8)[1:])}
POINTS = [(.1, 0., .2), (0., 0., 0.), (1e-12, 0., .3), (1., 0., -1.), (1.05, 0., -.75), (-3., 2., 1.), (1e9, 0., 0.), (0., 0., 1e9), (np.inf, 0., 0.), (np.nan, 0., 0.)]


def evaluate(rec, key, what, f, three=False):
    for p, (form, g) in itertools.product(POINTS, FORMS.items()):
        if form != 'plain' and p != POINTS[0] and not DEEP:
            continue
        for n in ('electrostatic_potential_at_point', 'electrostatic_field_at_point', 'magnetostatic_potential_at_point', 'magnetostatic_field_at_point', 'field_at_point', 'potential_at_point', 'current_field_at_point'):
            if hasattr(f, n):
                look(rec, key, ('evaluate', what, n, p, form), lambda: getattr(f, n)(g(np.array(p))))


def follow(rec, key, what, f):
    for p, v in itertools.product([(.1, 0., .2), (0., 0., 0.)], [(0., 0., 1.), (.6, .8, -1.)]):
        look(rec, key, ('follow', what, p, v), lambda: f.get_tracer([[-.2, .2], [-.2, .2], [-.3, .3]])(np.array(p), t.tracing.velocity_vec(1000., v), 1e-7))


def charges(rec, key, what, f):
    N = len(f.electrostatic_point_charges)
    for ix in ([], range(N), [N - 1], [-1], [N], [0, N + 3]):
        look(rec, key, ('charges', what, tuple(ix)), lambda: (f.charge_on_elements(ix), f.area_of_elements(ix)))


def run_radial(n, m, threads, higher, rec):
    S, E = t.solver, t.excitation
    os.environ['TRACEON_THREADS'] = str(threads)
    key = 'C30/solve'
    for kinds in itertools.product('-VDPM', repeat=min(n, 3)) if n else [()]:
        what = (n, m, threads, higher, kinds)
        made = []

        def go():
            mesh = pr.line_mesh(t, segments(n), higher, coil(m), outward=bool(n % 2))
            e = E.Excitation(mesh, E.Symmetry.RADIAL)
            for g, k in zip('abc', kinds):
                {'V': lambda: e.add_voltage(**{g: 2.}), 'D': lambda: e.add_dielectric(**{g: 3.}), 'P': lambda: e.add_magnetostatic_potential(**{g: 2.}), 'M': lambda: e.add_magnetizable(**{g: 3.}), '-': lambda: None}[k]()
            if m:
                e.add_current(coil=3.)
            made.append(S.solve_direct(e))
            made.append(S.solve_direct_superposition(e))
        look(rec, key, ('solve', *what), go)
        if made and (len(set(kinds)) == 1 or kinds[:1] == ('V',) or not kinds):
            evaluate(rec, 'C30/evaluate', what, made[0])
            charges(rec, 'C30/evaluate', what, made[0])
            for other in made[1:]:
                for x in (other.values() if isinstance(other, dict) else ()):
                    evaluate(rec, 'C30/evaluate', ('superposition', *what), 2. * x + made[0])
                    for name, f in (('member', x), ('scaled', 2. * x), ('sum', x + made[0])):
                        follow(rec, 'C30/trace', (name, *what), f)
                        charges(rec, 'C30/evaluate', (name, *what), f)
            follow(rec, 'C30/trace', what, made[0])
            for nz, (form, g) in itertools.product((0, 1, 2, 3, 5), FORMS.items()):
                z = np.linspace(-1., 1., nz)
                for name in ('electrostatic', 'magnetostatic', 'current'):
                    look(rec, 'C30/axial-derivatives', ('derivs', what, nz, form, name), lambda: getattr(made[0], f'get_{name}_axial_potential_derivatives')(g(z)))
                look(rec, 'C30/axial-derivatives', ('current-axial', what, nz, form), lambda: made[0].current_potential_axial(g(z)))
            for z in ((0., 1.), (-1e9, 1e9), (np.inf, np.nan)):
                look(rec, 'C30/axial-derivatives', ('derivs', what, str(z)), lambda: made[0].get_electrostatic_axial_potential_derivatives(np.array(z)))


def run_three(n, threads, rec):
    S, E = t.solver, t.excitation
    os.environ['TRACEON_THREADS'] = str(threads)
    tris = [('abcd'[i % 4], ((i, 0., 0.), (i + .5, 0., .1), (i, .5, .3 * i))) for i in range(n)]
    for kinds in itertools.product('-VDPM', repeat=min(n, 2)) if n else [()]:
        what = ('3d', n, threads, kinds)
        made = []

        def go():
            e = E.Excitation(pr.tri_mesh(t, tris, outward=True), E.Symmetry.THREE_D)
            for g, k in zip('ab', kinds):
                {'V': lambda: e.add_voltage(**{g: 2.}), 'D': lambda: e.add_dielectric(**{g: 3.}), 'P': lambda: e.add_magnetostatic_potential(**{g: 2.}), 'M': lambda: e.add_magnetizable(**{g: 3.}), '-': lambda: None}[k]()
            made.append(S.solve_direct(e))
            made.extend(S.solve_direct_superposition(e).values())
        look(rec, 'C30/solve', what, go)
        if made:
            for f in made:
                follow(rec, 'C30/trace', what, f)
            evaluate(rec, 'C30/evaluate', what, made[0], True)
            charges(rec, 'C30/evaluate', what, made[0])


# ---- axial interpolation: number of samples, positions around the nodes
def run_axial(n, rec):
    e = t.excitation.Excitation(pr.line_mesh(t, segments(2), False, pr.COIL), t.excitation.Symmetry.RADIAL)
    e.add_voltage(a=3., b=-1.)
    e.add_current(coil=2.)
    f = t.solver.solve_direct(e)
    made = []
    for zmin, zmax in ((-1., 2.), (0., 1e-3), (-1e6, 1e6)):
        for threads in (1, 2, 5):
            os.environ['TRACEON_THREADS'] = str(threads)
            look(rec, 'C30/interpolation', ('interpolate', n, zmin, zmax, threads), lambda: made.append(t.interpolation.FieldRadialAxial(f, zmin, zmax, n)))
        os.environ['TRACEON_THREADS'] = '1'
    for k, a in enumerate(made):
        nodes = np.asarray(a.z)
        zs = [x for z in nodes[:4].tolist() + nodes[-4:].tolist() for x in (np.nextafter(z, -np.inf), z, np.nextafter(z, np.inf))] + [.5 * (nodes[0] + nodes[1]), .5 * (nodes[-1] + nodes[-2]), nodes[0] - 1e-6, nodes[-1] + 1e-6, nodes[0] - 10., nodes[-1] + 10., -1e300, 1e300, np.inf, -np.inf, np.nan]
        for z, r in itertools.product(zs, (0., .01, 1e3)):
            for n_ in ('electrostatic_potential_at_point', 'electrostatic_field_at_point', 'magnetostatic_potential_at_point', 'magnetostatic_field_at_point'):
                look(rec, 'C30/interpolation', ('axial', n, k, n_, str(float(z)), r), lambda: getattr(a, n_)(np.array([r, 0., z])))
        for z0, v in itertools.product(zs[:6] + zs[12:18] + zs[-11:-5], (1., -1.)):
            tr = a.get_tracer([[-1., 1.], [-1., 1.], [nodes[0] - .02, nodes[-1] + .02] if nodes[-1] - nodes[0] < 10 else [z0 - .02, z0 + .02]])
            look(rec, 'C30/interpolation', ('trace-axial', n, k, str(float(z0)), v), lambda: tr(np.array([.01, 0., z0]), t.tracing.velocity_vec(100., [0., 0., v])))
        for u in (2. * a, a + a, a - a):
            look(rec, 'C30/interpolation', ('algebra', n, k), lambda: u.field_at_point(np.array([.01, 0., float(nodes[-1])])))


def run_axial3d(n, rec):
    """The three dimensional series (of the backend), where the package has it."""
    b = t.backend
    if not hasattr(b, 'axial_coefficients_3d') or not hasattr(t.tracing, 'Tracer3DAxial'):
        return
    from scipy.interpolate import CubicSpline
    for m in (0, 1, 2, 3):
        e = t.excitation.Excitation(pr.tri_mesh(t, [('a', ((i + 1., 0., 0.), (i + 1.5, 0., .1), (i + 1., .5, .3))) for i in range(max(m, 1))]), t.excitation.Symmetry.THREE_D)
        e.add_voltage(a=2.)
        q = t.solver.solve_direct(e).electrostatic_point_charges
        c, j, p = q.charges[:m], q.jacobians[:m], q.positions[:m]
        z = np.linspace(-1., 1., n)
        out = []
        look(rec, 'C30/interpolation-3d', ('coefficients', n, m), lambda: out.append(b.axial_coefficients_3d(c, j, p, z)))
        if not out or n < 2:
            continue
        co = np.ascontiguousarray(np.moveaxis(CubicSpline(z, out[0]).c, 0, -1))
        for x in [v for y in (z[0], z[1], z[-2], z[-1]) for v in (np.nextafter(y, -9), y, np.nextafter(y, 9))] + [-5., 5., 1e300, -1e300, np.inf, np.nan]:
            for r in (0., .1):
                P = np.array([r, r / 2, x])
                look(rec, 'C30/interpolation-3d', ('3d-derivs', n, m, str(float(x)), r), lambda: (b.potential_3d_derivs(P, z, co), b.field_3d_derivs(P, z, co)))
        fake = type('F', (), dict(z=z, electrostatic_coeffs=co, magnetostatic_coeffs=0 * co))()
        for z0, v in itertools.product((z[0] - .01, z[0], z[-1], z[-1] + .01), (1., -1.)):
            tr = t.tracing.Tracer3DAxial(fake, [[-1., 1.], [-1., 1.], [z[0] - .02, z[-1] + .02]])
            look(rec, 'C30/interpolation-3d', ('trace-3d-axial', n, m, float(z0), v), lambda: tr(np.array([.01, 0., z0]), t.tracing.velocity_vec(100., [0., 0., v])))


# ---- tracing: starts around the bounds, and numbers of samples around the storage blocks
def run_trace(kind, rec):
    make = c09.make(kind)
    if make is None:
        return
    box = [[-.2, .2], [-.3, .3], [-.1, .4]]
    for bounds, pos, d in itertools.product((box, [[0., 0.]] * 3, [[1., -1.]] * 3), [(0., 0., 0.), (.2, 0., 0.), (.2000001, 0., 0.), (0., -.3, .4), (5., 5., 5.)], [(0., 0., 1.), (1., 0., 0.), (.3, -.4, -1.)]):
        for form, g in (FORMS.items() if pos == (0., 0., 0.) and bounds is box else [('plain', FORMS['plain'])]):
            def go():
                make(np.array(bounds))(g(np.array(pos)), g(t.tracing.velocity_vec(50., d)), 1e-8)
            look(rec, 'C30/trace', ('trace', kind, str(bounds), str(pos), d, form), go)
    for fb in ([[-.1, .1]] * 3, [[0., 0.]] * 3, [[-1, 1]] * 3):
        f = getattr(c09, '_made', {}).get('field-' + kind)
        if f is not None and hasattr(f, 'set_bounds'):
            f = 1. * f

            def go():
                f.set_bounds(fb)
                f.get_tracer(box)(np.array([0., 0., 0.]), t.tracing.velocity_vec(50., [0., .1, 1.]))
                f.field_at_point(np.array([.1, .1, .1])) if not (f.is_electrostatic() and f.is_magnetostatic()) else None
            look(rec, 'C30/trace', ('field-bounds', kind, str(fb)), go)


def run_block(kind, target, rec):
    """Particles that need `target` samples (to the storage block of the tracer and its multiples), in a field free space: steps of the largest size."""
    f = {'empty': lambda: t.solver.FieldRadialBEM(), 'empty3': lambda: t.solver.Field3D_BEM()}[kind]()
    N = t.backend.TRACING_BLOCK_SIZE
    # find the bound that gives this number of samples: steps of 0.01
    for d in (-1.5, -.5, .5, 1.5):
        L = .01 * (target + d)
        what = ('block', kind, target, d)
        got = []
        look(rec, 'C30/block', what, lambda: got.append(len(f.get_tracer([[-1., 1.], [-1., 1.], [-1., L]])(np.array([0., 0., 0.]), t.tracing.velocity_vec(100., [0., 0., 1.]))[0])), refuse=False)
        rec.outcome((target - N, got and got[0] - target))
        rec.count(f'samples-{got[0] - target:+d}-around-{target // N}-blocks' if got else 'lost')


# ---- planes
def run_plane(n, rec):
    T, F = t.tracing, t.focus
    k = np.arange(n)
    base = np.array([.1 * k, .05 * k, 1. - .3 * k, 1. + 0 * k, .5 + 0 * k, -1. + 0 * k]).T.reshape(n, 6)
    for form, g in FORMS.items():
        for z in [1. - .3 * i + d for i in range(-1, n + 1) for d in (-1e-9, 0., 1e-9, .1)] + [np.nan, np.inf]:
            look(rec, 'C30/plane', ('xy', n, form, str(float(z))), lambda: T.xy_plane_intersection(g(base), z))
        for p, nrm in itertools.product([(0., 0., 0.), (.05, .02, .8)], [(0., 0., 1.), (1., 1., -1.), (0., 0., 0.), (-1e300, 0., 1.)]):
            for g2 in (g, FORMS['plain']):
                look(rec, 'C30/plane', ('plane', n, form, p, nrm), lambda: T.plane_intersection(g(base), g2(np.array(p)), g2(np.array(nrm))))
        for c in (0., .07, 5.):
            look(rec, 'C30/plane', ('xz', n, form, c), lambda: (T.xz_plane_intersection(g(base), c)))
            look(rec, 'C30/plane', ('yz', n, form, c), lambda: (T.yz_plane_intersection(g(base), c)))
        look(rec, 'C30/plane', ('axis', n, form), lambda: T.axis_intersection(g(base)))
        look(rec, 'C30/plane', ('focus', n, form), lambda: F.focus_position([g(base), g(base)[:max(1, n - 1)]]))
    for shape in ((n, 3), (n, 5), (n, 7), (n,), (6, n), (n, 6, 1)):
        look(rec, 'C30/plane', ('shape', shape), lambda: T.xy_plane_intersection(np.ones(shape) - np.arange(len(np.ones(shape))).reshape(-1, *[1] * (len(shape) - 1)), -.5))


# ---- wrong shapes: refused, or at least harmless
def run_shapes(rec):
    e = t.excitation.Excitation(pr.line_mesh(t, segments(2), False, pr.COIL), t.excitation.Symmetry.RADIAL)
    e.add_voltage(a=3., b=-1.)
    e.add_current(coil=2.)
    f = t.solver.solve_direct(e)
    a = t.interpolation.FieldRadialAxial(f, -1., 1., 5)
    e3 = t.excitation.Excitation(pr.tri_mesh(t, pr.triangles_3d(2)), t.excitation.Symmetry.THREE_D)
    e3.add_voltage(a=3., b=-1.)
    f3 = t.solver.solve_direct(e3)
    for field, shape in itertools.product((f, a, f3), [(0,), (1,), (2,), (3,), (4,), (3, 1), (1, 3), (2, 3), ()]):
        for n in ('electrostatic_potential_at_point', 'electrostatic_field_at_point', 'magnetostatic_potential_at_point', 'magnetostatic_field_at_point'):
            look(rec, 'C30/shapes', ('shape', type(field).__name__, shape, n), lambda: getattr(field, n)(np.full(shape, .1)))
        look(rec, 'C30/shapes', ('shape-trace', type(field).__name__, shape), lambda: field.get_tracer([[-1., 1.]] * 3)(np.full(shape, .1), np.full(shape, 1.)))
        if len(shape) < 2:
            look(rec, 'C30/shapes', ('shape-bounds', type(field).__name__, shape), lambda: field.get_tracer(np.ones((*shape, 2)) * [-1., 1.])(np.array([.1, 0., 0.]), np.array([0., 0., 1.])))
    for shape in [(), (0,), (3, 3), (2, 1)]:
        for n in ('electrostatic', 'magnetostatic', 'current'):
            look(rec, 'C30/shapes', ('shape-z', shape, n), lambda: getattr(f, f'get_{n}_axial_potential_derivatives')(np.full(shape, .1)))


# ---- meshes and geometry that reach native code
def run_mesh(n, rec):
    M, E = t.mesher, t.excitation
    for flips in itertools.product((0, 1), repeat=n):
        tris = [('a' if i % 2 else 'b', [np.array(p, float) for p in (q if not f else (q[1], q[0], q[2]))]) for i, (f, q) in enumerate(zip(flips, [((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((1, 0, 0), (1, 1, 0), (0, 1, 0)), ((0, 0, 0), (1, 0, 0), (0, 0, 1)), ((2, 0, 0), (3, 0, 0), (2, 0, 1))]))]

        def go():
            m = pr.tri_mesh(t, tris, outward=True)
            for g in m.get_electrodes():
                m.ensure_inward_normals(g)
            m.flip_normals() + m
            e = E.Excitation(m, E.Symmetry.THREE_D)
            e.add_voltage(**{g: 1. for g in m.get_electrodes()})
            t.solver.solve_direct(e) if n else None
        look(rec, 'C30/mesh', ('mesh', n, flips), go)
        segs = [(g, a[:2], b[:2]) for (g, (a, b, _)) in tris]

        def go():
            m = pr.line_mesh(t, [(g, (abs(a[0]) + 1, a[1] + a[0]), (abs(b[0]) + 1, b[1] + 2 * b[0] + .5)) for g, a, b in segs], n % 2 == 0, outward=True)
            for g in m.get_electrodes():
                m.ensure_inward_normals(g)
            e = E.Excitation(m, E.Symmetry.RADIAL)
            e.add_dielectric(**{g: 2. for g in m.get_electrodes()[:1]})
            e.add_voltage(**{g: 1. for g in m.get_electrodes()[1:]})
            t.solver.solve_direct(e) if n > 1 else None
        look(rec, 'C30/mesh', ('lines', n, flips), go)


def run_combined(rec):
    """Fields with point charges that come from algebra, pickling and copying."""
    import copy, pickle
    made = {}
    for kind in ('elec', 'mag', 'coil', 'mixed', 'elec3', 'mag3', 'mixed3', 'empty', 'empty3'):
        c09.make(kind)
        made[kind] = c09._made.get('field-' + kind) or {'empty': t.solver.FieldRadialBEM, 'empty3': t.solver.Field3D_BEM}.get(kind, lambda: None)()
    B = [[-.2, .2], [-.3, .3], [-.1, .4]]
    for a, b in itertools.product(made, repeat=2):
        if made[a] is None or made[b] is None or a.endswith('3') != b.endswith('3'):
            continue
        for name, op in {'sum': lambda x, y: x + y, 'difference': lambda x, y: x - y, 'scaled': lambda x, y: 2 * x + y * -.5, 'pickled': lambda x, y: pickle.loads(pickle.dumps(x + y)), 'copied': lambda x, y: copy.deepcopy(x) + copy.copy(y)}.items():
            def go():
                f = op(made[a], made[b])
                for p in ((.1, 0., .2), (0., 0., 0.)):
                    f.electrostatic_field_at_point(np.array(p)), f.magnetostatic_field_at_point(np.array(p)), f.electrostatic_potential_at_point(np.array(p))
                f.get_tracer(B)(np.array([.01, 0., 0.]), t.tracing.velocity_vec(100., [0., .1, 1.]), 1e-7)
                if not a.endswith('3'):
                    t.interpolation.FieldRadialAxial(f, -1., 1., 4)
            look(rec, 'C30/combined', ('combined', name, a, b), go)


def run_layout(kind, rec):
    """Fields made from arrays of every layout."""
    S = t.solver
    c09.make(kind)
    f = c09._made['field-' + kind]
    names = ('electrostatic_point_charges', 'magnetostatic_point_charges') + (('current_point_charges',) if kind == 'mixed' else ())
    for forms in itertools.product([x for x in FORMS if x != 'integer' and (DEEP or x in ('plain', 'fortran', 'strided', 'backwards'))], repeat=3):
        made = []

        def go():
            made.append(type(f)(**{n: S.EffectivePointCharges(*[FORMS[x](a) for x, a in zip(forms, (getattr(f, n).charges, getattr(f, n).jacobians, getattr(f, n).positions))]) for n in names}))
        look(rec, 'C30/layout', ('make', kind, forms), go)
        for x in made:
            follow(rec, 'C30/layout', ('layout', kind, forms), x)
            look(rec, 'C30/layout', ('at', kind, forms), lambda: (x.electrostatic_field_at_point(np.array([.1, 0., .2])), x.magnetostatic_field_at_point(np.array([.1, 0., .2])), x.electrostatic_potential_at_point(np.array([.1, 0., .2])), (2. * x + f).field_at_point(np.array([.1, 0., .2]))))


def cases(tier, seed):
    deep = tier != 'quick'
    out = [{'kind': 'radial', 'n': n, 'm': m, 'threads': k, 'higher': h} for n in range(6 if deep else 5) for m in range(4 if deep else 3) for k, h in (((1, False), (3, True), (8, False)) if deep else ((1, False), (3, True)))]
    out += [{'kind': 'three', 'n': n, 'threads': k} for n in range(6 if deep else 4) for k in (1, 3)]
    out += [{'kind': 'axial', 'n': n} for n in ((None, 0, 1, 2, 3, 4, 5, 7, 11) if deep else (0, 1, 2, 3, 5))]
    out += [{'kind': 'axial3d', 'n': n} for n in ((1, 2, 3, 4, 5, 9) if deep else (1, 2, 4))]
    out += [{'kind': 'trace', 'k': k} for k in ('empty', 'empty3', 'elec', 'mag', 'coil', 'mixed', 'elec3', 'mag3', 'mixed3', 'axial-elec', 'axial-mag', 'axial-mixed', '3daxial', 'python')]
    N = 100000
    out += [{'kind': 'block', 'k': k, 'target': b * N + d} for k in ('empty', 'empty3') for b in ((1, 2, 3) if deep else (1,) if k == 'empty3' else (1, 2)) for d in range(-3, 4)]
    out += [{'kind': 'plane', 'n': n} for n in range(9 if deep else 5)]
    out += [{'kind': 'mesh', 'n': n} for n in range(5 if deep else 4)]
    return out + [{'kind': 'shapes'}, {'kind': 'combined'}, *({'kind': 'layout', 'k': k} for k in ('mixed', 'mixed3'))]


def run(case, rec):
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
    globals()['run_' + case['kind']](*[v for k, v in case.items() if k != 'kind'], rec)
    r = report()
    rec.check(not r, 'C30/late', lambda: f'{case}: {summary(r)}')
    rec.trace()
