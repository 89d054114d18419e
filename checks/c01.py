"""Parallel = sequential: every number of threads for every small problem size, every schedule of the worker threads within a
preemption bound on the real code, and all conflicting native accesses."""
import ctypes, itertools, os
import numpy as np
import vlib, sched, problems as pr

PROPERTY = 'C01'
RULE = ('Thread counts: one state per (problem, number of threads). Schedules: one state per executed schedule of the real worker threads '
        '(choice sequence at the scheduling points); native: one state per pair of concurrent native calls and per interleaving of them at '
        'conflicting accesses. Non-trivial: executions with at least two workers.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global so, so_rec, rec_lib
    sched.install()
    so = vlib.build_backend()
    rt = os.path.join(vlib.scratch, 'native_rec.o')
    import subprocess
    r = subprocess.run(['clang', '-O1', '-fPIC', '-c', os.path.join(vlib.VERIF, 'lib', 'native_rec.c'), '-o', rt], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    so_rec = vlib.build_backend(flags=['-O1', '-mavx', '-ffast-math', '-DNDEBUG', '-fsanitize=thread', '-fno-vectorize', '-fno-slp-vectorize'],
                                extra_sources=[rt], name='traceon_backend_rec', link_flags=['-lpthread'])
    os.environ['TRACEON_THREADS'] = '1'


def fresh(lib):
    global t
    vlib.forget_traceon()
    t = vlib.import_traceon(lib)
    vlib.silence(t)
    return t


# -------------------------------------------------------------------------------------------------- problems

PROBES = [(0.1, 0., 0.2), (0.05, -0.2, 0.7), (0., 0., -0.5)]
PROBES3 = [(0.3, 0.2, 0.8), (2., -1., 0.5), (0.4, 0.5, 3.)]


def ex_radial(n):
    exc = t.excitation.Excitation(pr.line_mesh(t, pr.radial_segments(n)), t.excitation.Symmetry.RADIAL)
    exc.add_voltage(a=100.)
    if n > 1:
        exc.add_voltage(b=-40)
    if n > 3:
        exc.add_dielectric(c=3.)
    return exc


def ex_3d(n):
    exc = t.excitation.Excitation(pr.tri_mesh(t, pr.triangles_3d(n)), t.excitation.Symmetry.THREE_D)
    exc.add_voltage(a=100.)
    if n > 1:
        exc.add_voltage(b=lambda x, y, z: 10. + x - 2 * z)
    if n > 3:
        exc.add_dielectric(c=3.)
    return exc


def ex_mag(n):
    exc = t.excitation.Excitation(pr.line_mesh(t, pr.radial_segments(n), tris=pr.COIL), t.excitation.Symmetry.RADIAL)
    exc.add_current(coil=5., coil2=-2.)
    if n:
        exc.add_magnetizable(a=20.)
    if n > 1:
        exc.add_magnetostatic_potential(b=3.)
    if n > 3:
        exc.add_magnetizable(c=4.)
    return exc


def ex_materials(n, kind):
    """Every element its own material (or voltage), so that the rows of any two workers differ in kind and value."""
    if kind == '3d':
        mesh, sym = pr.tri_mesh(t, [(f'g{i}', p) for i, (_, p) in enumerate(pr.triangles_3d(n))]), t.excitation.Symmetry.THREE_D
    else:
        mesh, sym = pr.line_mesh(t, [(f'g{i}', a, b) for i, (_, a, b) in enumerate(pr.radial_segments(n))]), t.excitation.Symmetry.RADIAL
    exc = t.excitation.Excitation(mesh, sym)
    exc.add_voltage(g0=100.)
    for i in range(1, n):
        exc.add_dielectric(**{f'g{i}': 1.5 * i + 0.5})
    return exc


def observe(field, probes, mag):
    out = []
    for p in probes:
        p = np.array(p)
        if mag:
            out += [field.magnetostatic_potential_at_point(p), *field.magnetostatic_field_at_point(p)]
        else:
            out += [field.electrostatic_potential_at_point(p), *field.electrostatic_field_at_point(p)]
    return np.array(out, dtype=float)


def make(problem, n):
    """A function that does the computation and returns what is observed; its inputs are made here, once."""
    solve = t.solver.solve_direct
    if problem == 'radial':
        exc = ex_radial(n)
        return lambda: observe(solve(exc), PROBES, False)
    if problem == '3d':
        exc = ex_3d(n)
        return lambda: observe(solve(exc), PROBES3, False)
    if problem == 'mag':
        exc = ex_mag(n)
        return lambda: observe(solve(exc), PROBES, True)
    if problem == 'super':
        exc = ex_radial(n)

        def f():
            d = t.solver.solve_direct_superposition(exc)
            return np.concatenate([observe(d[k], PROBES[:2], False) for k in sorted(d)])
        return f
    if problem in ('radial_diel', '3d_diel'):
        exc = ex_materials(n, problem[:-5])
        return lambda: observe(solve(exc), PROBES3 if problem == '3d_diel' else PROBES, False)
    saved, os.environ['TRACEON_THREADS'] = os.environ.get('TRACEON_THREADS'), '1'
    if problem == 'axial':
        field = solve(ex_radial(4))
    else:
        field = solve(ex_mag(4))
    if saved is None:
        del os.environ['TRACEON_THREADS']
    else:
        os.environ['TRACEON_THREADS'] = saved
    Ax = t.interpolation.FieldRadialAxial
    zs = np.linspace(-1.05, 2.17, 13)

    def f():
        ax = Ax(field, -1.5, 2.5, N=n)
        return np.concatenate([observe(ax, [(0., 0., z) for z in zs] + [(0.02, 0.01, 0.3)], problem == 'axial_mag')])
    return f


def cases(tier, seed):
    out = []
    big = tier == 'thorough'
    for problem, ns in (('radial', range(1, 8)), ('3d', range(1, 8)), ('mag', range(0, 7)), ('radial_diel', (2, 3, 6)), ('3d_diel', (2, 3, 6)), ('super', range(2, 6)), ('axial', range(3, 9)), ('axial_mag', range(3, 9))):
        for n in ns:
            out.append(dict(kind='counts', problem=problem, n=n))
    for problem, n in (('radial', 5), ('3d', 5), ('axial', 5)):
        out.append(dict(kind='affinity', problem=problem, n=n))
    for problem, n, threads in (('radial', 4, 2), ('3d', 4, 2), ('mag', 4, 2), ('axial', 5, 2), ('axial_mag', 5, 2), ('radial', 5, 3), ('3d', 5, 3), ('radial_diel', 4, 2), ('3d_diel', 4, 2)):
        out.append(dict(kind='native', problem=problem, n=n, threads=threads))
    def schedules(problem, n, threads, bound, opcodes, S, cap=None):
        for s in range(S):
            out.append(dict(kind='schedules', problem=problem, n=n, threads=threads, bound=bound, opcodes=opcodes, shard=[s, S], cap=cap))
    schedules('radial', 2, 2, 2, False, 32)
    for problem, n in (('3d', 2), ('axial', 4), ('axial_mag', 4), ('super', 2), ('mag', 2)):
        schedules(problem, n, 2, 1, False, 4)
    schedules('radial', 3, 3, 1, False, 8)
    if big:
        schedules('3d', 2, 2, 2, False, 32)
        schedules('3d', 3, 3, 1, False, 8)
        schedules('radial', 2, 2, 1, True, 64)
        schedules('axial', 4, 2, 1, True, 64)
        schedules('axial', 4, 2, 2, False, 64)
        schedules('axial_mag', 4, 2, 2, False, 64)
        schedules('mag', 2, 2, 2, False, 64)
        schedules('super', 2, 2, 2, False, 64)
        schedules('radial', 3, 3, 2, False, 128)
        schedules('3d', 3, 3, 2, False, 128)
        schedules('radial', 4, 4, 1, False, 16)
        schedules('3d', 2, 2, 1, True, 64)
        schedules('axial_mag', 4, 2, 1, True, 32)
    return out


def close(a, b):
    return a.shape == b.shape and np.all(np.isfinite(a)) and np.allclose(a, b, rtol=1e-8, atol=1e-9 * np.max(np.abs(b)))


def run(case, rec):
    kind = case['kind']
    if kind in ('counts', 'affinity'):
        return run_counts(case, rec)
    if kind == 'schedules':
        return run_schedules(case, rec)
    return run_native(case, rec)


def run_counts(case, rec):
    ref = None
    n = case['n']
    if case['kind'] == 'counts':
        settings = [('env', k) for k in range(1, n + 3)] + [('env', 4 * n + 5)]
    else:
        settings = [('env', 1)] + [('aff', k) for k in range(1, 2 * n + 4)] + [('none', k) for k in (None, 1, 2, 5)]
    real_aff = getattr(os, 'sched_getaffinity', None)
    real_cpu = os.cpu_count
    for how, k in settings:
        os.environ.pop('TRACEON_THREADS', None)
        try:
            if how == 'env':
                os.environ['TRACEON_THREADS'] = str(k)
            elif how == 'aff':
                os.sched_getaffinity = lambda pid, k=k: set(range(k))
            else:
                del os.sched_getaffinity
                os.cpu_count = lambda k=k: k
            fresh(so)
            got = rec.call(f'C01/{case["problem"]}/threads', lambda: make(case['problem'], n)())
        finally:
            if real_aff is not None:
                os.sched_getaffinity = real_aff
            os.cpu_count = real_cpu
            os.environ['TRACEON_THREADS'] = '1'
        rec.state((case['problem'], n, how, k))
        rec.step()
        rec.trace()
        if ref is None:
            ref = got
            rec.check(np.any(got != 0.) and np.all(np.isfinite(got)), 'C01/degenerate', lambda: f'{got}')
        else:
            rec.check(close(got, ref), f'C01/{case["problem"]}/threads-differ',
                      lambda: f'{case["problem"]} with {n} elements/samples, threads {how}={k}: {got[:6]}..., with one thread: {ref[:6]}...')
    rec.outcome(np.round(ref / np.max(np.abs(ref)), 6).tobytes())


def run_schedules(case, rec):
    os.environ['TRACEON_THREADS'] = '1'
    fresh(so)
    ref = make(case['problem'], case['n'])()
    os.environ['TRACEON_THREADS'] = str(case['threads'])
    fresh(so)
    fun = make(case['problem'], case['n'])
    vlib.call_hook = lambda name, args: sched.point()
    seen = {}

    def check(run, res, exc):
        choices = [p[2] for p in run.points]
        rec.state((case['problem'], case['opcodes'], tuple(choices)))
        rec.trace()
        pre = sum(1 for n, p, c in run.points if p and c)
        where = f'{case["problem"]} n={case["n"]} threads={case["threads"]} schedule {[(i, p[2]) for i, p in enumerate(run.points) if p[2]]} ({pre} preemptions)'
        if not rec.check(exc is None, 'C01/schedule/raised', lambda: f'{where}: {type(exc).__name__}: {exc}'):
            return
        rec.check(close(res, ref), 'C01/schedule/differs', lambda: f'{where}: {res[:6]}..., sequentially {ref[:6]}...')
        rec.outcome(np.round(res / np.max(np.abs(ref)), 6).tobytes())
    try:
        fun()  # everything that is done once per process
        st = sched.explore(fun, os.path.join(vlib.REPO, 'traceon'), case['bound'], check, opcodes=case['opcodes'], shard=case['shard'], cap=case.get('cap'))
    finally:
        vlib.call_hook = None
        os.environ['TRACEON_THREADS'] = '1'
    rec.step(st['points'])
    rec.count('schedules', st['executions'])
    rec.count('thread_switches', st['switches'])
    rec.count('capped_shards', st['capped'])
    if st['max_threads'] < 2:
        rec.count('without_threads', 1)


# -------------------------------------------------------------------------------------------------- native code

SWITCH_POINTS = 48


def run_native(case, rec):
    os.environ['TRACEON_THREADS'] = str(case['threads'])
    fresh(so_rec)
    lib = ctypes.CDLL(so_rec)
    lib.rec_stop.restype = ctypes.c_uint
    lib.rec_stop.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_uint]
    lib.sched_setup.argtypes = [ctypes.c_void_p, ctypes.c_uint, ctypes.c_int, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int]
    fun = make(case['problem'], case['n'])
    fun()
    calls = []

    def around(call, name, args):
        me = sched.managed()
        if me is None or me.i == 0:
            return call(*args)
        snap = [np.copy(a) if isinstance(a, np.ndarray) else None for a in args]
        calls.append(dict(thread=me.i, name=name, call=call, args=args, snap=snap, held=set(me.held)))
        return call(*args)
    vlib.call_around = around
    try:
        run_, res, exc = sched.execute(fun, [], os.path.join(vlib.REPO, 'traceon'))
    finally:
        vlib.call_around = None
        os.environ['TRACEON_THREADS'] = '1'
    if exc is not None:
        raise exc
    rec.count('native_calls_of_workers', len(calls))
    keys, vals = np.zeros(1 << 20, np.uint64), np.zeros(1 << 20, np.uint8)

    def restore(*cs):
        for c in cs:
            for a, s in zip(c['args'], c['snap']):
                if s is not None and a.flags.writeable:
                    a[...] = s

    def record(c):
        lib.rec_start()
        r = c['call'](*c['args'])
        n = lib.rec_stop(keys.ctypes.data, vals.ctypes.data, len(keys))
        return r, {int(k): int(v) for k, v in zip(keys[:n], vals[:n])}

    def outputs(a, b, ra, rb):
        return [np.copy(x) for c in (a, b) for x in c['args'] if isinstance(x, np.ndarray)] + [np.array([r if isinstance(r, float) else 0.]) for r in (ra, rb)]

    for a, b in itertools.combinations(calls, 2):
        if a['thread'] == b['thread'] or a['held'] & b['held']:
            continue
        # snapshots: every array as it was before the earlier of the two calls
        restore(b, a)
        ra, sa = record(a)
        rb, sb = record(b)
        want = outputs(a, b, ra, rb)
        conflicts = [g for g in sa if g in sb and (sa[g] | sb[g]) & 2]
        rec.state((case['problem'], a['name'], b['name'], 'pair', case['threads'], a['thread'], b['thread']))
        rec.step(len(sa) + len(sb))
        rec.count('native_pairs', 1)
        rec.trace()
        rec.count('native_accessed_words', len(sa) + len(sb))
        if not conflicts:
            continue
        rec.count('native_conflicting_pairs', 1)
        con = np.array(conflicts, np.uint64)
        plans = [(0, []), (1, [])] + [(f, [(f, k, 1 - f)]) for f in (0, 1) for k in range(SWITCH_POINTS)] + \
                [(f, [(f, k, 1 - f), (1 - f, j, f)]) for f in (0, 1) for k in range(12) for j in range(12)]
        for first, sw in plans:
            restore(b, a)
            w, at, to = np.array([s[0] for s in sw], np.int32), np.array([s[1] for s in sw], np.int64), np.array([s[2] for s in sw], np.int32)
            lib.sched_setup(con.ctypes.data, len(con), first, 2, w.ctypes.data, at.ctypes.data, to.ctypes.data, len(sw))
            rr = [None, None]

            def go(i, c):
                lib.sched_enter(i)
                rr[i] = c['call'](*c['args'])
                lib.sched_leave(i, 1)
            import threading
            ts = [threading.Thread(target=go, args=(i, c)) for i, c in enumerate((a, b))]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
            counts = (ctypes.c_long * 16)()
            lib.sched_end(counts)
            got = outputs(a, b, *rr)
            rec.state((case['problem'], a['name'], b['name'], first, tuple(sw)))
            rec.trace()
            rec.count('native_interleavings', 1)
            ok = all(np.allclose(x, y, rtol=1e-9, atol=1e-9 * max(1e-300, np.max(np.abs(y)) if y.size else 0)) for x, y in zip(got, want))
            if not rec.check(ok, 'C01/native/differs', lambda: f'{a["name"]} of one worker and {b["name"]} of another, interleaved natively (first {first}, hand-overs {sw}), '
                             f'give another result than one after the other; {len(conflicts)} shared memory words are written'):
                return
