"""A failing worker surfaces: every single fault and every pair of faults of the calls a computation makes, for every number of
threads and (for single faults) every schedule within a preemption bound."""
import itertools, os, threading
import numpy as np
import vlib, sched, c01

PROPERTY = 'C02'
LEVEL = 'fault_enumeration'
RULE = ('One evaluation per execution with faults: a fault is the j-th native call, the k-th evaluation of a Python callback, or the start of the '
        'k-th thread raising one of the listed exceptions. Distinct: (problem, size, threads, fault set, schedule). Every fault set contains at '
        'least one fault that is reached.')
CASE_TIMEOUT = 600


def setup(tier, seed):
    global so
    sched.install()
    so = vlib.build_backend()
    os.environ['TRACEON_THREADS'] = '1'


class Fault(Exception):
    pass


KINDS = {'runtime': RuntimeError, 'memory': MemoryError, 'assert': AssertionError, 'value': ValueError}


def cases(tier, seed):
    out = []
    big = tier == 'thorough'
    for problem, ns in (('radial', (1, 2, 3, 4)), ('3d', (1, 2, 3, 4)), ('mag', (2, 4)), ('super', (2, 3)), ('axial', (3, 4, 5)), ('axial_mag', (3, 4)),
                        ('radial_diel', (3,)), ('3d_diel', (3,))):
        for n in ns:
            for threads in range(1, n + 3):
                out.append(dict(kind='native', problem=problem, n=n, threads=threads, pairs=n <= (3 if not big else 5)))
    for n in (3, 5):
        for threads in (1, 2, 3, n, n + 2):
            for mag in (False, True):
                out.append(dict(kind='callback', n=n, threads=threads, mag=mag))
    for problem, n in (('radial', 4), ('3d', 3), ('axial', 4), ('axial_mag', 4)):
        for threads in (1, 2, 3, 4):
            out.append(dict(kind='start', problem=problem, n=n, threads=threads))
    for problem, n, threads, shards in (('radial', 2, 2, 8), ('3d', 2, 2, 8), ('axial', 4, 2, 8), ('radial', 3, 3, 8)):
        for s in range(shards):
            out.append(dict(kind='schedules', problem=problem, n=n, threads=threads, bound=2 if big and n < 3 else 1, shard=[s, shards]))
    return out


def fresh():
    vlib.forget_traceon()
    c01.t = vlib.import_traceon(so)
    vlib.silence(c01.t)
    return c01.t


def set_threads(k):
    os.environ['TRACEON_THREADS'] = str(k)


def judge(rec, problem, where, res, exc, ref):
    """An exception, or (a computation that was repeated) the full result."""
    rec.evals += 1
    rec.trace()
    rec.outcome(type(exc).__name__ if exc is not None else 'returned')
    if exc is None and not (isinstance(res, np.ndarray) and c01.close(res, ref)):
        rec.violation(f'C02/{problem}/silent', f'{where}: no exception; returned {str(res)[:200]}, without the fault {ref[:6]}')


def run(case, rec):
    try:
        return {'native': run_native, 'callback': run_callback, 'start': run_start, 'schedules': run_schedules}[case['kind']](case, rec)
    finally:
        vlib.call_hook = vlib.call_around = None
        set_threads(1)


class Faulty:
    """Counts native calls and makes chosen ones fail: before they do anything, after they have done their work, or from then on
    every call of the same worker ('stays')."""
    def __init__(self, at=(), kind='runtime', mode='before'):
        self.at, self.kind, self.mode, self.n, self.log = set(at), kind, mode, 0, []
        self.hit = 0
        self.broken = set()

    def around(self, call, name, args):
        j, self.n = self.n, self.n + 1
        me = sched.managed()
        i = me.i if me is not None else 0
        self.log.append((name, i))
        if j in self.at or (i, name) in self.broken:
            self.hit += 1
            if self.mode == 'stays':
                self.broken.add((i, name))
            if self.mode == 'after':
                call(*args)
            raise KINDS[self.kind](f'planted fault in native call {j} ({name})')
        return call(*args)


def execute(fun, hook, choices=()):
    vlib.call_around = hook.around if hook is not None else None
    try:
        _, res, exc = sched.execute(fun, list(choices), os.path.join(vlib.REPO, 'traceon'))
    finally:
        vlib.call_around = None
    return res, exc


def run_native(case, rec):
    problem, n = case['problem'], case['n']
    set_threads(1)
    fresh()
    ref = c01.make(problem, n)()
    set_threads(case['threads'])
    fresh()
    fun = c01.make(problem, n)
    hook = Faulty()
    res, exc = execute(fun, hook)
    if exc is not None:
        raise exc
    rec.check(c01.close(res, ref), f'C02/{problem}/reference', lambda: f'without fault: {res[:6]} and {ref[:6]}')
    total, log = hook.n, hook.log
    workers = [j for j, (name, th) in enumerate(log) if th != 0]
    rec.count('native_calls', total)
    rec.count('native_calls_of_workers', len(workers))
    # the calls of the calling thread that come in long runs (one per element or probe) are represented by a prefix and the last
    runs, single = {}, []
    for j, (name, th) in enumerate(log):
        runs.setdefault((name, th), []).append(j)
    for (name, th), js in runs.items():
        single += js if th != 0 else sorted(set(js[:4] + js[-1:]))
    plans = [((j,), k, 'before') for j in sorted(set(single)) for k in (KINDS if j in workers else ('runtime',))]
    plans += [((j,), k, m) for j in workers for k in KINDS for m in ('after', 'stays')]
    if case['pairs']:
        plans += [(p, 'runtime', m) for p in itertools.combinations(workers, 2) for m in ('before', 'stays')]
        plans += [(p, 'runtime', 'before') for p in itertools.combinations(workers, 3) if len(workers) <= 6]
    if len(workers) > 1:
        plans.append((tuple(workers), 'value', 'before'))
    for at, kind, mode in plans:
        h = Faulty(at, kind, mode)
        res, exc = execute(fun, h)
        rec.step()
        if not h.hit:
            continue
        rec.state((problem, n, case['threads'], at, kind, mode))
        judge(rec, problem, f'{problem} n={n} threads={case["threads"]}, {kind} fault ({mode}) in native calls {[log[j] for j in at]}', res, exc, ref)
    res, exc = execute(fun, Faulty())
    rec.check(exc is None and c01.close(res, ref), f'C02/{problem}/after-fault', lambda: f'{problem} after a failed computation: {exc!r} {res}, expected {ref[:6]}')


def run_callback(case, rec):
    """Fields whose own derivative function fails at chosen samples (a user's field class)."""
    set_threads(1)
    t = fresh()
    solve = t.solver.solve_direct
    base = solve(c01.ex_mag(4) if case['mag'] else c01.ex_radial(4))
    bad = set()

    class Mine(t.solver.FieldRadialBEM):
        def get_electrostatic_axial_potential_derivatives(self, z):
            if not case['mag'] and bad & {float(x) for x in np.atleast_1d(z)}:
                raise Fault('electric')
            return super().get_electrostatic_axial_potential_derivatives(z)

        def get_magnetostatic_axial_potential_derivatives(self, z):
            if case['mag'] and bad & {float(x) for x in np.atleast_1d(z)}:
                raise Fault('magnetic')
            return super().get_magnetostatic_axial_potential_derivatives(z)
    field = Mine(base.electrostatic_point_charges, base.magnetostatic_point_charges, base.current_point_charges)
    n = case['n']

    def fun():
        ax = t.interpolation.FieldRadialAxial(field, -1.5, 2.5, N=n)
        return np.concatenate([c01.observe(ax, [(0., 0., z) for z in np.linspace(-1.45, 2.37, 9)], case['mag'])])
    ref = fun()
    set_threads(case['threads'])
    zs = [float(z) for z in np.linspace(-1.5, 2.5, n)]
    for r in (1, 2, n):
        for sub in itertools.combinations(zs, r):
            bad.clear()
            bad.update(sub)
            res, exc = execute(fun, None)
            rec.step()
            rec.state(('callback', n, case['threads'], case['mag'], sub))
            judge(rec, 'callback', f'derivatives of a field class fail at z={sub}, {n} samples, {case["threads"]} threads', res, exc, ref)
    bad.clear()
    res, exc = execute(fun, None)
    rec.check(exc is None and c01.close(res, ref), 'C02/callback/after-fault', lambda: f'{exc!r} {res}')


def run_start(case, rec):
    """The system refuses to start the k-th thread."""
    set_threads(1)
    fresh()
    ref = c01.make(case['problem'], case['n'])()
    set_threads(case['threads'])
    fresh()
    fun = c01.make(case['problem'], case['n'])
    cls = threading.Thread
    real, count, at = cls.start, [0], [None]

    def start(self):
        j, count[0] = count[0], count[0] + 1
        if at[0] is not None and j in at[0]:
            raise RuntimeError("can't start new thread")
        return real(self)
    cls.start = start
    try:
        fun()
        total = count[0]
        rec.count('thread_starts', total)
        for r in (1, 2):
            for sub in itertools.combinations(range(total), r):
                at[0], count[0] = sub, 0
                try:
                    res, exc = fun(), None
                except Exception as e:
                    res, exc = None, e
                rec.step()
                rec.state(('start', case['problem'], case['n'], case['threads'], sub))
                judge(rec, 'start', f'{case["problem"]} n={case["n"]}: starting thread {sub} of {total} fails', res, exc, ref)
        if not total:
            rec.state(('start', case['problem'], case['n'], case['threads'], None))
    finally:
        cls.start = real


def run_schedules(case, rec):
    problem, n = case['problem'], case['n']
    set_threads(1)
    fresh()
    ref = c01.make(problem, n)()
    set_threads(case['threads'])
    fresh()
    fun = c01.make(problem, n)
    hook = Faulty()
    execute(fun, hook)
    workers = [j for j, (name, th) in enumerate(hook.log) if th != 0]
    names = sorted({(hook.log[j][1], hook.log[j][0]) for j in workers})
    for wname in names:
        k = [0]

        def h(name, args):
            me = sched.managed()
            sched.point()
            if me is not None and (me.i, name) == wname:
                raise RuntimeError('planted fault')

        def check(run_, res, exc):
            choices = [p[2] for p in run_.points]
            rec.state((problem, n, case['threads'], wname, tuple(choices)))
            judge(rec, problem, f'{problem} n={n} threads={case["threads"]}: {wname} fails, schedule {[(i, c) for i, c in enumerate(choices) if c]}', res, exc, ref)
        vlib.call_hook = h
        try:
            st = sched.explore(fun, os.path.join(vlib.REPO, 'traceon'), case['bound'], check, shard=case['shard'])
        finally:
            vlib.call_hook = None
        rec.step(st['points'])
        rec.count('schedules', st['executions'])
