"""Shared machinery of the checks: building the native backend from /repo's working tree into a scratch
directory, importing /repo's Python against it, running a bounded exhaustive exploration in worker
processes, and turning the outcome into a verdict, an evidence file and a replay file."""

import atexit, ctypes, hashlib, json, os, pickle, select, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CSRC = os.path.join('traceon', 'backend', 'traceon-backend.c')
RELEASE_FLAGS = ['-O3', '-mavx', '-ffast-math', '-DNDEBUG']  # the flags of setup.py on Linux

scratch = None


def make_scratch():
    global scratch
    scratch = tempfile.mkdtemp(prefix='verif_traceon_')
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    return scratch


def _cc():
    for cc in ('clang', 'clang-18', 'gcc'):
        if shutil.which(cc):
            return cc
    raise RuntimeError('no C compiler found')


def build_backend(flags=None, extra_sources=(), name='traceon_backend', link_flags=()):
    """Compile /repo's current C sources to a shared library in the scratch directory."""
    out = os.path.join(scratch, name + '.so')
    obj = os.path.join(scratch, name + '.o')
    src = os.path.join(REPO, CSRC)
    flags = RELEASE_FLAGS if flags is None else flags
    cc = _cc()
    r = subprocess.run([cc, '-fPIC', '-w', '-c', src, '-o', obj] + flags, capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        raise RuntimeError('the backend does not compile:\n' + r.stderr[-3000:])
    r = subprocess.run([cc, '-shared', '-o', out, obj] + list(extra_sources) + list(link_flags) + ['-lm'],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('the backend does not link:\n' + r.stderr[-3000:])
    return out


# --------------------------------------------------------------------------------------------------
# Importing the package under test. Every call into the native library goes through call_hook (if set),
# which is the seam used as scheduling point and for fault injection.

call_hook = None      # called before every native call: call_hook(name, args)
call_around = None    # if set, makes every native call: call_around(call, name, args) -> result


def import_traceon(so):
    import os.path
    real_cdll, real_isfile = ctypes.CDLL, os.path.isfile

    class HookedCDLL(real_cdll):
        def __init__(self, name, *a, **k):
            super().__init__(so, *a, **k)
            base = self._FuncPtr

            class Hooked(base):
                _flags_ = base._flags_
                _restype_ = base._restype_

                def __call__(self, *args):
                    h = call_hook
                    if h is not None:
                        h(getattr(self, '__name__', '?'), args)
                    if call_around is not None:
                        return call_around(lambda *a: base.__call__(self, *a), getattr(self, '__name__', '?'), args)
                    return base.__call__(self, *args)
            self._FuncPtr = Hooked

    def cdll(name, *a, **k):
        if name is not None and 'traceon_backend' in os.path.basename(str(name)):
            return HookedCDLL(name, *a, **k)
        return real_cdll(name, *a, **k)

    def isfile(p):
        try:
            s = os.fspath(p)
        except TypeError:
            return real_isfile(p)
        if isinstance(s, str) and os.path.basename(s).startswith('traceon_backend') and s.startswith(REPO):
            return True
        return real_isfile(p)

    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    ctypes.CDLL, os.path.isfile = cdll, isfile
    try:
        import traceon
        import traceon.backend, traceon.excitation, traceon.focus, traceon.geometry, traceon.interpolation
        import traceon.logging, traceon.mesher, traceon.solver, traceon.tracing, traceon.util
    finally:
        ctypes.CDLL, os.path.isfile = real_cdll, real_isfile
    assert os.path.realpath(traceon.__file__).startswith(os.path.realpath(REPO) + '/'), traceon.__file__
    return traceon


def forget_traceon():
    """The next import_traceon executes the package's modules anew."""
    for k in [k for k in sys.modules if k == 'traceon' or k.startswith('traceon.')]:
        del sys.modules[k]


def silence(t):
    t.logging.set_log_level(t.logging.LogLevel.SILENT)


# --------------------------------------------------------------------------------------------------

class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key


def _h(obj):
    if isinstance(obj, bytes):
        b = obj
    else:
        b = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'little')


class Rec:
    """What one case of the exploration reports."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.evals = 0
        self.outcomes = set()
        self.violations = []
        self.counters = {}
        self.notes = []

    def state(self, obj):
        self.states.add(_h(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.validated += n

    def outcome(self, obj):
        self.outcomes.add(_h(obj))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, message, stop=True):
        self.violations.append((key, str(message)[:2000]))
        if len(self.violations) > 20 and stop:
            raise StopCase()

    def check(self, cond, key, message):
        self.evals += 1
        if not cond:
            self.violation(key, message() if callable(message) else message)
        return bool(cond)

    def call(self, key, fun, *a, **k):
        """Run code under test that has to succeed."""
        try:
            return fun(*a, **k)
        except (Violation, StopCase):
            raise
        except Exception as e:
            raise Violation(key + '/raised', f'{key}: unexpected {type(e).__name__}: {e}\n' + _tb(e))

    def raises(self, key, fun, *a, **k):
        """Run code under test that has to be rejected."""
        self.evals += 1
        try:
            r = fun(*a, **k)
        except (Violation, StopCase):
            raise
        except Exception:
            return True
        self.violation(key + '/accepted', f'{key}: accepted, returned {r!r:.300}')
        return False


class StopCase(Exception):
    pass


def _tb(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])


def run_case(mod, case):
    rec = Rec()
    harness_error = None
    try:
        mod.run(case, rec)
    except StopCase:
        pass
    except Violation as v:
        rec.violations.append((v.key, str(v)))
    except Exception as e:
        tb = e.__traceback__
        frames = []
        while tb:
            frames.append(tb.tb_frame.f_code.co_filename)
            tb = tb.tb_next
        in_repo = any(os.path.realpath(f).startswith(os.path.realpath(REPO) + '/') for f in frames)
        if in_repo or not isinstance(e, (AttributeError, ImportError, NameError, KeyError)):
            rec.violations.append((f'{mod.PROPERTY}/exception/{type(e).__name__}', _tb(e)))
        else:
            harness_error = _tb(e)
    return rec, harness_error


def _worker(mod, cases, rfd, wfd):
    w = os.fdopen(wfd, 'wb', buffering=0)

    def send(obj):
        b = pickle.dumps(obj)
        w.write(struct.pack('<Q', len(b)) + b)
    while True:
        b = os.read(rfd, 8)
        if len(b) < 8:
            break
        i = struct.unpack('<q', b)[0]
        rec, err = run_case(mod, cases[i])
        send((i, rec, err))
    w.close()
    sys.stdout.flush()
    os._exit(0)


def explore(mod, cases, workers=8, case_timeout=240, budget=None):
    """Run every case; a case whose process dies or does not end is a violation of that case."""
    results, errors = {}, []
    t0 = time.time()
    queue = list(range(len(cases)))[::-1]
    procs = {}
    failed = [0]

    def spawn(k):
        r, w = os.pipe()
        cr, cw = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(cw)
            for p in procs.values():
                os.close(p['cw'])
                os.close(p['r'])
            try:
                _worker(mod, cases, cr, w)
            except BaseException:
                traceback.print_exc()
                os._exit(97)
        os.close(w)
        os.close(cr)
        procs[k] = dict(pid=pid, r=r, cw=cw, buf=b'', cur=None, t=time.time())
        feed(k)

    def feed(k):
        p = procs[k]
        if p['cw'] is None:
            return
        if queue and failed[0] < 8:
            p['cur'], p['t'] = queue.pop(), time.time()
            try:
                os.write(p['cw'], struct.pack('<q', p['cur']))
            except BrokenPipeError:
                pass
        else:
            os.close(p['cw'])
            p['cw'] = None

    def lost(k, why, kill=False):
        p = procs.pop(k)
        if kill:
            try:
                os.kill(p['pid'], signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(p['pid'], 0)
        os.close(p['r'])
        if p['cw'] is not None:
            os.close(p['cw'])
        i = p['cur']
        if i is None:
            if st != 0:
                errors.append(f'worker {k} ended with status {st} outside a case')
            return
        sig = st & 0x7f
        if why is None and not sig and (st >> 8) == 97:
            errors.append(f'worker {k} failed in case {i}')
            return
        rec = Rec()
        msg = why or (f'the process was ended by signal {sig}' if sig else f'the process exited with status {st >> 8}')
        rec.violations.append((f'{mod.PROPERTY}/process-lost', msg))
        results[i] = rec
        failed[0] += 1
        if failed[0] < 8 and queue:
            spawn(k)

    for k in range(workers):
        if queue:
            spawn(k)
    while procs:
        fds = {p['r']: k for k, p in procs.items()}
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        now = time.time()
        for fd in rd:
            k = fds[fd]
            p = procs[k]
            data = os.read(fd, 1 << 20)
            if not data:
                lost(k, None)
                continue
            p['buf'] += data
            while len(p['buf']) >= 8:
                n = struct.unpack('<Q', p['buf'][:8])[0]
                if len(p['buf']) < 8 + n:
                    break
                i, rec, err = pickle.loads(p['buf'][8:8 + n])
                p['buf'] = p['buf'][8 + n:]
                results[i] = rec
                if err:
                    errors.append(f'case {i}: {err}')
                p['cur'] = None
                feed(k)
        for k in list(procs):
            p = procs[k]
            if p['cur'] is not None and now - p['t'] > case_timeout:
                lost(k, f'no end of the case within {case_timeout} s', kill=True)
        if budget and now - t0 > budget:
            # Enough is known if something failed; otherwise the exploration was not completed.
            for k in list(procs):
                p = procs.pop(k)
                os.kill(p['pid'], signal.SIGKILL)
                os.waitpid(p['pid'], 0)
                os.close(p['r'])
            errors.append(f'exploration not finished within {budget} s: {len(results)} of {len(cases)} cases')
    return results, errors


# --------------------------------------------------------------------------------------------------

def known_findings(prop):
    """Lines `finding: property=<id> key=<key> :: <what fails>` of /verif/known_findings.txt."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, what = line[len('finding:'):].partition('::')
            d = dict(x.split('=', 1) for x in head.split())
            if d.get('property') == prop:
                out[d['key']] = what.strip()
    return out


def write_evidence(prop, tier, seed, level, coverage, wall):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    tmp = path + f'.tmp{os.getpid()}'
    with open(tmp, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 3)), f, indent=1)
        f.write('\n')
    os.replace(tmp, path)


def main(mod, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--replay' in argv:
        replay = json.load(open(argv[argv.index('--replay') + 1]))
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    make_scratch()
    mod.setup(tier, seed)
    if replay is not None:
        cases = [replay['case']]
    else:
        cases = mod.cases(tier, seed)
        if '--only' in argv:
            sub = argv[argv.index('--only') + 1]
            cases = [c for c in cases if sub in json.dumps(c)]
    prop = mod.PROPERTY
    results, errors = explore(mod, cases, workers=min(workers, max(1, len(cases))),
                              case_timeout=getattr(mod, 'CASE_TIMEOUT', 240),
                              budget=getattr(mod, 'BUDGET', {}).get(tier, 840 if tier == 'quick' else None))
    known = known_findings(prop)
    bad, hit = [], {}
    states, outcomes, transitions, validated, evals, counters = set(), set(), 0, 0, 0, {}
    for i in sorted(results):
        r = results[i]
        states |= r.states
        outcomes |= r.outcomes
        transitions += r.transitions
        validated += r.validated
        evals += r.evals
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        for key, msg in r.violations:
            if key in known:
                hit.setdefault(key, (i, msg))
            else:
                bad.append((i, key, msg))
    for key, what in known.items():
        if key in hit:
            print(f'KNOWN-FINDING: property={prop} {key}: {what}')
        elif replay is None and '--only' not in argv:
            print(f'note: the listed finding {key} was not met in this run')
    step = max(1, len(cases) // 4)
    samples = [cases[i] for i in range(0, len(cases), step)][:5]
    if getattr(mod, 'LEVEL', 'model_checking') in ('exploration', 'fault_enumeration'):
        cov = dict(evaluations=evals, distinct_nontrivial=len(states), rule=mod.RULE, samples=samples)
    else:
        cov = dict(states=len(states), transitions=transitions, traces_validated_against_impl=validated, samples=samples,
                   rule=mod.RULE, comparisons=evals)
    cov.update(cases=len(results), cases_planned=len(cases), distinct_outcomes=len(outcomes), violations=len(bad),
               known_findings_met=sorted(hit), harness_errors=len(errors))
    cov.update(counters)
    if replay is None and '--only' not in argv:
        write_evidence(prop, tier, seed, getattr(mod, 'LEVEL', 'model_checking'), cov, time.time() - t0)
    print(f'{prop} [{tier}] cases={len(results)}/{len(cases)} states={len(states)} transitions={transitions} '
          f'traces={validated} comparisons={evals} outcomes={len(outcomes)} {counters} wall={time.time()-t0:.1f}s')
    if bad:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        i, key, msg = bad[0]
        path = os.path.join(d, f'{prop}-{_h((key, json.dumps(cases[i], sort_keys=True))):016x}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, key=key, message=msg, case=cases[i],
                           how=f'bash /verif/check.sh {prop} --replay {path}'), f, indent=1)
            f.write('\n')
        seen = {}
        for i, key, msg in bad:
            seen.setdefault(key, []).append((i, msg))
        for key in list(seen)[:12]:
            i, msg = seen[key][0]
            print(f'  {key} ({len(seen[key])}x) first in case {json.dumps(cases[i])[:300]}:\n    ' + msg.replace('\n', '\n    ')[:1500])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        print('harness error:\n' + '\n'.join(errors[:3]))
        return 2
    return 0
