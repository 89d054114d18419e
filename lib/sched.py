"""A controlled scheduler for Python threads, and a preemption bounded exhaustive exploration of their schedules.

install() replaces threading.Thread/Lock/RLock (and thereby Condition, Event, Semaphore, Queue, ThreadPoolExecutor) before the
package under test is imported. Outside run() everything behaves as usual. Inside run() one thread at a time holds the token;
it may lose it at scheduling points: every traced Python line (or opcode) of the package, every native call, every
lock operation, thread start, join and end. Which thread continues at a point is decided by a list of choices."""

import os, sys, threading, time, _thread

_RealThread, _RealLock, _RealRLock = threading.Thread, _thread.allocate_lock, _thread.RLock
_local = _thread._local()
current = None            # the active Run


class Diverged(Exception):
    pass


class Abort(BaseException):
    pass


class _T:
    def __init__(self, i):
        self.i, self.go, self.finished, self.blocked, self.held = i, _RealLock(), False, None, set()
        self.go.acquire()


class Run:
    def __init__(self, prefix, root, opcodes=False, max_points=200000):
        self.prefix, self.root, self.opcodes, self.max_points = prefix, root, opcodes, max_points
        self.threads, self.points, self.steps, self.switches, self.deadlock = [], [], 0, 0, False
        self.running = None

    # -- called by the thread that holds the token
    def enabled(self, me):
        e = [t for t in self.threads if not t.finished and t.blocked is None]
        if me in e:
            e.remove(me)
            e.insert(0, me)
        return e

    def pick(self, me, yielding=False):
        e = self.enabled(me)
        if not e:
            return None
        if yielding and len(e) > 1 and e[0] is me:
            e = e[1:] + [me]
        if len(e) == 1:
            return e[0]
        n = len(self.points)
        if n < len(self.prefix):
            c = self.prefix[n]
            if c >= len(e):
                raise Diverged(f'choice {c} of {len(e)} at point {n}')
        else:
            c = 0
        self.points.append((len(e), e[0] is me and not yielding, c))
        if len(self.points) > self.max_points:
            raise Diverged('horizon of the exploration exceeded')
        return e[c]

    def point(self, me, yielding=False):
        self.steps += 1
        if me is self.main and not any(not t.finished for t in self.threads[1:]):
            return
        nxt = self.pick(me, yielding)
        if nxt is not me:
            self.give(me, nxt)

    def give(self, me, nxt):
        self.switches += 1
        self.running = nxt
        nxt.go.release()
        me.go.acquire()
        if self.deadlock:
            raise Abort()

    def block(self, me, on):
        """me cannot continue before somebody calls wake(on)."""
        me.blocked = on
        nxt = self.pick(me)
        if nxt is None:
            self.deadlock = True
            raise RuntimeError('deadlock: no thread can continue')
        self.give(me, nxt)

    def wake(self, on):
        for t in self.threads:
            if t.blocked is on:
                t.blocked = None

    def finish(self, me):
        me.finished = True
        self.wake(me)
        nxt = self.pick(me)
        if nxt is not None:
            self.running = nxt
            nxt.go.release()
        elif not self.main.finished:
            self.deadlock = True
            self.main.go.release()

    # -- tracing
    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        me = getattr(_local, 't', None)
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False

        def local(frame, event, arg):
            if event in ('line', 'opcode') and not getattr(_local, 'bypass', 0):
                self.point(me)
            return local
        return local


def managed():
    if current is None or getattr(_local, 'run', None) is not current or getattr(_local, 'bypass', 0):
        return None
    return _local.t


class bypass:
    def __enter__(self):
        _local.bypass = getattr(_local, 'bypass', 0) + 1

    def __exit__(self, *a):
        _local.bypass -= 1


class CThread(_RealThread):
    def start(self):
        me = managed()
        if me is None:
            return super().start()
        run = current
        t = _T(len(run.threads))
        self._ct, self._crun = t, run
        run.threads.append(t)
        with bypass():
            super().start()
        run.point(me)

    def run(self):
        t = getattr(self, '_ct', None)
        if t is None:
            return super().run()
        run = self._crun
        t.go.acquire()
        if run.deadlock:
            return
        _local.run, _local.t, _local.bypass = run, t, 0
        sys.settrace(run.tracer)
        try:
            super().run()
        except Abort:
            pass
        finally:
            sys.settrace(None)
            _local.run = None
            if not run.deadlock:
                run.finish(t)

    def join(self, timeout=None):
        me = managed()
        t = getattr(self, '_ct', None)
        if me is None or t is None:
            return super().join(timeout)
        current.point(me, yielding=timeout is not None)
        if timeout is not None:     # may time out at any moment: let the others be scheduled first, at no cost
            return
        while not t.finished:
            current.block(me, t)
        with bypass():
            super().join()

    def is_alive(self):
        me = managed()
        t = getattr(self, '_ct', None)
        if me is None or t is None:
            return super().is_alive()
        current.point(me, yielding=True)
        return not t.finished


class CLock:
    def __init__(self):
        self._l = _RealLock()
        self._holder = None

    def acquire(self, blocking=True, timeout=-1):
        me = managed()
        if me is None:
            return self._l.acquire(blocking, timeout)
        current.point(me)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                current.point(me, yielding=True)
                return self._l.acquire(False)
            current.block(me, self)
        self._holder = me
        me.held.add(id(self))
        return True

    def release(self):
        if self._holder is not None:
            self._holder.held.discard(id(self))
            self._holder = None
        self._l.release()
        if managed() is not None:
            current.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _RealLock()


class CRLock:
    def __init__(self):
        self._b, self._o, self._n = CLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        if self._b.acquire(blocking, timeout):
            self._o, self._n = me, 1
            return True
        return False

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._o = None
            self._b.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        s, self._n, self._o = (self._n, self._o), 0, None
        self._b.release()
        return s

    def _acquire_restore(self, s):
        self._b.acquire()
        self._n, self._o = s

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._o, self._n = None, 0


def install():
    import queue, concurrent.futures.thread, logging  # imported with the real primitives
    threading.Thread = CThread
    threading.Lock = threading._allocate_lock = CLock
    threading.RLock = CRLock
    queue.SimpleQueue = queue._PySimpleQueue


def point():
    """A scheduling point that is not a traced line (native call)."""
    me = managed()
    if me is not None:
        current.point(me)


def execute(fun, prefix, root, opcodes=False):
    """Run fun() under the schedule given by the choices; returns (Run, result, exception)."""
    global current
    run = Run(list(prefix), root, opcodes)
    t = _T(0)
    run.threads.append(t)
    run.main, run.running = t, t
    result, exc = None, None
    _local.run, _local.t, _local.bypass = run, t, 0
    current = run
    hook, threading.excepthook = threading.excepthook, lambda a: None
    sys.settrace(run.tracer)
    try:
        result = fun()
    except Diverged:
        raise
    except BaseException as e:
        exc = e
    finally:
        sys.settrace(None)
        _local.run = None
        if run.deadlock:
            for o in run.threads[1:]:
                if not o.finished:
                    o.go.release()
        else:
            # threads that are left over run to their end, in order, outside the observation
            left = [o for o in run.threads[1:] if not o.finished]
            run.left = len(left)
            t.finished = True
            e = [o for o in left if o.blocked is None]
            if e:
                run.prefix = run.prefix[:len(run.points)]
                run.running = e[0]
                e[0].go.release()
                while any(not o.finished and o.blocked is None for o in run.threads[1:]):
                    time.sleep(0.0005)
        current = None
        threading.excepthook = hook
    return run, result, exc


def explore(fun, root, bound, check, opcodes=False, shard=(0, 1), cap=None):
    """All schedules with at most `bound` preemptions that extend the default one; check(run, result, exc) judges each.
    Shards divide the first deviations from the default schedule. Returns statistics."""
    st = dict(executions=0, points=0, switches=0, capped=0, max_threads=0)

    def one(prefix):
        run, res, exc = execute(fun, prefix, root, opcodes)
        if len(run.points) < len(prefix):
            raise Diverged('the execution ended before its prefix')
        st['executions'] += 1
        st['points'] += len(run.points)
        st['switches'] += run.switches
        st['max_threads'] = max(st['max_threads'], len(run.threads))
        check(run, res, exc)
        return run

    # what is done only once per process (imports, caches, instrumentation of the interpreter) is over when the default repeats
    again, r1, e1 = execute(fun, [], root, opcodes)
    for _ in range(6):
        root_run, r0, e0 = again, r1, e1
        again, r1, e1 = execute(fun, [], root, opcodes)
        if [p[:2] for p in again.points] == [p[:2] for p in root_run.points]:
            break
    if [p[:2] for p in again.points] != [p[:2] for p in root_run.points]:
        raise Diverged('the default schedule does not repeat')
    if shard[0] == 0:
        st['executions'] += 1
        st['points'] += len(root_run.points)
        st['max_threads'] = len(root_run.threads)
        check(root_run, r0, e0)

    def deviations(run, start):
        cost = 0
        for i, (n, preempt, c) in enumerate(run.points):
            if i >= start:
                for alt in range(1, n):
                    yield i, alt, cost + (1 if preempt else 0)
            if c and preempt:
                cost += 1
    stack = []
    for k, (i, alt, cost) in enumerate(deviations(root_run, 0)):
        if cost <= bound and k % shard[1] == shard[0]:
            stack.append([p[2] for p in root_run.points[:i]] + [alt])
    stack.reverse()
    while stack:
        if cap and st['executions'] >= cap:
            st['capped'] = 1
            break
        prefix = stack.pop()
        run = one(prefix)
        new = []
        for i, alt, cost in deviations(run, len(prefix)):
            if cost <= bound:
                new.append([p[2] for p in run.points[:i]] + [alt])
        stack.extend(reversed(new))
    return st
