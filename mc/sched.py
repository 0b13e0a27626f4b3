"""Controlled scheduler: runs real multi-threaded code one thread at a time.

Stateless model checking of the real implementation.  The code under test
imports the shim modules below instead of `threading`, `queue` and `time`
(`queue` is the interpreter's own queue.py executed over the shimmed locks).
Each controlled thread is a real OS thread that owns a baton; only the holder
of the baton runs.  Every synchronisation operation is a scheduling point, at
which a `World` consults the explorer for who runs next.  Time is virtual: it
advances only when every thread is blocked (or, as an explored deviation, when
the explorer decides that a timer fires early).

`explore()` enumerates all schedules with at most `bound` deviations (a
deviation is a preemption of a runnable thread, an early timer or a
non-default environment answer; with delay=True also every departure from the
fixed order in which threads run when the running one blocks), depth first, by re-execution.
"""
import _thread
import gc
import importlib.util
import os
import queue as _real_queue
import sys
import threading as _rt
import time as _rtime
import types
import weakref

_WORLD = None  # the world being executed, or None


class Abort(BaseException):
    """Unwinds a controlled thread at the end of an execution."""


class Divergence(Exception):
    """A replayed prefix met a different set of choices: harness error."""


class VThread:
    __slots__ = (
        "world", "id", "name", "baton", "pred", "deadline", "timed_out",
        "done", "real", "blocked", "exc", "where", "parent",
    )

    def __init__(self, world, id, name):
        self.world, self.id, self.name = world, id, name
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.blocked = False
        self.real = None
        self.exc = None
        self.where = ""

    def enabled(self):
        if self.done:
            return False
        if not self.blocked:
            return True
        if self.timed_out:
            return True
        return self.pred is not None and bool(self.pred())


_tls = _rt.local()


def me():
    """The controlled thread running this code, if the current world owns it."""
    t = getattr(_tls, "vt", None)
    if t is None or t.world is not _WORLD or _WORLD is None:
        return None
    return t


class World:
    """One execution."""

    def __init__(self, prefix=(), bound=2, max_steps=4000, early_timers=False,
                 lines=None, grace=6, delay=False):
        self.prefix = list(prefix)
        self.bound = bound
        self.delay = delay  # choosing among the others at a block costs one, too
        self.max_steps = max_steps
        self.early_timers = early_timers
        self.lines = lines
        self.grace = grace  # timer firings granted after the driver ended
        self.threads = []
        self.now = 1000.0
        self.choices = []  # (taken, n_options, costs, label)
        self.steps = 0
        self.aborting = False
        self.end = None  # 'ok' | 'deadlock' | 'horizon'
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.trace = []
        self.started_threads = 0
        self.cost = 0
        self.post = False  # the driver has ended
        self.post_timers = 0
        self.errors = []
        self.log = []

    # -- choice points ---------------------------------------------------
    def _choose(self, n, costs, label):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {c} of {n} at {i} ({label})")
        else:
            c = 0
        self.choices.append((c, n, costs, label))
        self.cost += costs[c]
        return c

    def env(self, n, label, free=False):
        """Environment answer: 0 is the default, others cost one deviation."""
        t = me()
        if t is None or n <= 1 or self.aborting:
            return 0
        return self._choose(n, [0] + [0 if free else 1] * (n - 1), "env:" + label)

    def _options(self, cur):
        opts = []
        if cur is not None and cur.enabled():
            opts.append(cur)
        for t in self.threads:
            if t is not cur and t.enabled():
                opts.append(t)
        return opts

    def _timers(self):
        ts = [t for t in self.threads
              if not t.done and t.blocked and not t.timed_out and t.deadline is not None]
        ts.sort(key=lambda t: (t.deadline, t.id))
        return ts

    def _fire(self, t):
        self.now = max(self.now, t.deadline)
        # a thread whose wait is satisfied does not time out
        if not (t.pred is not None and t.pred()):
            t.timed_out = True

    def _pick(self, cur, label):
        """Choose the next thread to run; None when the execution is over."""
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.end = "horizon"
                return None
            opts = self._options(cur)
            timers = self._timers()
            if not opts:
                if not timers:
                    self.end = "deadlock" if not self.post else "ok"
                    return None
                if self.post:
                    self.post_timers += 1
                    if self.post_timers > self.grace:
                        self.end = "ok"
                        return None
                self._fire(timers[0])
                continue
            keep = cur is not None and opts[0] is cur
            n = len(opts)
            early = self.early_timers and timers and not self.post
            if early:
                n += 1
            if n == 1:
                return opts[0]
            costs = [0] + [1 if keep or self.delay else 0] * (len(opts) - 1) + ([1] if early else [])
            c = self._choose(n, costs, label)
            if c == len(opts):
                self._fire(timers[0])
                continue
            return opts[c]

    # -- switching -------------------------------------------------------
    def _switch(self, cur, nxt):
        if nxt is None:
            self._finish(cur)
            return
        if nxt is cur:
            return
        nxt.baton.release()
        if cur is not None and not cur.done:
            cur.baton.acquire()
            if self.aborting:
                raise Abort()

    def _finish(self, cur):
        """The execution is over: hand control back to the explorer."""
        self.aborting = True
        self.finished.release()
        if cur is not None and not cur.done:
            cur.baton.acquire()
            raise Abort()

    def point(self, label=""):
        """A scheduling point of the running thread."""
        t = me()
        if t is None:
            return
        if self.aborting:
            raise Abort()
        t.where = label
        try:
            nxt = self._pick(t, label)
        except Divergence as e:
            self.errors.append(e)
            self.end = "divergence"
            nxt = None
        self._switch(t, nxt)

    def block(self, pred, deadline=None, label=""):
        """Wait until pred() holds (True) or the deadline passes (False)."""
        t = me()
        assert t is not None
        if self.aborting:
            raise Abort()
        t.pred, t.deadline, t.timed_out, t.blocked = pred, deadline, False, True
        t.where = label
        try:
            nxt = self._pick(t, label)
        except Divergence as e:
            self.errors.append(e)
            self.end = "divergence"
            nxt = None
        self._switch(t, nxt)
        ok = bool(pred())
        t.pred, t.deadline, t.blocked = None, None, False
        return ok

    def sleep(self, seconds, label="sleep"):
        t = me()
        if t is None:
            self.now += seconds
            return
        if seconds <= 0:
            self.point(label)
            return
        self.block(lambda: False, self.now + seconds, label)

    # -- threads ---------------------------------------------------------
    def spawn(self, name, fn, driver=False):
        vt = VThread(self, len(self.threads), name)
        self.threads.append(vt)

        def boot():
            vt.baton.acquire()
            _tls.vt = vt
            try:
                if not self.aborting:
                    if self.lines:
                        sys.settrace(self._tracer())
                    fn()
            except Abort:
                pass
            except BaseException as e:  # recorded, judged by the oracle
                vt.exc = e
            finally:
                sys.settrace(None)
                vt.done = True
                if driver:
                    self.post = all(t.done for t in self.threads
                                    if t.name.startswith("drv"))
                if not self.aborting:
                    try:
                        nxt = self._pick(vt, "exit")
                    except Divergence as e:
                        self.errors.append(e)
                        self.end = "divergence"
                        nxt = None
                    self._switch(vt, nxt)
                _tls.vt = None

        vt.real = _rt.Thread(target=boot, daemon=True)
        vt.real.start()
        return vt

    def _tracer(self):
        sub = self.lines

        def local(frame, event, arg):
            if event == "line" and not self.aborting:
                self.point(f"line {frame.f_lineno}")
            return local

        def glob(frame, event, arg):
            if event == "call" and sub in frame.f_code.co_filename:
                return local
            return None

        return glob

    def run(self, drivers):
        """Execute; drivers: list of (name, fn) run as controlled threads."""
        global _WORLD
        assert _WORLD is None
        _reset_globals()
        gc.disable()
        _WORLD = self
        try:
            for i, (name, fn) in enumerate(drivers):
                self.spawn("drv-" + name, fn, driver=True)
            first = None
            try:
                first = self._pick(None, "start")
            except Divergence as e:
                self.errors.append(e)
                self.end = "divergence"
            if first is None:
                self.aborting = True
            else:
                first.baton.release()
                if not self.finished.acquire(timeout=120):
                    raise RuntimeError(
                        "controlled execution did not make progress: "
                        + str([(t.name, t.where, t.done) for t in self.threads]))
            self.alive_at_end = [t.name for t in self.threads if not t.done]
            # unwind whatever is left
            for t in self.threads:
                if not t.done:
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
            for t in self.threads:
                t.real.join(30)
        finally:
            _WORLD = None
            gc.enable()
        if self.errors:
            raise self.errors[0]
        return self


# ---------------------------------------------------------------------------
# Shims.  Objects used by a thread no world controls behave trivially
# (single-threaded semantics), so that finalisers never block.
# ---------------------------------------------------------------------------
_globals = weakref.WeakSet()


def _reset_globals():
    for o in list(_globals):
        o._reset()


class _Obj:
    def __init__(self):
        if _WORLD is None:
            _globals.add(self)


def _pt(label):
    if me() is not None:
        _WORLD.point(label)


def _deadline(timeout):
    return None if timeout is None else _WORLD.now + max(0.0, timeout)


class Lock(_Obj):
    def __init__(self):
        super().__init__()
        self._reset()

    def _reset(self):
        self._owner = None
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        if t is None:
            if self._held:
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                raise RuntimeError("lock held at passthrough")
            self._held = True
            return True
        if not blocking:
            _WORLD.point("trylock")
            if self._held:
                return False
        else:
            _WORLD.point("lock")
            if self._held:
                dl = None if timeout is None or timeout < 0 else _deadline(timeout)
                if not _WORLD.block(lambda: not self._held, dl, "lock-wait"):
                    return False
        self._held = True
        self._owner = t
        return True

    def release(self):
        if not self._held:
            if _WORLD is not None and _WORLD.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self._held = False
        self._owner = None

    def locked(self):
        return self._held

    acquire_lock = acquire
    release_lock = release

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # Condition protocol
    def _save(self):
        self.release()

    def _restore(self, s):
        self._force_acquire()

    def _force_acquire(self):
        if me() is None:
            self._held = True
            return
        if self._held:
            _WORLD.block(lambda: not self._held, None, "relock")
        self._held = True
        self._owner = me()


class RLock(_Obj):
    def __init__(self):
        super().__init__()
        self._reset()

    def _reset(self):
        self._who = None
        self._n = 0

    def _self_id(self):
        t = me()
        return t if t is not None else "outside"

    def acquire(self, blocking=True, timeout=-1):
        w = self._self_id()
        if self._who is w and self._n:
            self._n += 1
            return True
        if me() is None:
            if self._n:
                if not blocking:
                    return False
                raise RuntimeError("rlock held at passthrough")
        else:
            _WORLD.point("rlock")
            if self._n:
                if not blocking:
                    return False
                dl = None if timeout is None or timeout < 0 else _deadline(timeout)
                if not _WORLD.block(lambda: self._n == 0, dl, "rlock-wait"):
                    return False
        self._who = w
        self._n = 1
        return True

    def release(self):
        if self._who is not self._self_id() or not self._n:
            if _WORLD is not None and _WORLD.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._who = None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._who is self._self_id() and self._n > 0

    def _save(self):
        n = self._n
        self._n, self._who = 0, None
        return n

    def _restore(self, n):
        if me() is not None and self._n:
            _WORLD.block(lambda: self._n == 0, None, "relock")
        self._who, self._n = self._self_id(), n


class Condition(_Obj):
    def __init__(self, lock=None):
        super().__init__()
        self._lock = RLock() if lock is None else lock
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def _reset(self):
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        if me() is None:
            raise RuntimeError("condition wait at passthrough")
        token = [False]
        self._waiters.append(token)
        s = self._lock._save()
        try:
            ok = _WORLD.block(lambda: token[0], _deadline(timeout), "wait")
        finally:
            if token in self._waiters:
                self._waiters.remove(token)
            if not _WORLD.aborting:
                self._lock._restore(s)
        return ok

    def wait_for(self, predicate, timeout=None):
        end = _deadline(timeout)
        r = predicate()
        while not r:
            left = None
            if end is not None:
                left = end - _WORLD.now
                if left <= 0:
                    break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event(_Obj):
    def __init__(self):
        super().__init__()
        self._reset()

    def _reset(self):
        self._flag = False

    def is_set(self):
        _pt("event.is_set")
        return self._flag

    isSet = is_set

    def set(self):
        _pt("event.set")
        self._flag = True

    def clear(self):
        _pt("event.clear")
        self._flag = False

    def wait(self, timeout=None):
        if me() is None:
            return self._flag
        _WORLD.point("event.wait")
        if self._flag:
            return True
        return _WORLD.block(lambda: self._flag, _deadline(timeout), "event.wait")


class Semaphore(_Obj):
    def __init__(self, value=1):
        super().__init__()
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._init = value
        self._reset()

    def _reset(self):
        self._value = self._init

    def acquire(self, blocking=True, timeout=None):
        if me() is None:
            if self._value <= 0:
                return False
            self._value -= 1
            return True
        _WORLD.point("sem")
        if self._value <= 0:
            if not blocking:
                return False
            if not _WORLD.block(lambda: self._value > 0, _deadline(timeout), "sem-wait"):
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        _pt("sem.release")
        self._value += n

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def release(self, n=1):
        if self._value + n > self._init:
            raise ValueError("Semaphore released too many times")
        super().release(n)


class Barrier(_Obj):
    def __init__(self, parties, action=None, timeout=None):
        super().__init__()
        self.parties = parties
        self._reset()

    def _reset(self):
        self._count = 0
        self._gen = 0

    def wait(self, timeout=None):
        _pt("barrier")
        gen = self._gen
        i = self._count
        self._count += 1
        if self._count == self.parties:
            self._gen += 1
            self._count = 0
            return i
        _WORLD.block(lambda: self._gen != gen, _deadline(timeout), "barrier")
        return i


_thread_no = [0]


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
                 *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        _thread_no[0] += 1
        self.name = name or f"Thread-{_thread_no[0]} ({getattr(target, '__name__', '')})"
        self.daemon = bool(daemon)
        self._started = False
        self._vt = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        if me() is None:
            raise RuntimeError("thread started outside a controlled execution")
        self._started = True
        _WORLD.started_threads += 1
        w = _WORLD

        def body():
            _tls.thread = self
            try:
                self.run()
            finally:
                _tls.thread = None

        self._vt = w.spawn("bg-" + str(w.started_threads), body)
        w.point("thread.start")

    def is_alive(self):
        _pt("is_alive")
        return self._started and not self._vt.done

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        if me() is None:
            return
        if self._vt is me():
            raise RuntimeError("cannot join current thread")
        _WORLD.point("join")
        if not self._vt.done:
            _WORLD.block(lambda: self._vt.done, _deadline(timeout), "join")

    @property
    def ident(self):
        return None if not self._started else 10000 + self._vt.id

    native_id = ident

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _Pseudo:
    def __init__(self, t):
        self.name = t.name if t else "MainThread"
        self.ident = 10000 + t.id if t else 1
        self.daemon = False

    def is_alive(self):
        return True


def current_thread():
    t = getattr(_tls, "thread", None)
    return t if t is not None else _Pseudo(me())


def get_ident():
    t = me()
    return 10000 + t.id if t is not None else _rt.get_ident()


_shims = None


def shim_modules():
    """{'threading': module, 'queue': module, 'time': module}"""
    global _shims
    if _shims:
        return _shims
    th = types.ModuleType("threading")
    for c in (Lock, RLock, Condition, Event, Semaphore, BoundedSemaphore, Barrier,
              Thread, Timer, current_thread, get_ident):
        setattr(th, c.__name__, c)
    th.get_native_id = get_ident
    th.currentThread = current_thread
    th.enumerate = lambda: [current_thread()]
    th.__getattr__ = lambda n: getattr(_rt, n)

    tm = types.ModuleType("time")

    def now():
        return _WORLD.now if me() is not None else _rtime.time()

    def sleep(s):
        if me() is not None:
            _WORLD.sleep(s)
        else:
            _rtime.sleep(s)

    tm.time = now
    tm.monotonic = now
    tm.perf_counter = now
    tm.time_ns = lambda: int(now() * 1e9)
    tm.monotonic_ns = tm.time_ns
    tm.perf_counter_ns = tm.time_ns
    tm.sleep = sleep
    tm.__getattr__ = lambda n: getattr(_rtime, n)

    # the interpreter's own queue.py over the shimmed primitives
    path = _real_queue.__file__
    with open(path) as f:
        src = f.read()
    qm = types.ModuleType("queue")
    qm.__file__ = path
    saved = {k: sys.modules.get(k) for k in ("threading", "time")}
    try:
        sys.modules["threading"] = th
        sys.modules["time"] = tm
        exec(compile(src, path, "exec"), qm.__dict__)
    finally:
        for k, v in saved.items():
            sys.modules[k] = v
    qm.Empty = _real_queue.Empty
    qm.Full = _real_queue.Full
    qm.__dict__["Full"] = _real_queue.Full
    if "_PySimpleQueue" in qm.__dict__:
        qm.SimpleQueue = qm._PySimpleQueue
    _shims = {"threading": th, "queue": qm, "time": tm}
    return _shims


# ---------------------------------------------------------------------------
# Explorer
# ---------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.executions = 0
        self.steps = 0
        self.choices = 0
        self.capped = False
        self.max_choices = 0
        self.nodes = 0


def explore(make, bound, check, stats, max_exec=None, deadline=None, prefix=(),
            shard=None, beat=None):
    """Depth-first enumeration of every schedule with <= bound deviations.

    make(prefix) -> executed World;  check(world) -> None or violation.
    Stops at the first violation, which it returns.  shard=(i, k) explores the
    i-th of k parts: the first deviations are dealt out over the parts.
    """
    stack = [list(prefix)]
    root = True
    while stack:
        if max_exec is not None and stats.executions >= max_exec:
            stats.capped = True
            return None
        if deadline is not None and _rtime.time() > deadline:
            stats.capped = True
            return None
        pre = stack.pop()
        if beat is not None:
            beat()
        w = make(pre)
        stats.executions += 1
        stats.steps += w.steps
        stats.choices += len(w.choices)
        stats.nodes += len(w.choices) - len(pre) + 1
        stats.max_choices = max(stats.max_choices, len(w.choices))
        if stats.executions % 200 == 0:
            gc.collect()
        v = check(w)
        if v:
            v["schedule"] = [c[0] for c in w.choices]
            return v
        cost = 0
        taken = [c[0] for c in w.choices]
        new = []
        for i, (c, n, costs, label) in enumerate(w.choices):
            if i >= len(pre):
                for alt in range(n):
                    if alt != c and cost + costs[alt] <= bound:
                        new.append(taken[:i] + [alt])
            cost += costs[c]
        # explore later deviations first: depth-first order
        if root and shard is not None:
            new = new[shard[0]::shard[1]]
        root = False
        stack.extend(new)
    return None
