"""Wrapped-scheduler models and harness for the prefetching checks (C09-C14).

The scheduler that the prefetcher wraps is a model whose every call is a
scheduling point; it records overlapping use from two threads.
"""
import numpy as np

from . import common, sched


def _imports():
    from synthpix.scheduler import prefetch
    from synthpix.scheduler import protocol
    from synthpix.types import SchedulerData

    return prefetch, protocol, SchedulerData


class Boom(RuntimeError):
    """The injected producer failure."""


BOOMS = {"RuntimeError": Boom}
for _c in (ValueError, OSError, KeyError, IndexError, TimeoutError, EOFError, ZeroDivisionError, AssertionError, MemoryError):
    BOOMS[_c.__name__] = type("Boom" + _c.__name__, (_c,), {})


class ModelScheduler:
    """n batches per pass; batch k of pass g carries the tag 1000*g + k."""

    def __init__(self, world, n, batch_size=2, slow=(), slow_time=5.0, fail_at=None,
                 fail_once=True, slow_first=0.0, boom="RuntimeError", fail_next=None):
        _, self._protocol, self._SD = _imports()
        self.w = world
        self.n = n
        self.bs = batch_size
        self.k = 0
        self.g = 0
        self.calls = 0
        self.slow = set(slow)
        self.slow_time = slow_time
        self.boom = boom
        self.fail_next = fail_next  # number of the next_episode call that fails
        self.nexts = 0
        self.slow_first = slow_first  # duration of the first call of a pass
        self.ended = 0  # how often the end of the data was signalled
        self.fail_at = fail_at
        self.fail_once = fail_once
        self.user = None
        self.overlap = None
        self.bad_size = None
        self._files = ["a"]
        self.produced = []

    # -- access discipline
    def _enter(self, what):
        t = sched.me()
        who = t.id if t is not None else None
        if self.user is not None and self.user[0] != who:
            self.overlap = f"{what} while another thread is in {self.user[1]}"
        prev = self.user
        self.user = (who, what)
        self.w.point("model." + what)
        return prev

    def _exit(self, prev):
        self.user = prev

    def _data(self, tag):
        """Batches of every form: also short ones (the last of a pass always is), with images, without mask or names."""
        last = self.n is not None and tag % 1000 == self.n - 1
        return form(self._SD, tag, self.bs, 4 if last else (tag + tag // 1000) % 4)

    def _maybe(self):
        c = self.calls
        self.calls += 1
        if c in self.slow:
            self.w.sleep(self.slow_time, "model.slow")
        if self.slow_first and self.k == 0:
            self.w.sleep(self.slow_first, "model.slow")
        if self.fail_at is not None and c == self.fail_at:
            if self.fail_once:
                self.fail_at = None
            raise BOOMS[self.boom](f"injected at call {c}")

    # -- SchedulerProtocol
    def get_batch(self, batch_size):
        p = self._enter("get_batch")
        try:
            if batch_size != self.bs:
                self.bad_size = batch_size
            self._maybe()
            if self.k >= self.n:
                self.ended += 1
                raise StopIteration
            tag = 1000 * self.g + self.k
            self.k += 1
            self.produced.append(tag)
            self.w.point("model.get_batch.end")
            return self._data(tag)
        finally:
            self._exit(p)

    def reset(self):
        p = self._enter("reset")
        try:
            self.g += 1
            self.k = 0
            self.w.point("model.reset.end")
        finally:
            self._exit(p)

    def shutdown(self):
        pass

    def get_flow_fields_shape(self):
        return (1, 1, 2)

    @property
    def file_list(self):
        return list(self._files)

    @file_list.setter
    def file_list(self, v):
        self._files = list(v)


class ModelEpisodic(ModelScheduler):
    """Episodes of L steps; step t of episode e carries the tag 1000*e + t.

    `n` bounds the number of episodes with data (None: endless)."""

    def __init__(self, world, L, n=None, **kw):
        super().__init__(world, n, **kw)
        self.L = L
        self.e = 0
        self.t = 0

    def get_batch(self, batch_size):
        p = self._enter("get_batch")
        try:
            if batch_size != self.bs:
                self.bad_size = batch_size
            self._maybe()
            if self.t >= self.L:
                raise self._protocol.EpisodeEnd
            if self.n is not None and self.e >= self.n:
                self.ended += 1
                raise StopIteration
            tag = 1000 * self.e + self.t
            self.t += 1
            self.produced.append(tag)
            self.w.point("model.get_batch.end")
            return self._data(tag)
        finally:
            self._exit(p)

    def reset(self):
        p = self._enter("reset")
        try:
            self.e += 1
            self.t = 0
            self.w.point("model.reset.end")
        finally:
            self._exit(p)

    def next_episode(self):
        p = self._enter("next_episode")
        try:
            c = self.nexts
            self.nexts += 1
            if self.fail_next is not None and c == self.fail_next:
                self.fail_next = None
                raise BOOMS[self.boom](f"injected at next_episode call {c}")
            self.e += 1
            self.t = 0
            self.w.point("model.next.end")
        finally:
            self._exit(p)

    def steps_remaining(self):
        return self.L - self.t

    @property
    def episode_length(self):
        return self.L


def form(cls, tag, bs, kind):
    """Batch number `tag`: 0 plain, 1 with images, 2 short, 3 without mask and names, 4 short with images."""
    valid = 1 if kind in (2, 4) else bs
    f = np.zeros((bs, 1, 1, 2), np.int32)
    f[:valid, ..., 0], f[:valid, ..., 1] = tag, kind
    im = f[..., 0] if kind in (1, 4) else None
    return cls(
        flow_fields=f, images1=im, images2=None if im is None else im + 1,
        mask=None if kind == 3 else np.arange(bs) < valid,
        files=None if kind == 3 else tuple(f"f{tag}" if i < valid else "" for i in range(bs)),
    )


def tag_of(batch):
    """The tag of a delivered batch; raises if anything in it is not what was produced."""
    f = np.asarray(batch.flow_fields)
    tag, kind = int(f.flat[0]), int(f.flat[1])
    want = form(type(batch), tag, len(f), kind)
    assert np.array_equal(f, want.flow_fields), "mixed batch"
    for name in ("mask", "images1", "images2"):
        a, b = getattr(batch, name), getattr(want, name)
        assert (a is None) == (b is None) and (a is None or np.array_equal(a, b)), f"{name} changed"
    assert batch.files == want.files, "files changed"
    return tag


def op_get(pf, bs):
    """('batch', tag) | ('stop',) | ('end',) | ('exc', name)"""
    _, protocol, _ = _imports()
    try:
        b = pf.get_batch(bs)
    except StopIteration:
        return ("stop",)
    except protocol.EpisodeEnd:
        return ("end",)
    except sched.Abort:
        raise
    except BaseException as e:
        return ("exc", type(e).__name__)
    if b is None:
        return ("none",)
    try:
        return ("batch", tag_of(b))
    except Exception as e:
        return ("garbled", str(e))


# ---------------------------------------------------------------------------
# Harness: consumer threads executing operation strings against the real
# prefetching scheduler over a model scheduler.
#   G get_batch   R reset   S shutdown   N next_episode   P long pause
#   W wait for the other drivers (join point)
# ---------------------------------------------------------------------------
STEADY = 2.0
STARTUP = 30.0
PAUSE = 50.0


def make_world(case, prefix=(), factory=None, op_get=op_get):
    prefetch, _, _ = _imports()
    w = sched.World(
        prefix, bound=case["pb"], lines=case.get("lines"),
        early_timers=case.get("early", False), max_steps=case.get("max_steps", 6000),
        delay=case.get("delay", False))
    bs = 2
    kw = dict(batch_size=bs, slow=case.get("slow", ()), slow_time=case.get("slow_time", 5.0),
              fail_at=case.get("fail_at"), slow_first=case.get("slow_first", 0.0),
              boom=case.get("boom", "RuntimeError"), fail_next=case.get("fail_next"))
    if factory:
        m = factory(w, case)
        bs = m.bs
    elif case.get("L"):
        m = ModelEpisodic(w, case["L"], case.get("n"), **kw)
    else:
        m = ModelScheduler(w, case["n"], **kw)
    w.m = m
    w.res = []  # (driver, op, outcome, t_start, t_end, steps_remaining)
    w.pf = None
    running = []

    w.seq = 0
    w.opseq = []
    w.busy = w.taken = w.abandoned = 0  # requests in progress, batches delivered and given up since the last reset

    def op(pf, o, d):
        t0 = w.now
        s0 = w.seq = w.seq + 1
        w.busy += o != "P"
        if o == "N":
            w.abandoned += pf.steps_remaining()
        if o == "G":
            out = op_get(pf, bs)
            w.taken += out[0] == "batch"
        elif o == "P":
            w.sleep(PAUSE)
            out = None
        else:
            try:
                if o == "R":
                    pf.reset()
                elif o == "S":
                    pf.shutdown()
                elif o == "N":
                    pf.next_episode()
                out = ("ok",)
                if o == "S":
                    out = ("ok", bool(pf.is_running()))
            except sched.Abort:
                raise
            except BaseException as e:
                out = ("exc", type(e).__name__ + ": " + str(e)[:80])
        w.busy -= o != "P"
        sr = None
        if case.get("L"):
            sr = pf.steps_remaining()
        if o != "P":
            w.res.append((d, o, out, t0, w.now, sr))
            w.opseq.append(s0)

    def driver(i, ops):
        def run():
            if i == 0:
                w.pf = prefetch.PrefetchingFlowFieldScheduler(
                    m, bs, buffer_size=case["buf"],
                    startup_timeout=case.get("startup", STARTUP),
                    steady_state_timeout=STEADY)
            else:
                w.block(lambda: w.pf is not None, None, "wait-pf")
            for o in ops:
                op(w.pf, o, i)
        return run

    w.run([(str(i), driver(i, ops)) for i, ops in enumerate(case["ops"])])
    # drop the object under test outside the execution
    w.pf = None
    return w


def observation(w):
    return (
        tuple((d, o, out, round(t1 - t0, 3), sr) for d, o, out, t0, t1, sr in w.res),
        w.end, tuple(sorted(w.alive_at_end)), w.m.overlap, w.started_threads,
        tuple(type(t.exc).__name__ for t in w.threads if t.exc is not None),
    )


def generic(case, w):
    """Violations every execution is judged by."""
    if w.end == "deadlock":
        who = [(t.name, t.where) for t in w.threads if not t.done]
        return dict(sig="deadlock", detail=f"no thread can run: {who}; history {hist(w)}")
    if w.end == "horizon":
        return dict(sig="livelock", detail=f"did not end within the step horizon; history {hist(w)}")
    for t in w.threads:
        if t.exc is not None:
            if t.name.startswith("drv"):
                return dict(sig="driver-exception", detail=f"{t.name}: {t.exc!r}; history {hist(w)}")
            if case.get("fail_at") is None and case.get("fail_next") is None:
                return dict(sig="worker-died", detail=f"{t.name} died: {t.exc!r}; history {hist(w)}")
    if w.m.overlap:
        return dict(sig="overlap", detail=f"wrapped scheduler used by two threads: {w.m.overlap}; history {hist(w)}")
    if w.m.bad_size is not None:
        return dict(sig="bad-size", detail=f"wrapped scheduler asked for {w.m.bad_size} rows")
    return None


def hist(w):
    return [(d, o, out) for d, o, out, *_ in w.res]


def split(case, k):
    """The case as k cases that explore disjoint parts of its schedules."""
    return [dict(case, shard=[i, k]) for i in range(k)]


def explore_case(case, res, oracle, max_exec=None, make_world=make_world):
    st = sched.Stats()

    def chk(w):
        ob = observation(w)
        if res.seen(ob):
            res.sample({"case": case, "outcome": str(ob)[:400]}, limit=1)
        return generic(case, w) or oracle(case, w)

    v = sched.explore(lambda p: make_world(case, p), case["pb"], chk, st, max_exec=max_exec,
                      deadline=common.T_END, shard=case.get("shard"), beat=common.beat)
    res.traces += st.executions
    res.evaluations += st.executions
    res.transitions += st.steps
    res.states += st.nodes
    if st.capped:
        res.capped += 1
    if v:
        # fewest deviations first
        for b in range(case["pb"]):
            v2 = sched.explore(lambda p: make_world(case, p), b, chk, sched.Stats(), max_exec=20000,
                               beat=common.beat)
            if v2:
                v = v2
                break
        obs = [observation(make_world(case, v["schedule"])) for _ in range(2)]
        if obs[0] != obs[1]:
            raise RuntimeError(f"schedule does not replay deterministically: {obs}")
        w = make_world(case, v["schedule"])
        v2 = generic(case, w) or oracle(case, w)
        if not v2 or v2["sig"] != v["sig"]:
            raise RuntimeError(f"violation does not replay: {v} vs {v2}")
        res.violate(v["sig"], v["detail"], schedule=v["schedule"], case=case,
                    labels=[c[3] for c in w.choices])


def replay_with(oracle, make_world=make_world):
    def replay(v):
        case = v["case"]
        if "schedule" not in v:
            print("no schedule in this artefact:", v.get("detail"))
            return 1
        w = make_world(case, v["schedule"])
        print("choices:", [(c[0], c[1], c[3]) for c in w.choices if c[0]])
        for r in w.res:
            print("  ", r)
        print("end:", w.end, "alive:", w.alive_at_end)
        out = generic(case, w) or oracle(case, w)
        print("verdict:", out)
        return 1 if out else 0
    return replay


def early_stop_ok(case, r, first):
    """A request may report 'no data' early only after waiting its full timeout."""
    d, o, out, t0, t1, sr = r
    need = case.get("startup", STARTUP) if first else STEADY
    return t1 - t0 >= need - 1e-9
