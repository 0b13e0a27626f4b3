"""C33: what was delivered, and what was passed in, belongs to the caller."""
import copy
import itertools
import os

import numpy as np

from . import c28, common, epmodel
from . import fsmodel as fm
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive execution of all request strings to a depth on the real schedulers, stacks, samplers and factory, with a caller that "
             "overwrites, or keeps, every delivered array and every argument")
NOTE = ("Every string is executed by a caller that overwrites what it was given right away and by one that keeps it to the end; contents are "
        "compared with the reference model or with an undisturbed run.")
RULE = "distinct = different (stack, caller, operations, outcome) observations"
BOUNDS = {
    "quick": "3 formats with and without images, 4 datasets, looping and shuffling or not, strings to depth 4 over requests of 1-3 rows and reset; "
             "episodic and prefetching stacks to depth 5; both samplers over a source that keeps its arrays; 6 configurations",
    "thorough": "depth 5 (6)",
}
ASSUMPTIONS = ["the producer thread of a prefetching stack runs freely (its schedules are explored in C09-C14)"]
XLA_CACHE = True
SHIM = False
CASE_LIMIT = {"quick": 120, "thorough": 300}
MODES = ("overwrite", "keep", "args")


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    specs = {"h5": ([["f", 3], ["f", 2]], [["f", 1], ["bad"], ["f", 2]], [["f", 2], ["dup", 0]], [["f", 5]])}
    flat = ([["f", 1]] * 2, [["f", 1], ["bad"], ["f", 1]], [["f", 1], ["dup", 0]], [["f", 1]])
    for fmt, loop, rnd in itertools.product(("h5", "npy", "mat"), (False, True), (False, True)):
        for sp in specs.get(fmt, flat):
            for images in (False, True) if fmt != "h5" else (False,):
                for mode in MODES:
                    out.append(dict(k="sched", fmt=fmt, spec=sp, images=images, loop=loop, rnd=rnd, mode=mode, depth=5 if T else 4))
    for buf, L, n, mode in itertools.product((0, 1, 3), (1, 2), (1, 2), MODES[:2]):
        out.append(dict(k="epi", buf=buf, L=L, n=n, mode=mode, depth=6 if T else 5))
    for buf, rnd, mode in itertools.product((1, 3), (False, True), MODES[:2]):
        out.append(dict(k="pre", buf=buf, rnd=rnd, mode=mode, depth=6 if T else 5))
    for kind, bpfb in (("real", 1), ("synth", 1), ("synth", 2)):
        out.append(dict(k="sampler", kind=kind, bpfb=bpfb, depth=7 if T else 5))
    for i in range(6):
        out.append(dict(k="make", i=i))
    return out


def arrays(data):
    return [np.asarray(a) for a in (data.flow_fields, data.images1, data.images2, data.mask) if a is not None]


class Caller:
    """Overwrites or keeps what it is given."""

    def __init__(self, mode):
        self.mode, self.kept = mode, []

    def take(self, data):
        if self.mode == "overwrite":
            for a in arrays(data):
                if a.flags.writeable:
                    a[...] = True if a.dtype == bool else 99
        elif self.mode == "keep":
            self.kept.append((data, [a.copy() for a in arrays(data)], data.files))

    def changed(self):
        """Index of a kept delivery that is not what it was; None."""
        for i, (d, was, files) in enumerate(self.kept):
            if files != d.files or any(not np.array_equal(a, b) for a, b in zip(arrays(d), was)):
                return i
        return None


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res)


def k_sched(case, res):
    ds = fm.Dataset(case["fmt"], case["spec"], images=case["images"])
    for ops in itertools.product([1, 2, 3, "R"], repeat=case["depth"]):
        common.beat()
        given = list(ds.paths)
        s = ds.build(randomize=case["rnd"], loop=case["loop"], key=1, file_list=given)
        if given != ds.paths:
            res.violate("argument", f"the list of files passed in was changed to {given}; {case}")
            return
        if case["mode"] == "args":
            given[:] = given[::-1] + ["gone"]
            was = list(given)
        m, c = fm.Pass(ds, case["rnd"], case["loop"]), Caller(case["mode"])
        for i, op in enumerate(ops):
            res.transitions += 1
            if op == "R":
                s.reset()
                m.start()
                continue
            got = fm.call(s, op)
            res.evaluations += 1
            bad = fm.judge(ds, m, op, got, ("stream", "end", "form"))
            res.seen((case["fmt"], case["mode"], str(case["spec"]), m.key(), op, got[0]))
            if bad:
                res.violate(bad[0], f"{bad[1]}; operations {ops[:i + 1]} of a caller that does {case['mode']}; {case}", hist=list(ops[:i + 1]))
                return
            if got[0] == "batch":
                c.take(got[1])
        res.traces += 1
        k = c.changed()
        if k is not None:
            res.violate("changed", f"delivery {k} changed later; operations {ops}; {case}", hist=list(ops))
            return
        if case["mode"] == "args" and given != was:
            res.violate("argument", f"the list of files passed in was changed to {given}; {case}")
            return
    res.states += len(ds.paths)


def outcome(s, n, op):
    from synthpix.scheduler.protocol import EpisodeEnd

    try:
        if op == "G":
            d = s.get_batch(n)
            return ("batch", d, ([a.copy() for a in arrays(d)], d.files))
        s.next_episode() if op == "N" else s.reset()
        return ("ok",)
    except StopIteration:
        return ("end",)
    except EpisodeEnd:
        return ("episode-end",)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] != "batch":
        return True
    return a[2][1] == b[2][1] and len(a[2][0]) == len(b[2][0]) and all(np.array_equal(x, y) for x, y in zip(a[2][0], b[2][0]))


def twins(case, res, build, n, alphabet, quiet):
    """Run every string on an undisturbed object and with a meddling caller.

    Where the source draws at random from the whole of its past, a reset behind a prefetcher leaves out as much of the stream as the producer
    had read ahead, which is not determined; those strings are passed over (`quiet`).
    """
    for ops in itertools.product(alphabet, repeat=case["depth"]):
        if quiet(ops):
            continue
        s, t, c = build(), build(), Caller(case["mode"])
        try:
            for i, op in enumerate(ops):
                common.beat()
                x, y = outcome(s, n, op), outcome(t, n, op)
                res.transitions += 1
                res.evaluations += 1
                res.seen((case["k"], case["mode"], case.get("L"), op, x[0], i))
                if not same(x, y):
                    res.violate("stream", f"with a caller that does {case['mode']}, {op} gives {str(y)[:150]} instead of {str(x)[:150]}; "
                                f"operations {ops[:i + 1]}; {case}", hist=list(ops[:i + 1]))
                    return
                if y[0] == "batch":
                    c.take(y[1])
        finally:
            s.shutdown()
            t.shutdown()
        res.traces += 1
        k = c.changed()
        if k is not None:
            res.violate("changed", f"delivery {k} changed later; operations {ops}; {case}", hist=list(ops))
            return
    res.states += 1


def k_epi(case, res):
    import jax
    from synthpix import scheduler as S

    data = epmodel.Sequences({"a": case["L"] + 1, "b": case["L"]})
    n = case["n"]

    def build():
        s = data.base(loop=True, include_images=True, key=jax.random.PRNGKey(3))
        s = S.EpisodicFlowFieldScheduler(s, batch_size=n, episode_length=case["L"], key=jax.random.PRNGKey(4))
        if case["buf"]:
            s = S.PrefetchingFlowFieldScheduler(s, batch_size=n, buffer_size=case["buf"], startup_timeout=80.0, steady_state_timeout=80.0)
        return s

    twins(case, res, build, n, "GNR", lambda ops: ops.count("G") < 2 or (case["buf"] and "R" in ops))


def k_pre(case, res):
    from synthpix import scheduler as S

    ds = fm.Dataset("h5", [["f", 3], ["f", 2]])
    build = lambda: S.PrefetchingFlowFieldScheduler(ds.build(randomize=case["rnd"], loop=True, key=2), batch_size=2, buffer_size=case["buf"],
                                                    startup_timeout=80.0, steady_state_timeout=80.0)
    twins(case, res, build, 2, "GR", lambda ops: ops.count("G") < 2 or (case["rnd"] and "R" in ops))


class Keeping(sm.Src):
    """A source that keeps what it handed out."""

    include_images = True

    def __init__(self, groups):
        super().__init__(groups)
        self.kept = []

    def get_batch(self, batch_size):
        d = super().get_batch(batch_size)
        k = self.pos - 1
        im = np.stack([fm.gray(2 * k + i, 0, 6, 7) for i in range(batch_size)]).astype(np.float32)
        d = d.update(images1=im, images2=im + 1)
        self.kept.append((d, [a.copy() for a in arrays(d)]))
        return d


def k_sampler(case, res):
    from synthpix.sampler import RealImageSampler

    real = case["kind"] == "real"
    if not real:
        t = sm.build(sm.Src(3), bpfb=case["bpfb"], n=2, spec=dict(batch_size=3, image_shape=(12, 12)), size=(16.0, 16.0))
    for ops in itertools.product("nRr", repeat=case["depth"]):
        if ops[-1] != "n":
            continue
        src = Keeping(3)
        s = RealImageSampler(src, batch_size=2) if real else sm.fresh(t, src)
        held = []
        for i, op in enumerate(ops):
            common.beat()
            res.transitions += 1
            if op != "n":
                s.reset(scheduler_reset=op == "R")
                continue
            x = sm.nxt(s)
            res.evaluations += 1
            res.seen((case["kind"], case["bpfb"], x[0], i))
            if x[0] == "batch":
                held.append((x[1], copy.deepcopy(c28.row(x[1]))))
        for k, (b, was) in enumerate(held):
            if c28.row(b) != was:
                res.violate("changed", f"batch {k} changed after it was delivered; operations {ops}; {case}", hist=list(ops))
                return
        for d, was in src.kept:
            if any(not np.array_equal(a, b) for a, b in zip(arrays(d), was)):
                res.violate("source", f"arrays of the source were changed by the sampler; operations {ops}; {case}", hist=list(ops))
                return
        res.traces += 1
    res.states += 1


def k_make(case, res):
    i = case["i"]
    if i < 4:
        fmt = ("h5", "npy", "mat", "h5")[i]
        ds = c28.dataset(fmt)
        cfg = dict(copy.deepcopy(c28.SYN), scheduler_class={"h5": ".h5", "npy": ".npy", "mat": ".mat"}[fmt], file_list=list(ds.paths), batch_size=3,
                   flow_fields_per_batch=2, batches_per_flow_batch=1 + i % 2, randomize=i % 2 == 0, loop=True, buffer_size=2 if i == 3 else 0)
    else:
        ds = fm.Dataset("mat", [["f", 1]] * 4, images=True)
        cfg = dict(scheduler_class=".mat", file_list=list(ds.paths), batch_size=2, flow_fields_per_batch=2, include_images=True,
                   image_shape=[fm.H, fm.W], randomize=i % 2 == 0, loop=True, buffer_size=0, seed=5)
    if i == 2:
        cfg["device_ids"] = [0]
    orig = copy.deepcopy(cfg)
    want = c28.stream(c28.make(copy.deepcopy(cfg)), 4)
    s = c28.make(cfg)
    if cfg != orig:
        res.violate("argument", f"make() changed its configuration: {[k for k in orig if cfg.get(k) != orig[k]]}; {case}")
        return
    # the caller reuses its mapping for something else
    for k, v in cfg.items():
        if isinstance(v, list):
            for x in v:
                if isinstance(x, list):
                    x[:] = [77] * len(x)
            v[:] = ["gone"] * len(v)
    cfg.clear()
    got = c28.stream(s, 4)
    bad = c28.differ(got, want)
    res.evaluations += 2
    res.traces += 2
    res.transitions += 8
    res.states += 4
    res.seen(("make", i))
    if bad:
        res.violate("aliased", f"changing the mapping after make() changed the stream: {bad}; {case}")
