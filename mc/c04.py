"""C04: the end of the data is final, and every source terminates."""
import itertools
import os

import numpy as np

from . import common, sched
from . import fsmodel as fm
from . import pfmodel as pm
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real schedulers and samplers past the end of their data, and exploration of "
             "all schedules of prefetching stacks")
NOTE = ("Every request/reset history within the bounds is executed on the real objects, with at least three requests past "
        "each end; the files of a source are unreadable from the start or from any moment of the history; prefetching stacks "
        "are run under all schedules within the bound.")
RULE = "distinct = different (stack, model state, operation, outcome) observations"
BOUNDS = {
    "quick": "file schedulers: 3 formats, 8-11 datasets (none, some or all files unreadable), loop and shuffle options, strings over "
             "get(1), get(2), get(3), reset to depth 7 and 3 requests past the end; files lost at any moment: strings of 6; episodic "
             "stacks likewise; prefetching over model and real file sources: 0-3 batches, buffers 1-3, 3 requests past the end, <=2 "
             "deviations; synthetic and real sampler over plain sources (depth 8) and over prefetching ones (<=1 deviation)",
    "thorough": "depth 9, strings of 8, <=3 deviations for prefetching stacks, 2 under a sampler",
}
ASSUMPTIONS = ["a file lost during a run does not come back", "virtual time in prefetching stacks, one device"]
XLA_CACHE = True
ASPECTS = ("end",)
F, B = ["f", 1], ["bad"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for fmt in ("npy", "mat", "h5"):
        sets = [[F], [B], [B, B], [F, B], [B, F], [B, F, B], [F, ["dup", 0]], [F, F]]
        if fmt == "h5":
            sets += [[["f", 0]], [["f", 0], B], [["f", 3]], [B, ["f", 2]]]
        for sp, loop, rnd in itertools.product(sets, (False, True), (False, True)):
            out.append(dict(k="files", fmt=fmt, spec=sp, loop=loop, rnd=rnd, depth=9 if T else 7))
            if sp in ([F], [F, F], [["f", 3]], [B, F]):
                out.append(dict(k="lost", fmt=fmt, spec=sp, loop=loop, rnd=rnd, depth=8 if T else 6))
    for dirs, loop in itertools.product(([1, 0], [0, 0], [1, 1]), (False, True)):
        out.append(dict(k="episodic", dirs=dirs, loop=loop, depth=8 if T else 6))
    for n, buf, bs in itertools.product(range(4), (1, 2, 3), (2,)):
        g = "G" * n
        for ops in (g + "GGG", g + "GGRGGG", g + "GPGG", g + "PGG", g + "GG" + "R" + g + "GG", g + "GSGG"):
            out.append(dict(k="prefetch", n=n, buf=buf, ops=[ops], pb=3 if T else 2))
        out.append(dict(k="prefetch", n=n, buf=buf, ops=[g + "GG", "GG"], pb=2 if T else 1))
    for sp, loop, buf in itertools.product(([B], [B, B], [F, B], [F, F], [["f", 0]], [["f", 3], B]), (False, True), (1, 2)):
        loop = loop and not any(s[0] == "f" and s[1] for s in sp)
        out.append(dict(k="prefetch-files", spec=sp, loop=loop, buf=buf, n=0, ops=["GGGGG"], pb=2))
    for kind, bpfb, groups in itertools.product(("synth", "real"), (1, 2, 3), (0, 1, 2)):
        if kind == "real" and bpfb > 1:
            continue
        out.append(dict(k="sampler", kind=kind, bpfb=bpfb, groups=groups, depth=10 if T else 8))
        for buf in (1, 2):
            for ops in ("G" * (bpfb * groups + 3), "G" * (bpfb * groups + 2) + "R" + "G" * (bpfb * groups + 2)):
                out.append(dict(k="sampler-prefetch", kind=kind, bpfb=bpfb, groups=groups, buf=buf, n=groups, ops=[ops],
                                pb=2 if T else 1))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"].replace("-", "_")](case, tier, res)


# ------------------------------------------------------------ file schedulers
def k_files(case, tier, res):
    ds = fm.Dataset(case["fmt"], case["spec"])
    make = lambda: ds.build(randomize=case["rnd"], loop=case["loop"], key=1)
    fm.explore(ds, make, fm.Pass(ds, case["rnd"], case["loop"]), [1, 2, 3, "R"], case["depth"], res, ASPECTS, stop_after_end=4)


def k_lost(case, tier, res):
    """All strings of get, lose (all files become unreadable), reset."""
    ds = fm.Dataset(case["fmt"], case["spec"])
    good = {p: open(p, "rb").read() for p in set(ds.paths)}
    seen = set()
    for ops in itertools.product("GXR", repeat=case["depth"]):
        if ops.count("X") > 1 or (ops.index("X") if "X" in ops else 0) > case["depth"] - 3:
            continue
        common.beat()
        for p, c in good.items():
            with open(p, "wb") as f:
                f.write(c)
        s = ds.build(randomize=case["rnd"], loop=case["loop"], key=1)
        lost, ended, after = False, False, 0
        for i, op in enumerate(ops):
            if op == "X":
                for j, p in enumerate(sorted(good)):
                    if j % 2:
                        os.unlink(p)
                    else:
                        open(p, "wb").write(b"gone")
                lost, after = True, 0
                continue
            if op == "R":
                s.reset()
                ended = False
                continue
            got = fm.call(s, 1)
            res.evaluations += 1
            res.seen((case["fmt"], str(case["spec"]), case["loop"], lost, ended, got[0]))
            h = " ".join(ops[:i + 1])
            if got[0] == "exc":
                res.violate("exception", f"{got[1]} after {h} (X: all files unreadable)", hist=h)
                return
            if got[0] == "batch":
                after += 1
                if ended:
                    res.violate("after-end", f"data after the end of the data, operations {h}", hist=h)
                    return
                if fm.rows_of(ds, got[1], 1)[0] is None:
                    res.violate("invented", f"data of no file delivered, operations {h}", hist=h)
                    return
                if lost and after > 3:
                    res.violate("invented", f"{after} slices delivered after all files were lost, operations {h}", hist=h)
                    return
            else:
                if not lost and case["loop"]:
                    res.violate("early-end", f"a looping scheduler ended, operations {h}", hist=h)
                    return
                ended = True
        res.traces += 1
        res.transitions += len(ops)


def k_episodic(case, tier, res):
    """Episodes over leaf directories, 0: all frames unreadable."""
    import jax
    import scipy.io
    from synthpix import scheduler as S
    from synthpix.scheduler.protocol import EpisodeEnd

    root = common.tmpdir()
    for q, ok in enumerate(case["dirs"]):
        d = os.path.join(root, f"d{q}")
        os.makedirs(d)
        for f in range(3):
            p = os.path.join(d, f"{f}.mat")
            if ok:
                scipy.io.savemat(p, {"V": fm.pattern(100 * (q + 1) + f)})
            else:
                open(p, "wb").write(b"x")
    for ops in itertools.product("GNR", repeat=case["depth"]):
        common.beat()
        base = S.MATFlowFieldScheduler([root], loop=case["loop"], output_shape=(fm.H, fm.W))
        s = S.EpisodicFlowFieldScheduler(base, batch_size=2, episode_length=2, key=jax.random.PRNGKey(0))
        ended = False
        for i, op in enumerate(ops):
            h = " ".join(ops[:i + 1])
            if op != "G":
                s.next_episode() if op == "N" else s.reset()
                ended = False
                continue
            res.evaluations += 1
            try:
                b = s.get_batch(2)
                got = "batch"
            except StopIteration:
                got = "end"
            except EpisodeEnd:
                got = "episode-end"
            res.seen((str(case["dirs"]), case["loop"], i, got, ended))
            if got == "batch":
                if ended:
                    res.violate("after-end", f"data after the end of the data, operations {h}", hist=h)
                    return
                m = np.asarray(b.mask)
                tags = [int(x) // 100 for x in np.asarray(b.flow_fields)[:, 0, 0, 0]]
                if any(v and not (1 <= t <= 2 and case["dirs"][t - 1]) for v, t in zip(m, tags)):
                    res.violate("invented", f"rows of no readable frame, operations {h}", hist=h)
                    return
            elif got == "end":
                if all(case["dirs"]):
                    res.violate("early-end", f"end of data although every episode can be served, operations {h}", hist=h)
                    return
                ended = True
        res.traces += 1
        res.transitions += len(ops)


# ------------------------------------------------------------ prefetching
def oracle(case, w):
    """After the end, every request reports the end until a reset."""
    ended = shut = False
    for d, o, out, t0, t1, sr in w.res:
        if o == "R":
            ended = shut = False
        elif o == "S":
            shut = True
        if o in "SR":
            if out[0] == "exc":
                return dict(sig="exception", detail=f"{o} raised {out[1]}; {pm.hist(w)}")
            continue
        if out[0] == "stop":
            ended = True
        elif out[0] == "batch":
            if ended:
                return dict(sig="after-end", detail=f"data was delivered after the end of the data; {pm.hist(w)}")
        else:
            return dict(sig="outcome", detail=f"unexpected outcome {out}; {pm.hist(w)}")
    if not shut and len(case["ops"]) == 1:
        last = case["ops"][0].rsplit("R", 1)[-1].count("G")
        if last > case["n"] and not ended:
            return dict(sig="no-end", detail=f"no end after {last} requests for {case['n']} batches; {pm.hist(w)}")
    return None


def k_prefetch(case, tier, res):
    pm.explore_case(case, res, oracle)


class Files(pm.ModelScheduler):
    """Serves what a real file scheduler serves (its calls are scheduling points)."""

    def __init__(self, world, case):
        super().__init__(world, 0)
        ds = DS.setdefault(str(case["spec"]), None) or fm.Dataset("h5", case["spec"])
        DS[str(case["spec"])] = ds
        self.inner = ds.build(loop=case["loop"])

    def get_batch(self, batch_size):
        p = self._enter("get_batch")
        try:
            self.inner.get_batch(batch_size)
            tag = self.k
            self.k += 1
            return self._data(tag)
        finally:
            self._exit(p)

    def reset(self):
        super().reset()
        self.inner.reset()


DS = {}


def files_world(case, prefix=()):
    return pm.make_world(case, prefix, factory=Files)


def files_oracle(case, w):
    slices = sum(s[1] for s in case["spec"] if s[0] == "f")
    want = -(-slices // 2)
    outs = [r[2][0] for r in w.res]
    if outs[:want] != ["batch"] * want or "stop" not in outs[want:]:
        return dict(sig="no-end", detail=f"{outs} for a source of {want} batches")
    return oracle(case, w)


def k_prefetch_files(case, tier, res):
    pm.explore_case(case, res, files_oracle, make_world=files_world)


# ------------------------------------------------------------ samplers
class Images(sm.Src):
    """The model source with images, for the real-image sampler."""

    include_images = True

    def get_batch(self, batch_size):
        n = batch_size
        d = super().get_batch(n)
        k = self.pos - 1
        im = np.stack([np.full(self.shape, (10 * k + i) % 250, np.uint8) for i in range(n)])
        return d.update(images1=im, images2=im)


def source(case):
    return (Images if case["kind"] == "real" else sm.Src)(case["groups"])


TEMPLATE = {}


def sampler(case, src):
    from synthpix.sampler import RealImageSampler

    if case["kind"] == "real":
        return RealImageSampler(src, batch_size=2)
    key = case["bpfb"]
    if key not in TEMPLATE:
        t = sm.build(sm.Src(None), bpfb=key, n=2, size=(16.0, 16.0), spec=dict(batch_size=3, image_shape=(12, 12)))
        sm.nxt(t)
        TEMPLATE[key] = t
    return sm.fresh(TEMPLATE[key], src)


def k_sampler(case, tier, res):
    src = source(case)
    s = sampler(case, src)

    def judge(s2, got, want, m, h):
        res.seen((case["kind"], case["bpfb"], case["groups"], m.key(), got[0]))
        if want is None:
            return None if got[0] == "end" else ("after-end", f"{got[0]} instead of the end of the data")
        if got[0] != "batch":
            return ("early-end", f"{got} while group {want} is due")
        g = sm.group(src, want, 2)["flow_fields"][:, 0, 0]
        if not np.allclose(np.asarray(got[1].flow_fields)[:2, 0, 0], g, atol=1e-4):
            return ("stale", f"the flow fields are not those of group {want}")
        return None

    sm.explore(s, sm.Groups(src, case["bpfb"]), ("n", "R", "r"), case["depth"], judge, res)


class Source(pm.ModelScheduler):
    """A model source for a prefetcher under a sampler."""

    def __init__(self, world, case):
        super().__init__(world, 0)
        self.src = source(case)
        self.include_images = self.src.include_images

    def get_batch(self, batch_size):
        p = self._enter("get_batch")
        try:
            return self.src.get_batch(batch_size)
        finally:
            self._exit(p)

    def get_flow_fields_shape(self):
        return self.src.get_flow_fields_shape()

    def reset(self):
        p = self._enter("reset")
        self.src.reset()
        self._exit(p)


def sampler_world(case, prefix=()):
    from synthpix.scheduler import prefetch

    w = sched.World(prefix, bound=case["pb"], max_steps=6000)
    w.m = m = Source(w, case)
    w.res, w.pf = [], None

    def run():
        w.pf = prefetch.PrefetchingFlowFieldScheduler(m, 2, buffer_size=case["buf"], startup_timeout=pm.STARTUP,
                                                      steady_state_timeout=pm.STEADY)
        s = sampler(case, w.pf)
        for o in case["ops"][0]:
            t0 = w.now
            if o == "R":
                s.reset()
                out = ("ok",)
            else:
                got = sm.nxt(s)
                out = {"end": ("stop",), "exc": ("exc", str(got[-1])), "episode-end": ("end",)}.get(got[0]) or \
                    ("batch", tuple(np.round(np.asarray(got[1].flow_fields)[0, 0, 0].astype(float), 3)))
            w.res.append((0, o, out, t0, w.now, None))
        w.pf.shutdown()

    w.run([("0", run)])
    w.pf = None
    return w


def sampler_oracle(case, w):
    part = []
    g, n = case["groups"], case["bpfb"]
    for d, o, out, *_ in w.res + [(0, "R", ("ok",))]:
        if o == "R":
            want = [("batch", tuple(np.round(np.array(sm.uv(2 * k)), 3))) for k in range(g) for _ in range(n)]
            if part[:len(want)] != want:
                return dict(sig="stream", detail=f"{part} delivered, {want} due")
            if any(x != ("stop",) for x in part[len(want):]):
                return dict(sig="after-end", detail=f"{part[len(want):]} after the end of the data")
            part = []
        else:
            part.append(out)
    return None


def k_sampler_prefetch(case, tier, res):
    sampler(case, source(case))
    pm.explore_case(case, res, sampler_oracle, make_world=sampler_world)


def replay(v):
    k = v["case"]["k"]
    if k == "prefetch":
        return pm.replay_with(oracle)(v)
    if k == "prefetch-files":
        return pm.replay_with(files_oracle, files_world)(v)
    if k == "sampler-prefetch":
        sampler(v["case"], source(v["case"]))
        return pm.replay_with(sampler_oracle, sampler_world)(v)
    r = common.run_one(__import__(__name__, fromlist=["x"]), v["case"], v.get("tier", "quick"), 600)
    for w in r.violations:
        print("reproduced:", w["sig"], w["detail"])
    return 1 if r.violations else 0
