"""C36: recorded image pairs and flows reach the user exactly as recorded."""
import itertools
import os
import types

import numpy as np

from . import common
from . import fsmodel as fm
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive execution of all request / reset strings to a depth on the real sampler of recorded data over real files, every row, image and flow "
             "compared with the recorded data by a pass model")
NOTE = "Every operation string within the bounds is executed on real stacks over real files; every delivered row is judged by the pass model of C01-C03."
RULE = "distinct = different (dataset, options, step, operation, outcome) observations, or (recorded types, extreme values)"
BOUNDS = {
    "quick": "NumPy and MATLAB datasets of 1-4 entries (unreadable, repeated, of one name, with broken images), looping and shuffling or not, 1, 2, 3 and 5 rows, no prefetching or "
             "buffers of 1 and 3, built directly or from a mapping; strings of length 6 over next, reset and reset without the source with at most two resets; "
             "7 recorded number types x image forms x resizing; every refused stack",
    "thorough": "length 8, at most three resets",
}
ASSUMPTIONS = ["one device", "the producer of a prefetching stack runs freely (its schedules are explored in C09-C14)", "images of NumPy data are what PIL decodes"]
XLA_CACHE = True
SHIM = False
CASE_LIMIT = {"quick": 90, "thorough": 300}
F = ["f", 1]
SPECS = [[F], [F, F], [F, F, F], [["bad"], F], [F, ["bad"], F, F], [F, ["dup", 0], F], [F, ["bad", "trunc"], F], [F, F, ["bad", "img"]]]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for fmt, (i, sp), loop, rnd in itertools.product(("npy", "mat"), enumerate(SPECS), (False, True), (False, True)):
        if ["bad", "img"] in sp and fmt == "mat":
            continue
        for b in (1, 2, 3, 5):
            kw = dict(fmt=fmt, spec=sp, loop=loop, rnd=rnd, b=b, dirs=i % 3 == 1, depth=8 if T else 6, seed=seed + i, config=(i + b) % 2 == 0)
            out.append(dict(k="stream", buf=0, **kw))
            if i % 2 == b % 2:
                out.append(dict(k="stream", buf=1 + 2 * (b % 2), **kw))
    for fmt in ("npy", "mat"):
        out.append(dict(k="types", fmt=fmt))
    return out + [dict(k="refuse", fmt=fmt) for fmt in ("npy", "mat", "h5")]


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res, tier)


def source(ds, case):
    from synthpix import scheduler as S

    s = ds.build(randomize=case["rnd"], loop=case["loop"], key=case["seed"])
    if case["buf"]:
        s = S.PrefetchingFlowFieldScheduler(s, batch_size=case["b"], buffer_size=case["buf"], startup_timeout=80.0, steady_state_timeout=80.0)
    return s


def sampler(s, case):
    from synthpix.sampler import RealImageSampler

    if case.get("config"):
        return RealImageSampler.from_config(s, {"batch_size": case["b"]} if case["b"] > 1 else {})
    return RealImageSampler(s, batch_size=case["b"])


def form(bt, b):
    """What every batch of recorded data has."""
    for n in ("images1", "images2", "flow_fields"):
        v = getattr(bt, n)
        if v is None or np.asarray(v).dtype != np.float32:
            return ("type", f"{n} is {None if v is None else np.asarray(v).dtype}")
    if bt.params is not None or bt.done is not None:
        return ("extra", f"params {bt.params}, done {bt.done}")
    return None


def k_stream(case, res, tier):
    ds = fm.Dataset(case["fmt"], case["spec"], images=True, dirs=case["dirs"])
    b = case["b"]
    seen = set()
    strings = [o for o in itertools.product("nRr", repeat=case["depth"]) if sum(c != "n" for c in o) <= (3 if tier == "thorough" else 2)]
    if case["buf"] and case["rnd"]:  # how far the producer read decides the later shuffling
        strings = strings[:1] + [o for o in strings if "R" not in o][1:]
    for ops in strings:
        common.beat()
        s = sampler(source(ds, case), case)
        m = fm.Pass(ds, case["rnd"], case["loop"])
        ended = False
        try:
            for k, op in enumerate(ops):
                h = ops[:k + 1]
                if h not in seen:
                    seen.add(h)
                    res.transitions += 1
                if op in "Rr":
                    s.reset(scheduler_reset=op == "R")
                    if op == "R":
                        m.start()
                        ended = False
                    continue
                if ended and case["buf"]:
                    continue  # answered after the timeout only
                got = sm.nxt(s)
                if got[0] == "batch":
                    bad = form(got[1], b)
                else:
                    got, bad = (("end",) if got[0] in ("end", "stop") else got), None
                ended = got[0] == "end"
                res.evaluations += 1
                res.seen((case["fmt"], tuple(map(tuple, case["spec"])), case["loop"], case["rnd"], case["buf"], b, m.key(), op, got[0]))
                bad = bad or fm.judge(ds, m, b, got, ("stream", "form", "end"))
                if bad:
                    res.violate(bad[0], f"{bad[1]}; operations {' '.join(h)}; {case}", hist=h)
                    return
        finally:
            s.shutdown()
        res.traces += 1
    res.states += len(seen)


def k_types(case, res, tier):
    """Every recorded number type arrives with its values, at their extremes."""
    from synthpix import scheduler as S
    from synthpix.sampler import RealImageSampler
    import scipy.io
    from PIL import Image

    h, w = 4, 6
    ramp = np.arange(h * w * 2).reshape(h, w, 2)
    flows = {"f4": (ramp / 7 - 3).astype("f4"), "f8": ramp / 3.0 - 8, "f2": (ramp / 8 - 2).astype("f2"), "i1": (ramp * 5 - 120).astype("i1"),
             "u1": (ramp * 5).astype("u1"), "i2": (ramp * 700 - 16000).astype("i2"), "i4": (ramp * 1000 - 9000).astype("i4")}
    pix = np.arange(h * w).reshape(h, w)
    images = {"u1": (pix * 11 % 256).astype("u1"), "u2": (pix * 2849).astype("u2"), "f8": pix / 23.0, "f4": (pix / 23.0 - 0.5).astype("f4"),
              "rgb": np.stack([pix * 11 % 256, 255 - pix, pix * 3], -1).astype("u1")}
    for (fn, flow), (im, img) in itertools.product(flows.items(), images.items()):
        if case["fmt"] == "npy" and im not in ("u1", "rgb"):
            continue
        d = common.tmpdir()
        second = img[::-1, ::-1].copy()
        if case["fmt"] == "npy":
            p = os.path.join(d, "flow_1.npy")
            np.save(p, flow)
            for n, a in (("img_0.jpg", img), ("img_1.jpg", second)):
                Image.fromarray(a).save(os.path.join(d, n), quality=100)
            want = [np.array(Image.open(os.path.join(d, n)).convert("RGB")) for n in ("img_0.jpg", "img_1.jpg")]
            src = S.NumpyFlowFieldScheduler([p], randomize=False, loop=False, include_images=True)
        else:
            p = os.path.join(d, "a.mat")
            scipy.io.savemat(p, {"V": flow, "I0": img, "I1": second})
            want = [img, second]
            src = S.MATFlowFieldScheduler([p], randomize=False, loop=False, include_images=True, output_shape=(h, w))
        got = sm.nxt(RealImageSampler(src, batch_size=1))
        what = f"{case['fmt']}: flow of {fn}, images of {im}"
        res.evaluations += 1
        res.traces += 1
        res.seen((case["fmt"], fn, im))
        common.beat()
        if got[0] != "batch":
            res.violate("types", f"{what}: {got}")
            return
        bt = got[1]
        bad = form(bt, 1)
        for n, v in zip(("flow_fields", "images1", "images2"), [flow] + want):
            if not bad and not np.array_equal(np.asarray(getattr(bt, n))[0], v.astype(np.float32)):
                bad = ("values", f"{n} differ from what is recorded")
        if bad:
            res.violate(bad[0], f"{what}: {bad[1]}")
            return


def k_refuse(case, res, tier):
    """Sources without recorded images, and sizes that are none, are refused."""
    from synthpix import scheduler as S
    from synthpix.sampler import RealImageSampler

    for images in (False, True):
        ds = fm.Dataset(case["fmt"], [F] * 3, images=images and case["fmt"] != "h5")
        base = lambda: ds.build(loop=True)
        pf = lambda s: S.PrefetchingFlowFieldScheduler(s, batch_size=1, buffer_size=1)
        ep = lambda s: S.EpisodicFlowFieldScheduler(s, batch_size=1, episode_length=2)
        stacks = [("plain", base), ("prefetched", lambda: pf(base()))]
        if case["fmt"] == "mat":
            stacks += [("episodic", lambda: ep(base())), ("prefetched episodic", lambda: pf(ep(base())))]
        for name, make in stacks:
            for b in (1, 0, -1, 1.0, None, "1"):
                for config in (False, True):
                    ok = ds.images and b == 1 and type(b) is int
                    s = make()
                    res.evaluations += 1
                    res.traces += 1
                    res.seen((case["fmt"], images, name, b, config))
                    try:
                        RealImageSampler.from_config(s, {"batch_size": b}) if config else RealImageSampler(s, batch_size=b)
                        got = "accepted"
                    except ValueError:
                        got = "refused"
                    except Exception as e:
                        got = f"{type(e).__name__}: {e}"
                    s.shutdown()
                    if got != ("accepted" if ok else "refused"):
                        res.violate("refuse", f"{case['fmt']}, {name}, {'with' if ds.images else 'without'} images, batch size {b!r}: {got}")
                        return
