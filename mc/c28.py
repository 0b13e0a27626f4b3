"""C28: the factory builds what the configuration says."""
import itertools
import os
import threading

import numpy as np

from . import common, epmodel
from . import fsmodel as fm
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of a configuration lattice on the real factory; streams compared bit for bit with hand-assembled samplers, "
             "between mapping and file, and between prefetching settings; every single-key deletion or corruption of valid configurations")
NOTE = "Every configuration of the lattice is built and iterated to its end (or a bound) in every variant; refusals are checked to happen in make()."
RULE = "distinct = different (configuration, variant, position) batches, or corruptions"
BOUNDS = {
    "quick": "synthetic: 3 formats x 5 (batch size, flow fields per batch) pairs x 2 reuse counts x looping or not x shuffled or not (a third of the "
             "combinations), buffers 0, 1, 3; real images: batch sizes 1-3 x looping x shuffling, buffers 0, 1, 2; episodes: 2 and 3 steps, both image "
             "kinds, buffers 0, 1, 4, 3 episodes with and without early ends; 4 keys; 150 corruptions",
    "thorough": "all combinations, 8 batches, buffers 0-4, 8 keys",
}
ASSUMPTIONS = ["the prefetching thread runs freely: its schedules are explored in C09-C14"]
XLA_CACHE = True
SHIM = False
CASE_LIMIT = {"quick": 150, "thorough": 400}

SYN = dict(image_shape=[10, 12], img_offset=[1.0, 1.0], flow_field_size=[14.0, 17.0], resolution=1.0, velocities_per_pixel=1.0, dt=1.0, seeding_density_range=[0.05, 0.06],
           p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[[0.8, 1.2]], diameter_var=0.0, intensity_ranges=[[80, 100]], intensity_var=0.0, rho_ranges=[[-0.1, 0.1]],
           rho_var=0.0, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0, max_speed_x=1.0, max_speed_y=1.0, min_speed_x=-1.0, min_speed_y=-1.0,
           output_units="pixels", seed=3, device_ids=[0])
# files of the synthetic sources, in slices
SPEC = {"h5": [["f", 2], ["f", 3], ["f", 1], ["f", 2]], "npy": [["f", 1]] * 7, "mat": [["f", 1]] * 7}
PAIRS = [(1, 1), (2, 1), (3, 2), (3, 3), (4, 2)]


def cases(tier, seed):
    T = tier == "thorough"
    out, k = [], 0
    for fmt, (b, n), bpfb, loop, rnd in itertools.product(SPEC, PAIRS, (1, 2), (False, True), (False, True)):
        k += 1
        if T or k % 3 == 0:
            out.append(dict(k="syn", fmt=fmt, b=b, n=n, bpfb=bpfb, loop=loop, rnd=rnd, seed=k % 4, len=8 if T else 6, bufs=[1, 2, 3, 4] if T else [1, 3]))
    for b, loop, rnd, s in itertools.product((1, 2, 3), (False, True), (False, True), range(8 if T else 4)):
        out.append(dict(k="real", b=b, loop=loop, rnd=rnd, seed=s, len=9 if T else 6, bufs=[1, 2, 3] if T else [1, 2]))
    for real, L, (b, n), early in itertools.product((True, False), (2, 3), ((1, 1), (3, 2), (3, 3)), (False, True)):
        if not (real and n != b):
            out += [dict(k="epi", real=real, L=L, b=b, n=n, early=early, seed=s, bufs=[1, 2, 4] if T else [1, 4]) for s in range(4 if T else 2)]
    out.append(dict(k="seeds", n=12 if T else 6))
    out += [dict(k="refused", real=r, epi=e) for r in (False, True) for e in (0, 2)]
    return out


def run_case(case, tier, res):
    before = set(threading.enumerate())
    globals()["k_" + case["k"]](case, res)
    res.traces += 1
    left = [t for t in threading.enumerate() if t not in before and t.is_alive() and "synthpix" in repr(getattr(t, "_target", "")).lower()]
    for t in left:
        t.join(5)
    if any(t.is_alive() for t in left):
        res.violate("thread", f"{case}: threads {left} still run after shutdown")


def dataset(fmt):
    """Files of constant flow fields; flow field k is uniform."""
    ds = fm.Dataset(fmt, SPEC[fmt])
    for i, p in enumerate(ds.paths):
        fl = [np.zeros((14, 17, 2), np.float32) + np.array([(7 * i + s) % 19 / 10 - 0.9, (5 * i + 3 * s) % 17 / 10 - 0.8], np.float32) for s in range(ds.slices[p])]
        if fmt == "h5":
            import h5py

            with h5py.File(p, "w") as f:
                f.create_dataset("flow", data=np.stack(fl, axis=1))
        elif fmt == "npy":
            np.save(p, fl[0])
        else:
            import scipy.io

            scipy.io.savemat(p, {"V": fl[0]})
    return ds


def make(cfg):
    import contextlib
    import io

    from synthpix.make import make as f

    with contextlib.redirect_stdout(io.StringIO()):
        return f(cfg)


def yaml_file(cfg):
    from ruamel.yaml import YAML

    p = os.path.join(common.tmpdir(), "c.yaml")
    with open(p, "w") as f:
        YAML(typ="safe").dump(cfg, f)
    return p


def row(b):
    """A comparable form of everything in a batch."""
    p = b.params
    arrs = dict(images1=b.images1, images2=b.images2, flow_fields=b.flow_fields, mask=b.mask, done=b.done)
    if p is not None:
        arrs.update({k: getattr(p, k) for k in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")})
    out = {k: None if v is None else (np.shape(v), np.asarray(v).tobytes()) for k, v in arrs.items()}
    out["files"] = None if b.files is None else tuple(b.files)
    return out


def stream(s, n):
    out = []
    try:
        for _ in range(n):
            got = sm.nxt(s)
            common.beat()
            out.append(row(got[1]) if got[0] == "batch" else got)
            if got[0] != "batch":
                break
    finally:
        s.shutdown()
    return out


def differ(a, b):
    if len(a) != len(b):
        return f"{len(a)} results instead of {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                return f"batch {k} differs in {[f for f in x if x[f] != y[f]]}"
            return f"result {k} is {str(x)[:200]} instead of {str(y)[:200]}"
    return None


def compare(res, case, cfg, base, n, variants):
    """Streams of the variants of a configuration against the base stream; True when all are equal."""
    for name, v in variants:
        res.evaluations += len(base)
        try:
            got = stream(make(v), n)
        except Exception as e:
            res.violate("error", f"{case}, {name}: {type(e).__name__}: {str(e)[:300]}")
            return False
        bad = differ(got, base)
        if bad:
            res.violate(name.split(":")[0], f"{case}, {name}: {bad}")
            return False
        res.transitions += len(got)
        for k in range(len(got)):
            res.seen((repr(case), name, k))
    return True


def plain(case, res, cfg, hand):
    try:
        base = stream(make(cfg), case["len"])
    except Exception as e:
        res.violate("error", f"{case}: {type(e).__name__}: {str(e)[:300]}")
        return None
    if not base or any(x[0] not in ("end",) for x in base if not isinstance(x, dict)):
        res.violate("unusable", f"{case}: {[x for x in base if not isinstance(x, dict)]}")
        return None
    if hand is not None:
        bad = differ(stream(hand, case["len"]), base)
        if bad:
            res.violate("assembled", f"{case}: the stream is not that of the sampler assembled by hand: {bad}")
            return None
    vs = [("again", cfg), ("file", yaml_file(cfg)), ("defaults: none added", {**cfg, "buffer_size": 0, "episode_length": 0})]
    vs += [(f"prefetch: buffer {q}", {**cfg, "buffer_size": q}) for q in case["bufs"]]
    vs.append(("prefetch: from a file", yaml_file({**cfg, "buffer_size": case["bufs"][0]})))
    if cfg["loop"] is True:
        vs.append(("default: loop", {k: v for k, v in cfg.items() if k != "loop"}))
    if cfg["randomize"] is False:
        vs.append(("default: randomize", {k: v for k, v in cfg.items() if k != "randomize"}))
    if not cfg.get("seed", 1):
        vs.append(("default: seed", {k: v for k, v in cfg.items() if k != "seed"}))
    compare(res, case, cfg, base, case["len"], vs)
    return base


def k_syn(case, res):
    from synthpix import scheduler as S
    from synthpix.sampler import SyntheticImageSampler
    from synthpix.types import ImageGenerationSpecification as Spec

    ds = dataset(case["fmt"])
    cfg = dict(SYN, scheduler_class="." + case["fmt"], batch_size=case["b"], flow_fields_per_batch=case["n"], batches_per_flow_batch=case["bpfb"], loop=case["loop"],
               randomize=case["rnd"], seed=case["seed"], file_list=list(ds.paths))
    hand = None
    if not case["rnd"]:
        c = cfg
        sch = {"h5": S.HDF5FlowFieldScheduler, "npy": S.NumpyFlowFieldScheduler, "mat": S.MATFlowFieldScheduler}[case["fmt"]](list(ds.paths), loop=case["loop"])
        tup = {k: tuple(c[k]) for k in ("image_shape", "img_offset", "seeding_density_range")}
        rng = {k: [tuple(r) for r in c[k]] for k in ("diameter_ranges", "intensity_ranges", "rho_ranges")}
        val = {k: c[k] for k in ("p_hide_img1", "p_hide_img2", "diameter_var", "intensity_var", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")}
        hand = SyntheticImageSampler(
            scheduler=sch, generation_specification=Spec(batch_size=case["b"], **tup, **rng, **val), flow_field_size=tuple(c["flow_field_size"]),
            **{k: c[k] for k in ("batches_per_flow_batch", "flow_fields_per_batch", "resolution", "velocities_per_pixel", "seed", "max_speed_x", "max_speed_y", "min_speed_x",
                                 "min_speed_y", "output_units", "device_ids")})
    plain(case, res, cfg, hand)


def k_real(case, res):
    from synthpix import scheduler as S
    from synthpix.sampler import RealImageSampler

    ds = fm.Dataset("mat", [["f", 1]] * 5, images=True)
    cfg = dict(scheduler_class=".mat", include_images=True, image_shape=[fm.H, fm.W], batch_size=case["b"], flow_fields_per_batch=1, loop=case["loop"], randomize=case["rnd"],
               seed=case["seed"], file_list=list(ds.paths))
    hand = None
    if not case["rnd"]:
        hand = RealImageSampler(S.MATFlowFieldScheduler(list(ds.paths), loop=case["loop"], include_images=True, output_shape=(fm.H, fm.W)), case["b"])
    base = plain(case, res, cfg, hand)
    if base and case["rnd"]:  # every pass delivers every file once
        fs = [f for x in base if isinstance(x, dict) for f in x["files"] if f][: len(ds.paths)]
        if sorted(fs) != sorted(ds.paths) and len(base) * case["b"] >= len(ds.paths):
            res.violate("shuffled", f"{case}: a shuffled pass delivers {fs}")


def episodes(s, L, early, n):
    """Results of n episodes, the odd ones ended early when asked to."""
    out = []
    try:
        for e in range(n):
            if e:
                s.next_episode()
            for t in range(L - 1 if early and e % 2 == 0 else L + 1):
                got = sm.nxt(s)
                common.beat()
                out.append(dict(row(got[1]), batch=got[1]) if got[0] == "batch" else got)
    finally:
        s.shutdown()
    return out


def k_epi(case, res):
    L, b, n, real = case["L"], case["b"], case["n"], case["real"]
    seq = epmodel.Sequences({"a": 4, "b": 3, "c/d": 5})
    cfg = dict(scheduler_class=".mat", batch_size=b, flow_fields_per_batch=n, episode_length=L, seed=case["seed"], file_list=[seq.root], randomize=False, loop=True)
    if real:
        cfg.update(include_images=True, image_shape=[fm.H, fm.W])
    else:
        cfg = dict(SYN, **dict(cfg, batches_per_flow_batch=1))
    rows = b if real else n
    base = None
    order = sorted(seq.tag.values())
    pos = {p: (d, k) for d, fs in seq.frames.items() for k, p in enumerate(fs)}
    assert order
    for buf, form in [(0, "mapping"), (0, "mapping"), (0, "file")] + [(q, "mapping") for q in case["bufs"]] + [(case["bufs"][0], "file")]:
        c = {**cfg, "buffer_size": buf}
        what = f"{case}, buffer {buf} from a {form}"
        res.evaluations += 1
        try:
            got = episodes(make(c if form == "mapping" else yaml_file(c)), L, case["early"], 3)
        except Exception as e:
            res.violate("error", f"{what}: {type(e).__name__}: {str(e)[:300]}")
            return
        # the content: consecutive frames of one directory per row
        k = 0
        for e in range(3):
            prev = None
            for t in range(L - 1 if case["early"] and e % 2 == 0 else L + 1):
                x = got[k]
                k += 1
                if t == L:
                    if x[0] != "episode-end" if not isinstance(x, dict) else True:
                        res.violate("episode-end", f"{what}: {str(x)[:200]} after the last step of episode {e}")
                        return
                    continue
                if not isinstance(x, dict):
                    res.violate("unusable", f"{what}: {str(x)[:300]} at step {t} of episode {e}")
                    return
                bt = x.pop("batch")
                if len(bt.images1) != b or list(np.asarray(bt.done)) != [t == L - 1] * b:
                    res.violate("done", f"{what}: {len(bt.images1)} rows, done {bt.done} at step {t} of {L} in episode {e}")
                    return
                cur = [pos.get(f) for f in bt.files]
                if len(cur) != rows or None in cur or (prev and any(q != (p[0], p[1] + 1) for p, q in zip(prev, cur))):
                    res.violate("episode", f"{what}: the rows of step {t} of episode {e} come from {cur}, before from {prev}")
                    return
                prev = cur
        if base is None:
            base = got
        bad = differ(got, base)
        if bad:
            res.violate("episodes-differ", f"{what}: {bad}")
            return
        res.transitions += len(got)
        res.seen((repr(case), buf, form))


def k_seeds(case, res):
    """Seeds matter."""
    ds = dataset("npy")
    seq = epmodel.Sequences({"a": 4, "b": 3, "c/d": 5})
    real = dict(scheduler_class=".mat", include_images=True, image_shape=[fm.H, fm.W], batch_size=2, flow_fields_per_batch=1)
    syn = dict(SYN, scheduler_class=".npy", batch_size=2, flow_fields_per_batch=1, batches_per_flow_batch=1, file_list=list(ds.paths))
    for name, cfg in (("images", syn), ("shuffled files", dict(real, randomize=True, file_list=[seq.root])), ("episodes", dict(real, episode_length=3, file_list=[seq.root]))):
        got = set()
        for s in range(case["n"]):
            st = stream(make(dict(cfg, seed=s)), 3)
            res.evaluations += 1
            res.seen((name, s))
            got.add(repr([{k: v for k, v in x.items()} for x in st]))
        if len(got) < (case["n"] if name == "images" else case["n"] // 2):
            res.violate("seed", f"{name}: {case['n']} seeds make only {len(got)} different streams")
            return


DEL = "<deleted>"
BAD = {
    "scheduler_class": [".foo", "mat", None, 3, "", DEL],
    "batch_size": [0, -1, 1.5, "2", None, [2], DEL],
    "flow_fields_per_batch": [DEL],
    "buffer_size": [-1, 1.5, "1", [1]],
    "episode_length": [-1, 1.5, "3", [1]],
    "include_images": ["yes", 1, None, "false"],
    "file_list": [[], None, 5, ["/nonexistent/x.mat"], [3], [None], {"a": 1}, DEL],
    "randomize": ["no", 1, None], "loop": ["no", 0, None], "seed": ["x", 1.5, [1, 2]],
}
BAD_SYN = {
    "flow_fields_per_batch": [0, -1, 1.5, "1", None, 3], "batches_per_flow_batch": [0, -1, 1.5, "2", None, DEL], "seed": [-1], "resolution": [0, -1, "1", None, DEL],
    "velocities_per_pixel": [0, -1, "1", None, DEL], "flow_field_size": [[0, 17.0], [14.0, -1], ["a", "b"], None, DEL, [3.0, 17.0]], "image_shape": [[0, 12], [10], [10, -2], None, DEL],
    "img_offset": [[-1, 0], [1.0], None, DEL, [0.0, 1.0], [1.0, 9.0]], "seeding_density_range": [[0.2, 0.1], [-0.1, 0.1], [0.1], None, DEL], "p_hide_img1": [-0.1, 1.1, "0", None, DEL],
    "p_hide_img2": [-0.1, 1.1, DEL], "diameter_ranges": [[], [[1.2, 0.8]], [[0, 1]], [[1]], None, DEL], "diameter_var": [-1, None, DEL], "intensity_ranges": [[], [[9, 8]], [[-1, 8]], DEL],
    "intensity_var": [-1, DEL], "rho_ranges": [[], [[0.2, 0.1]], [[-1.5, 0]], DEL], "rho_var": [-1, DEL], "dt": [float("nan"), "1", None, DEL], "noise_uniform": [-1, "0"],
    "noise_gaussian_std": [-1, "0"], "output_units": ["furlongs", None, DEL], "max_speed_x": ["1", None, -2.0, DEL], "max_speed_y": ["1", None, -2.0, DEL], "min_speed_x": ["1", 2.0, DEL],
    "min_speed_y": ["1", 2.0, DEL], "mask": [5, "/nonexistent/m.npy"], "histogram": [5, "/nonexistent/h.npy"], "device_ids": [[], [77]],
}
BAD_REAL = {"scheduler_class": [".npy", ".h5"], "image_shape": [[0, 3], [2], [2, 3, 4], 5, [2.0, 3], ["a", "b"]]}


def k_refused(case, res):
    real, L = case["real"], case["epi"]
    seq = epmodel.Sequences({"a": 4, "b": 3})
    cfg = dict(scheduler_class=".mat", include_images=real, batch_size=2, flow_fields_per_batch=2, episode_length=L, buffer_size=1, seed=1, file_list=[seq.root], randomize=False, loop=True)
    cfg = dict(cfg, image_shape=[fm.H, fm.W]) if real else dict(SYN, **dict(cfg, batches_per_flow_batch=1, flow_field_size=[14.0, 17.0]))
    s = make(cfg)
    try:
        if sm.nxt(s)[0] != "batch":
            res.violate("unusable", f"{case}: the intact configuration cannot be iterated")
            return
    finally:
        s.shutdown()
    for key, vals in itertools.chain(BAD.items(), (BAD_REAL if real else BAD_SYN).items()):
        for v in vals:
            c = dict(cfg)
            if v == DEL:
                c.pop(key)
            else:
                c[key] = v
            res.evaluations += 1
            res.seen((real, L, key, repr(v)))
            common.beat()
            try:
                s = make(c)
            except Exception:
                continue
            got = sm.nxt(s)
            s.shutdown()
            res.violate("accepted", f"{case}: {key} = {v!r} is accepted; the first request gives {str(got)[:200]}")
            return
    d = common.tmpdir()
    for name, text in (("a.yaml", "- 1\n- 2\n"), ("b.txt", "batch_size: 1\n"), ("c.yaml", ""), ("d.yaml", "x: [1\n"), ("e.yaml", "just text\n")):
        open(os.path.join(d, name), "w").write(text)
    os.mkdir(os.path.join(d, "dir.yaml"))
    for c in [None, 3, [cfg], (cfg,), b"x.yaml", "", *[os.path.join(d, x) for x in ("a.yaml", "b.txt", "c.yaml", "d.yaml", "e.yaml", "none.yaml", "dir.yaml")]]:
        res.evaluations += 1
        res.seen((real, L, repr(c)))
        try:
            make(c)
        except Exception:
            continue
        res.violate("accepted", f"a configuration {c!r} is accepted")
        return
