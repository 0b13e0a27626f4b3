"""C34: schedulers and samplers of one process do not affect each other."""
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from . import common, epmodel
from . import fsmodel as fm
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive execution of all interleavings (to a depth) of the operations of two schedulers over the same files, stacks and samplers, "
             "each judged by its own reference model, undisturbed twin, or run in a process of its own")
NOTE = ("Every interleaving within the bounds is executed on the real objects; what each object delivers must be what it delivers alone (model, twin, "
        "or a process in which nothing else was built).")
RULE = "distinct = different (pair, operation, progress, outcome) observations"
BOUNDS = {
    "quick": "two base schedulers over the same files: 3 formats, 4 pairs of options, interleavings of requests (1-2 rows) and resets of both to "
             "depth 5; episodic and prefetching pairs to depth 5 with shutdown; 14 sampler configurations, each against all the others",
    "thorough": "depth 6",
}
ASSUMPTIONS = ["the producer threads of prefetching stacks run freely (their schedules are explored in C09-C14)"]
XLA_CACHE = True
SHIM = False
CASE_LIMIT = {"quick": 150, "thorough": 300}

PAIRS = [((False, False), (False, True)), ((True, False), (False, True)), ((True, True), (True, True)), ((True, True), (False, False))]

CONFIGS = {
    "plain": {},
    "seed": dict(seed=7),
    "batch": dict(spec=dict(batch_size=3)),
    "shape": dict(spec=dict(image_shape=(14, 18))),
    "density": dict(spec=dict(seeding_density_range=(0.02, 0.2))),
    "diameter": dict(spec=dict(diameter_ranges=[(1.0, 2.0), (2.5, 3.0)], diameter_var=0.2)),
    "intensity": dict(spec=dict(intensity_ranges=[(50.0, 60.0)], intensity_var=5.0)),
    "rho": dict(spec=dict(rho_ranges=[(-0.5, 0.5)], rho_var=0.05)),
    "hide": dict(spec=dict(p_hide_img1=0.4, p_hide_img2=0.2)),
    "noise": dict(spec=dict(noise_uniform=20.0, noise_gaussian_std=2.0)),
    "dt": dict(spec=dict(dt=2.0)),
    "scale": dict(vpp=1.5, res=0.9),
    "units": dict(units="measure units per second"),
    "hist": dict(hist=True),
    "mask": dict(masked=True),
}


def sampler(name):
    import jax.numpy as jnp

    kw = {k: dict(v) if isinstance(v, dict) else v for k, v in CONFIGS[name].items()}
    spec = dict(batch_size=4, image_shape=(16, 20), seeding_density_range=(0.05, 0.05), img_offset=(7.0, 7.0), dt=0.8)
    spec.update(kw.pop("spec", {}))
    shape = spec["image_shape"]
    if kw.pop("hist", None):
        h = np.zeros(256)
        h[:64] = shape[0] * shape[1] / 64
        kw["histogram"] = jnp.array(h)
    if kw.pop("masked", None):
        m = np.ones(shape, np.float32)
        m[:5] = 0
        kw["mask_images"] = jnp.array(m)
    return sm.build(sm.Src(None), bpfb=2, n=2, size=(40.0, 44.0), spec=spec, sp=1.3, **kw)


def numbers(b):
    p = b.params
    out = [b.images1, b.images2, b.flow_fields]
    if p is not None:
        out += [p.seeding_densities, p.diameter_ranges, p.intensity_ranges, p.rho_ranges]
    return [np.asarray(a, np.float64) for a in out]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for fmt, pair in itertools.product(("h5", "npy", "mat"), PAIRS):
        out.append(dict(k="sched", fmt=fmt, pair=pair, shared=True, depth=6 if T else 5))
        if T:
            out.append(dict(k="sched", fmt=fmt, pair=pair, shared=False, depth=5))
    for L, n in itertools.product((1, 2), (1, 2)):
        out.append(dict(k="epi", L=L, n=n, depth=6 if T else 5))
    for buf in (1, 3):
        out.append(dict(k="pre", buf=buf, depth=6 if T else 5))
    for name in CONFIGS:
        out.append(dict(k="sampler", name=name, len=4))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res)


def k_sched(case, res):
    """Two schedulers over the same files, also built from one and the same list."""
    spec = [["f", 3], ["f", 2]] if case["fmt"] == "h5" else [["f", 1]] * 3
    ds = fm.Dataset(case["fmt"], spec)
    for ops in itertools.product([(0, 1), (0, 2), (0, "R"), (1, 1), (1, 2), (1, "R")], repeat=case["depth"]):
        if ops[0][0] or not any(o[0] for o in ops):
            continue
        common.beat()
        fl = list(ds.paths)
        two = [ds.build(randomize=r, loop=lp, key=3 + i, file_list=fl if case["shared"] else list(fl)) for i, (r, lp) in enumerate(case["pair"])]
        models = [fm.Pass(ds, r, lp) for r, lp in case["pair"]]
        for j, (i, op) in enumerate(ops):
            res.transitions += 1
            if op == "R":
                two[i].reset()
                models[i].start()
                continue
            got = fm.call(two[i], op)
            res.evaluations += 1
            bad = fm.judge(ds, models[i], op, got, ("stream", "end", "form"))
            res.seen((case["fmt"], case["pair"], i, models[i].key(), op, got[0]))
            if bad:
                res.violate(bad[0], f"{'AB'[i]}: {bad[1]}; interleaving {' '.join('AB'[o] + str(p) for o, p in ops[:j + 1])}; {case}", hist=list(ops[:j + 1]))
                return
        res.traces += 1
    res.states += 2 * len(ds.paths)


def outcome(s, n, op):
    from synthpix.scheduler.protocol import EpisodeEnd

    try:
        if op == "G":
            d = s.get_batch(n)
            return ("batch", np.asarray(d.flow_fields).tobytes(), d.files, None if d.mask is None else np.asarray(d.mask).tobytes())
        if op == "S":
            s.shutdown()
        else:
            s.next_episode() if op == "N" else s.reset()
        return ("ok",)
    except StopIteration:
        return ("end",)
    except EpisodeEnd:
        return ("episode-end",)


def alone(build, n, alphabet, depth, ok):
    """{string: outcome of its last operation} of an object built when nothing else runs."""
    table = {}
    for k in range(depth, 0, -1):
        for ops in itertools.product(alphabet, repeat=k):
            if ops in table or not ok(ops):
                continue
            common.beat()
            s = build()
            try:
                for j, op in enumerate(ops):
                    table[ops[:j + 1]] = outcome(s, n, op)
            finally:
                s.shutdown()
    return table


def pairs(case, res, builds, n, alphabet, ok):
    """All interleavings of two objects; each must behave as it does alone."""
    solo = [alone(b, n, alphabet, case["depth"] - 1, ok) for b in builds]
    for ops in itertools.product([(i, o) for i in (0, 1) for o in alphabet], repeat=case["depth"]):
        strs = [tuple(o for i, o in ops if i == k) for k in (0, 1)]
        if ops[0][0] or not strs[1] or not all(ok(s) for s in strs) or not any("G" in s for s in strs):
            continue
        common.beat()
        two = [b() for b in builds]
        at = [(), ()]
        try:
            for j, (i, op) in enumerate(ops):
                got = outcome(two[i], n, op)
                at[i] += (op,)
                res.transitions += 1
                res.evaluations += 1
                res.seen((case["k"], case.get("L"), i, at[i], got[0]))
                if got != solo[i][at[i]]:
                    res.violate("disturbed", f"{'AB'[i]} gives {str(got)[:120]} at {' '.join('AB'[k] + o for k, o in ops[:j + 1])}; alone: "
                                f"{str(solo[i][at[i]])[:120]}; {case}", hist=list(ops[:j + 1]))
                    return
        finally:
            for s in two:
                s.shutdown()
        res.traces += 1
    res.states += sum(len(s) for s in solo)


def k_epi(case, res):
    import jax
    from synthpix import scheduler as S

    data = epmodel.Sequences({"a": case["L"] + 1, "b": case["L"]})

    def build(i):
        base = data.base(loop=True, key=jax.random.PRNGKey(3 + i))
        return S.EpisodicFlowFieldScheduler(base, batch_size=case["n"], episode_length=case["L"], key=jax.random.PRNGKey(4 + i))

    pairs(case, res, [lambda: build(0), lambda: build(1)], case["n"], "GNR", lambda s: True)


def k_pre(case, res):
    from synthpix import scheduler as S

    ds = fm.Dataset("h5", [["f", 3], ["f", 2]])

    def build(i):
        return S.PrefetchingFlowFieldScheduler(ds.build(randomize=False, loop=bool(i), key=2), batch_size=2, buffer_size=case["buf"],
                                               startup_timeout=80.0, steady_state_timeout=80.0)

    # after a shutdown nothing more is asked of that one
    pairs(case, res, [lambda: build(0), lambda: build(1)], 2, "GRS", lambda s: "S" not in s[:-1])


def draw(s):
    got = sm.nxt(s)
    return numbers(got[1]) if got[0] == "batch" else None


def k_sampler(case, res):
    """A sampler in a process of its own, and next to each of the others (made before and after it, in every order of requests)."""
    tmp = common.tmpdir()
    common.beat()
    out = os.path.join(tmp, "alone.npz")
    p = subprocess.run([sys.executable, "-m", "mc.c34", case["name"], str(case["len"]), out], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       capture_output=True, text=True, timeout=140)
    if p.returncode:
        raise RuntimeError("the process of its own failed: " + p.stderr[-2000:])
    with np.load(out) as z:
        want = [[z[f"{k}_{j}"] for j in range(int(z["n"]))] for k in range(case["len"])]
    orders = sorted(set(itertools.permutations("AABB")))
    for i, other in enumerate(CONFIGS):
        first = i % 2 == 0
        common.beat()
        if first:
            b = sampler(other)
            draw(b)
            a = sampler(case["name"])
        else:
            a = sampler(case["name"])
            b = sampler(other)
        for order in orders if i % 2 else orders[::-1]:
            x, y, k = sm.fresh(a, sm.Src(None)), sm.fresh(b, sm.Src(None)), 0
            common.beat()
            for who in order:
                res.transitions += 1
                if who == "B":
                    draw(y)
                    continue
                bad = unlike(draw(x), want[k])
                res.evaluations += 1
                res.seen((case["name"], other, k, order))
                if bad:
                    res.violate("disturbed", f"batch {k} of the sampler {case['name']} next to one with {other} is not what it is in a process of its own: "
                                f"{bad}; order {''.join(order)}; {case}")
                    return
                k += 1
            res.traces += 1
    res.states += len(CONFIGS)


def unlike(a, b):
    """None when two batches are equal up to rounding (compiled in different processes)."""
    if a is None or len(a) != len(b):
        return "missing"
    for j, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return f"shape {x.shape} / {y.shape}"
        if x.size and (np.abs(x - y).mean() > 1e-2 * (1 + np.abs(y).mean()) or (j > 1 and np.abs(x - y).max() > 1e-3 * (1 + np.abs(y).max()))):
            return f"array {j} differs by {np.abs(x - y).max():g}"
    return None


def main():
    from . import env

    env.setup(devices=1, cache_dir=None, shim=False)
    s = sampler(sys.argv[1])
    d = {}
    for k in range(int(sys.argv[2])):
        arrs = draw(s)
        d["n"] = len(arrs)
        d.update({f"{k}_{j}": x for j, x in enumerate(arrs)})
    np.savez(sys.argv[3], **d)


if __name__ == "__main__":
    main()
