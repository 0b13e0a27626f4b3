"""C16: sampling is reproducible from the seed and never repeats images within a run."""
import numpy as np

from . import common
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real sampler in lock step with a separately built twin (all next/reset "
             "strings to a depth), and pairwise comparison of every image of bounded runs")
NOTE = ("Every history within the bounds is executed on a sampler and on its separately built twin, batches compared bit for "
        "bit; what a batch holds must be a function of seed, position since the reset and group; all images of the runs of "
        "all seeds are compared pairwise.")
RULE = "distinct = different (configuration, seed, position, group) batches"
BOUNDS = {
    "quick": "7 generation settings (fixed and random parameters, hiding, noise, mask, histogram), 1-3 batches per group, "
             "source of 3 or unboundedly many groups; strings to depth 7; runs of 12 batches x 6 rows x 4 seeds, and of 2 batches x 9 seeds with high bits",
    "thorough": "depth 10; runs of 60 batches x 6 rows x 8 seeds",
}
ASSUMPTIONS = ["one device (see C32 for several)", "64-bit digests do not collide"]
XLA_CACHE = True

SETTINGS = {
    "plain": {},
    "ranges": dict(diameter_ranges=[(1.0, 2.0), (2.5, 3.0)], intensity_ranges=[(50.0, 100.0), (150.0, 200.0)],
                   rho_ranges=[(-0.5, 0.0), (0.1, 0.5)]),
    "vars": dict(diameter_ranges=[(1.0, 3.0)], diameter_var=0.3, intensity_ranges=[(50.0, 200.0)], intensity_var=10.0,
                 rho_ranges=[(-0.3, 0.3)], rho_var=0.1),
    "hide": dict(p_hide_img1=0.3, p_hide_img2=0.3),
    "density": dict(seeding_density_range=(0.02, 0.2)),
    "noise": dict(noise_uniform=20.0, noise_gaussian_mean=3.0, noise_gaussian_std=2.0),
    "mask": dict(),
    "hist": dict(),
}


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for i, name in enumerate(SETTINGS):
        for bpfb in (1, 3) if not T else (1, 2, 3):
            out.append(dict(k="twin", set=name, bpfb=bpfb, seed=i, groups=3, depth=10 if T else 7))
        if name != "hist" or T:
            out.append(dict(k="run", set=name, seeds=8 if T else 4, len=60 if T else 12))
    return out


def make(name, seed, groups, bpfb, n=2, b=6):
    import jax.numpy as jnp

    g = dict(batch_size=b, image_shape=(16, 20), seeding_density_range=(0.05, 0.05))
    g.update(SETTINGS[name])
    kw = {}
    if name == "mask":
        m = np.ones((16, 20), np.float32)
        m[:5] = 0
        kw["mask_images"] = jnp.array(m)
    if name == "hist":
        h = np.zeros(256)
        h[:64] = 5
        kw["histogram"] = jnp.array(h)
    # the margin is large enough for hidden and appearing particles
    return sm.build(sm.Src(groups), bpfb=bpfb, n=n, seed=seed, size=(28.0, 32.0), spec=dict(g, img_offset=(7.0, 7.0)), **kw)


def content(b):
    p = b.params
    arrs = [b.images1, b.images2, b.flow_fields] + ([p.seeding_densities, p.diameter_ranges, p.intensity_ranges, p.rho_ranges]
                                                    if p is not None else [])
    return common.digest(b"".join(np.ascontiguousarray(np.asarray(a)).tobytes() for a in arrs))


def run_case(case, tier, res):
    if case["k"] == "run":
        seen = {}
        s0 = make(case["set"], 0, None, 2)
        # seeds that differ in high bits only are different seeds too
        far = [2**j for j in range(4, 31, 4 if tier == "quick" else 1)] + [2**31 - 1, 65537] if case["set"] == "plain" else []
        for seed in list(range(case["seeds"])) + far:
            s = make(case["set"], seed, None, 2) if seed else s0
            for k in range(case["len"] if seed not in far else 2):
                got = sm.nxt(s)
                common.beat()
                if got[0] != "batch":
                    res.violate("missing", f"{got} at batch {k}")
                    return
                for i, (a, b) in enumerate(zip(np.asarray(got[1].images1), np.asarray(got[1].images2))):
                    res.evaluations += 1
                    if not a.any() and not b.any():
                        continue
                    for which, im in ((1, a), (2, b)):
                        d = common.digest(im.tobytes())
                        if d in seen and seen[d][:3] != (seed, k, i):
                            res.violate("repeat", f"image {which} of seed {seed}, batch {k}, row {i} is that of {seen[d]}")
                            return
                        seen.setdefault(d, (seed, k, i))
                res.seen((case["set"], seed, k))
                res.transitions += 1
            res.traces += 1
            # the run of a fresh sampler again, from its middle and from its start
        res.states += len(seen)
        return
    a = make(case["set"], case["seed"], case["groups"], case["bpfb"])
    b = make(case["set"], case["seed"], case["groups"], case["bpfb"])
    table = {}
    todo, done = [(a, b, sm.Groups(a.scheduler, case["bpfb"]), ())], set()
    while todo:
        x, y, m, h = todo.pop(0)
        res.states += 1
        if len(h) >= case["depth"]:
            res.traces += 1
            continue
        for op in ("n", "R", "r"):
            x2, y2, m2, h2 = sm.clone(x), sm.clone(y), m.copy(), h + (op,)
            res.transitions += 1
            common.beat()
            if op != "n":
                x2.reset(scheduler_reset=op == "R")
                y2.reset(scheduler_reset=op == "R")
                m2.reset(op == "R")
            else:
                gx, gy, want = sm.nxt(x2), sm.nxt(y2), m2.next()
                res.evaluations += 1
                if gx[0] != gy[0] or (want is not None) != (gx[0] == "batch"):
                    res.violate("differ", f"{gx[0]} / {gy[0]} (due: group {want}) after {' '.join(h2)}", hist=h2)
                    return
                if want is not None:
                    dx, dy = content(gx[1]), content(gy[1])
                    if dx != dy:
                        res.violate("differ", f"two samplers with the same settings and seed differ after {' '.join(h2)}", hist=h2)
                        return
                    key = (m2.idx, want)
                    if table.setdefault(key, dx) != dx:
                        res.violate("reset", f"batch {m2.idx} since the reset (group {want}) is not what it was in another "
                                    f"history; operations {' '.join(h2)}", hist=h2)
                        return
                    res.seen((case["set"], case["bpfb"], key))
            k = (sm.state(x2), m2.key())
            if k in done:
                res.traces += 1
                continue
            done.add(k)
            todo.append((x2, y2, m2, h2))
    if len(set(table.values())) != len(table):
        res.violate("repeat", "two different positions of a run hold the same batch")
