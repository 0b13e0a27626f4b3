"""C23: histogram matching follows the target histogram."""
import itertools

import numpy as np

from . import common

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of all small images over a set of grey levels together with all target histograms over a set of bins "
             "on the real function against an integer definition")
NOTE = ("The oracle compares cumulative counts as integers by cross-multiplication, so ties between fractions are decided exactly; all "
        "images up to a size over the levels are combined with every distribution of the pixels over the bins.")
RULE = "distinct = different (source levels, target histogram) pairs"
BOUNDS = {
    "quick": "all images of 1-4 pixels over 8 grey levels (whole, fractional, both ends) x all targets over 6 bins with equal totals; of 1-3 "
             "pixels with totals 1, 2 and 7 times or unrelated to theirs; all image sizes 1-420 for whole-image families (own histogram, "
             "flat, one bin, ramps, two-level) and 3 dtypes",
    "thorough": "5 pixels over 8 levels, 4 with unequal totals, all sizes to 1500 and selected ones to 262144",
}
ASSUMPTIONS = ["grey levels lie in 0..255 as documented"]
XLA_CACHE = False

LEVELS = [0.0, 0.5, 1.0, 2.0, 127.75, 254.0, 254.99, 255.0]
BINS = [0, 1, 2, 128, 254, 255]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for n in range(1, 6 if T else 5):
        for first in range(len(LEVELS)) if n > 3 else (None,):
            out.append(dict(k="all", n=n, first=first, totals=[n]))
    for n in range(1, 5 if T else 4):
        for t in sorted({1, 2, 3, 2 * n, 7 * n, 5}):
            if t != n and (T or t <= 7):
                out.append(dict(k="all", n=n, first=None, totals=[t]))
    top = 1500 if T else 420
    for lo in range(1, top + 1, 30):
        out.append(dict(k="sizes", sizes=list(range(lo, min(top, lo + 29) + 1))))
    out.append(dict(k="sizes", sizes=[1024, 4096] + ([65536, 262144, 99999, 50000] if T else [10007])))
    out.append(dict(k="forms"))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest


def want_levels(src, target):
    """src: (..., n) levels, target: (256,) counts."""
    b = np.clip(np.floor(src), 0, 255).astype(int)
    s = np.cumsum(np.bincount(b.ravel(), minlength=256))
    t = np.cumsum(np.asarray(target, np.int64))
    # lowest level l with t[l]/T >= s[v]/S
    return np.array([int(np.argmax(t * s[-1] >= s[v] * t[-1])) for v in range(256)])[b]


def k_all(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.utils import match_histogram

    n = case["n"]
    srcs = np.array([s for s in itertools.product(range(len(LEVELS)), repeat=n) if case["first"] in (None, s[0])])
    vals = np.array(LEVELS, np.float32)[srcs]
    b = np.floor(np.array(LEVELS))[srcs]  # (P, n)
    cnt = (b[:, None, :] <= np.arange(256)[None, :, None]).sum(-1) if len(b) <= 5000 else None
    f = jax.jit(jax.vmap(match_histogram, in_axes=(0, None)))
    own = np.take_along_axis(cnt, b.astype(int), 1)  # own cumulative count of each pixel
    for total in case["totals"]:
        for comp in compositions(total, len(BINS)):
            hist = np.zeros(256, np.float32)
            hist[BINS] = comp
            t = np.cumsum(np.asarray(hist, np.int64))
            got = np.asarray(f(jnp.array(vals)[:, None, :], jnp.array(hist)))[:, 0]
            # lowest level reached for each own count 0..n
            table = np.array([int(np.argmax(t * n >= c * total)) for c in range(n + 1)])
            want = table[own]
            res.evaluations += len(vals)
            if not np.array_equal(got, want):
                i = np.argwhere(got != want)[0][0]
                res.violate("level", f"grey levels {vals[i].tolist()} matched to {dict(zip(BINS, comp))}: {got[i].tolist()}, not {want[i].tolist()}")
                return
            common.beat()
            for k in range(0, len(vals), max(1, len(vals) // 64)):
                res.seen((n, total, comp, k, case["first"]))
    res.traces += res.evaluations
    res.sample(dict(case=case, images=len(vals)))


def families(n):
    i = np.arange(n)
    ramp = (i * 256 // n).clip(0, 255)
    yield "ramp", ramp
    yield "shuffled ramp", ramp[(i * 7 + 3) % n] if n % 7 else ramp[::-1]
    yield "coarse", (i * 5 // n) * 51
    yield "two levels", np.where(i % 3 == 0, 17, 200)
    yield "uneven", np.minimum(255, (i * i) // max(1, n) % 256)
    yield "constant", np.full(n, 255 if n % 2 else 0)
    yield "fractional", np.minimum(255, ramp + (i % 4) * 0.25)


def k_sizes(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.utils import match_histogram

    f = jax.jit(jax.vmap(match_histogram))
    for n in case["sizes"]:
        fam = list(families(n))
        targets = [np.bincount(np.floor(v).astype(int), minlength=256) for _, v in fam]
        flat = np.full(256, n // 256)
        flat[: n % 256] += 1
        targets.append(flat)
        names = [a for a, _ in fam] + ["flat"]
        pairs = list(itertools.product(range(len(fam)), range(len(targets))))
        shape = (n,) if n % 2 else (2, n // 2)
        src = np.array([fam[a][1] for a, _ in pairs], np.float32).reshape((-1,) + shape)
        tg = np.array([targets[b] for _, b in pairs], np.float32)
        got = np.asarray(f(jnp.array(src), jnp.array(tg)))
        for (a, b), s, t, g in zip(pairs, src, tg, got):
            want = want_levels(s, t)
            res.evaluations += 1
            res.seen((n, a, b))
            if not np.array_equal(g, want):
                i = tuple(np.argwhere(g != want)[0])
                res.violate("size", f"{n} pixels ({names[a]}) matched to the histogram of {names[b]}: level {s[i]} becomes {g[i]}, not {want[i]}")
                return
            if a == b and a < 6 and not np.array_equal(g, np.floor(s)):
                res.violate("own", f"{n} pixels ({names[a]}) matched to their own histogram change")
                return
        common.beat()
    res.traces += res.evaluations
    res.sample(dict(case="sizes", first=case["sizes"][0], last=case["sizes"][-1]))


def k_forms(case, tier, res):
    """dtype and shape are kept; matching twice changes nothing more when the target is reachable."""
    import jax.numpy as jnp
    from synthpix.utils import match_histogram

    for n, shape in ((12, (3, 4)), (12, (4, 3)), (12, (12,)), (12, (2, 2, 3)), (35, (5, 7)), (1, (1, 1))):
        fam = list(families(n))
        for (a, v), (b, t) in itertools.product(fam, fam):
            hist = np.bincount(np.floor(t).astype(int), minlength=256)
            for dt, hdt in itertools.product((jnp.uint8, jnp.int32, jnp.float32), (jnp.int32, jnp.float32)):
                s = np.floor(v) if dt is not jnp.float32 else v
                got = match_histogram(jnp.array(s.reshape(shape), dt), jnp.array(hist, hdt))
                want = want_levels(s, hist).reshape(shape)
                res.evaluations += 1
                res.seen((n, shape, a, b, str(dt), str(hdt)))
                if got.dtype != dt or got.shape != shape or not np.array_equal(np.asarray(got), want):
                    res.violate("form", f"{a} {shape} {dt.__name__} matched to {b}: {np.asarray(got).tolist()} ({got.dtype}), not {want.tolist()}")
                    return
        common.beat()
    res.traces += res.evaluations
