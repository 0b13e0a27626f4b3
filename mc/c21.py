"""C21: particle images are the sum of each particle's Gaussian spot."""
import itertools

import numpy as np

from . import common, ref

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of sub-pixel positions, image shapes, spot parameters and particle orders on the real renderer "
             "against a float64 definition")
NOTE = ("Every position of a sub-pixel lattice in and around every small image, alone; every sequence of up to three particles of a "
        "pool (overlapping, clipped, coinciding, of zero intensity) in every order; every pixel is compared.")
RULE = "distinct = different (shape, parameters, position) renderings"
BOUNDS = {
    "quick": "images of 14 shapes up to 13x15 (smaller than the patch included), patch radii 0-4, positions -2..n+2 in steps 0.25 plus "
             "thirds, 24 combinations of widths, correlation and intensity; sequences of 1-3 out of 7 particles",
    "thorough": "all shapes 1-13 x 1-13, steps 1/8, sequences of 1-4 out of 8 particles, plus larger images",
}
ASSUMPTIONS = ["positions on a cell border after rounding to float32 may fall on either side of it"]

SHAPES = [(7, 7), (7, 9), (9, 7), (8, 11), (11, 8), (13, 9), (9, 13), (12, 15), (1, 1), (3, 9), (9, 3), (5, 6), (2, 2), (6, 13)]


def cases(tier, seed):
    T = tier == "thorough"
    shapes = SHAPES if not T else sorted(set(itertools.product(range(1, 14), repeat=2)) | {(12, 15)})
    out = []
    for sh, md in itertools.product(shapes, (0.5, 1.0, 1.5, 2.0, 3.0)):
        if T and (sh[0] + sh[1]) % 2 and md in (0.5, 1.5):
            continue
        out.append(dict(k="alone", shape=sh, md=md, step=0.125 if T else 0.25))
    for sh, md in itertools.product([(9, 11), (11, 9), (8, 8)], (1.0, 2.0)):
        for first in range(8 if T else 7):
            out.append(dict(k="many", shape=sh, md=md, n=4 if T else 3, first=first))
    for sh in ((40, 33), (33, 64)) + (((256, 200),) if T else ()):
        out.append(dict(k="big", shape=sh, md=2.0))
    return out


def lattice(n, step):
    return sorted(set(np.arange(-2, n + 2.01, step).tolist()) | {k + t for k in range(-1, n + 1) for t in (1 / 3, 0.9)})


def spots(shape, r, pos, a, b, amp, rho):
    """Vectorised ref.spot_image of single particles: (P, H, W), unclipped values."""
    h, w = shape
    y, x = pos[:, 0].copy(), pos[:, 1].copy()
    if h >= 2 * r + 1:
        y = np.clip(y, r, h - r - 1e-6)
    if w >= 2 * r + 1:
        x = np.clip(x, r, w - r - 1e-6)
    ci, cj = np.floor(y), np.floor(x)
    i, j = np.arange(h)[None, :, None], np.arange(w)[None, None, :]
    v, u = i - y[:, None, None], j - x[:, None, None]
    sx, sy = a / 2, b / 2
    z = u**2 / sx**2 + v**2 / sy**2 - 2 * rho * u * v / (sx * sy)
    inside = (np.abs(i - ci[:, None, None]) <= r) & (np.abs(j - cj[:, None, None]) <= r)
    return np.where(inside, amp * np.exp(-z / (2 * (1 - rho * rho))), 0.0)


PARAMS = list(itertools.product((1.0, 0.6), (1.0, 0.4), (0.0, 0.6, -0.8), (100.0, 400.0)))  # fractions of the maximum diameter


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def k_alone(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.generate import img_gen_from_data

    (h, w), md = case["shape"], case["md"]
    r = int(3 * md / 2)
    pts = np.array(list(itertools.product(lattice(h, case["step"]), lattice(w, case["step"]))), np.float32)
    ex = pts.astype(np.float64)

    def render(p, fa, fb, rho, amp, clip):
        return img_gen_from_data(p[None], (h, w), max_diameter=md, diameters_x=fa[None], diameters_y=fb[None],
                                 intensities=amp[None], rho=rho[None], clip=clip)

    f = {c: jax.jit(jax.vmap(lambda p, a, b, q, i, c=c: render(p, a, b, q, i, c), in_axes=(0, None, None, None, None))) for c in (True, False)}
    for k, (fa, fb, rho, amp) in enumerate(PARAMS):
        clip = k % 3 != 0
        got = np.asarray(f[clip](jnp.array(pts), *(jnp.float32(v) for v in (fa * md, fb * md, rho, amp))), np.float64)
        want = spots((h, w), r, ex, fa * md, fb * md, amp, rho)
        if clip:
            want = np.clip(want, 0, 255)
        res.evaluations += len(pts)
        common.beat()
        if got.shape != want.shape:
            res.violate("shape", f"an image of shape {got.shape[1:]} for {case['shape']}")
            return
        bad = np.argwhere(~(np.abs(got - want) <= 2e-3))
        if len(bad):
            i = bad[0]
            res.violate("pixel", f"image {h}x{w}, patch radius {r}, particle at {pts[i[0]].tolist()}, diameters {fa*md}, {fb*md}, rho {rho}, "
                        f"intensity {amp}: pixel {i[1:].tolist()} is {got[tuple(i)]}, not {want[tuple(i)]}")
            return
        for p in range(0, len(pts), 7):
            res.seen((case["shape"], md, k, p))
    res.traces += len(pts) * len(PARAMS)
    res.sample(dict(case=case, positions=len(pts), parameters=len(PARAMS)))


def pool(h, w, md):
    """(y, x, dx, dy, rho, intensity)"""
    return [(3.25, 4.5, md, md, 0.0, 100.0), (3.25, 4.5, md, 0.5 * md, 0.5, 60.0), (4.0, 5.0, 0.7 * md, md, -0.4, 120.0), (-1.0, w + 3.0, md, md, 0.0, 80.0),
            (h - 1.0, 0.0, 0.5 * md, 0.5 * md, 0.0, 200.0), (4.0, 4.0, md, md, 0.0, 0.0), (h / 2 + 0.25, w / 2 + 0.125, md, md, 0.9, 300.0),
            (5.75, 5.25, 0.8 * md, md, -0.9, 40.0)]


def k_many(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.generate import img_gen_from_data

    (h, w), md = case["shape"], case["md"]
    r = int(3 * md / 2)
    ps = pool(h, w, md)[:8 if tier == "thorough" else 7]
    one = [ref.spot_image((h, w), r, [p[:2]], [p[2]], [p[3]], [p[5]], [p[4]], clip=False) for p in ps]
    for n in range(1, case["n"] + 1):
        f = {c: jax.jit(jax.vmap(lambda a, c=c: img_gen_from_data(a[:, :2], (h, w), md, a[:, 2], a[:, 3], a[:, 5], a[:, 4], clip=c))) for c in (True, False)}
        seqs = [s for s in itertools.product(range(len(ps)), repeat=n) if s[0] == case["first"]]
        arr = np.array([[ps[i] for i in s] for s in seqs], np.float32)
        for clip in (True, False):
            got = np.asarray(f[clip](jnp.array(arr)), np.float64)
            for s, g in zip(seqs, got):
                want = sum(one[i] for i in s)
                if clip:
                    want = np.clip(want, 0, 255)
                res.evaluations += 1
                res.seen((h, w, md, s))
                if g.shape != want.shape or not (np.abs(g - want) <= 4e-3).all():
                    d = np.abs(g - want)
                    i = np.unravel_index(np.nanargmax(d), d.shape)
                    res.violate("sum", f"particles {[ps[k] for k in s]} in a {h}x{w} image (clip={clip}): pixel {i} is {g[i]}, the sum of the spots is {want[i]}")
                    return
        common.beat()
    res.traces += res.evaluations


def k_big(case, tier, res):
    """Larger images: interior positions and clipped corners (either side of the float32 border)."""
    import jax.numpy as jnp
    from synthpix.generate import img_gen_from_data

    (h, w), md = case["shape"], case["md"]
    r = int(3 * md / 2)
    ys = [-3.0, 0.0, 2.5, 10.25, h / 2, h - r - 0.5, h - 1.0, h + 5.0]
    xs = [-1.5, 0.5, 3.0, 17.75, w / 2 + 0.125, w - r - 0.25, w - 0.5, w + 9.0]
    o = jnp.ones(1)
    for y, x in itertools.product(ys, xs):
        got = np.asarray(img_gen_from_data(jnp.array([[y, x]]), (h, w), md, o * md, o * md * 0.8, o * 150, o * 0.3), np.float64)
        res.evaluations += 1
        res.seen((case["shape"], y, x))
        ok = False
        for ey, ex in itertools.product((0, 1e-6), repeat=2):
            # at the far clipping border the position may round to either side of a pixel border
            yy, xx = min(max(y, r), h - r - 1e-6 + ey), min(max(x, r), w - r - 1e-6 + ex)
            i0, j0 = int(np.floor(yy)), int(np.floor(xx))
            i, j = np.mgrid[:h, :w]
            v, u = i - yy, j - xx
            sx, sy = md / 2, md * 0.8 / 2
            z = u**2 / sx**2 + v**2 / sy**2 - 2 * 0.3 * u * v / (sx * sy)
            want = np.where((abs(i - i0) <= r) & (abs(j - j0) <= r), 150 * np.exp(-z / (2 * (1 - 0.09))), 0)
            ok = ok or (got.shape == want.shape and (np.abs(got - want) <= 5e-3).all())
        if not ok:
            res.violate("pixel", f"image {h}x{w}, particle at {(y, x)}: not the Gaussian spot")
            return
