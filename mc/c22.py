"""C22: generated image pairs respect every generation parameter."""
import functools
import itertools

import numpy as np

from . import common, ref

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of generation settings x keys on the real generator, with the particles' parameters recovered from the "
             "images and relations between runs under one key")
NOTE = ("With one visible particle per image its centre, widths, correlation and peak follow from the image by an exact quadratic fit of the "
        "logarithm, so reported ranges, equality between the two images, hiding and displacement are read off the pixels; masks, crops, hiding, "
        "histograms and noise are compared with the run of the same key without them.")
RULE = "distinct = different (settings, key, row)"
BOUNDS = {
    "quick": "5 geometries (square or not, offsets, flow grids unlike the bounds); 81 single-particle settings, each on one or two geometries, x 2 keys x 24 rows; 16 hiding patterns; "
             "11 density ranges; 20 masks; 16 noise settings; 8 histograms; extreme settings: 48 combinations; all single-argument corruptions of "
             "the input check",
    "thorough": "every setting on every geometry, 8 keys, 3 further geometries and 192 extreme combinations",
}
ASSUMPTIONS = ["statistics of the noise are bounded (7 deviations per pixel), not tested"]

# position bounds, image shape, offset, flow grid
GEO = [((32, 32), (32, 32), (0, 0), (32, 32)), ((30, 44), (30, 44), (0, 0), (15, 22)), ((44, 30), (44, 30), (0, 0), (44, 60)), ((33, 47), (21, 30), (7, 3), (33, 47)),
       ((40, 36), (25, 36), (15, 0), (20, 36)), ((26, 61), (26, 61), (0, 0), (13, 7)), ((60, 29), (31, 11), (2, 13), (60, 29)), ((48, 48), (17, 40), (31, 8), (24, 16))]

QUICK = dict(hide=(0, 3), density=(0, 2), mask=range(5), noise=(1, 4), hist=range(5), crop=(0, 2, 4))  # geometries of the quick tier


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for g in range(8 if T else 5):
        for part in range(3):
            out.append(dict(k="spot", g=g, part=part, seeds=8 if T else 2, thin=1 if T else 3))
        out += [dict(k=k, g=g, seed=s, all=T) for k in ("hide", "density", "mask", "noise", "hist", "crop") for s in range(3 if T else 1) if T or g in QUICK[k]]
    n = 192 if T else 48
    out += [dict(k="extreme", lo=i, hi=min(n, i + 6)) for i in range(0, n, 6)]
    out += [dict(k="checks")]
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res)
    res.traces += res.evaluations


@functools.cache
def compiled(g, kw, mask, hist, n):
    import jax
    from synthpix.data_generate import generate_images_from_flow
    from synthpix.types import ImageGenerationSpecification

    pb, shape, off, grid = GEO[g]
    spec = ImageGenerationSpecification(image_shape=shape, img_offset=off, **{k: list(v) if k.endswith("_ranges") else v for k, v in kw})
    return jax.jit(lambda key, flow, m, h: generate_images_from_flow(key, flow, spec, position_bounds=pb, flow_field_res_x=1.0, flow_field_res_y=1.0,
                                                                    mask=m if mask else None, histogram=h if hist else None))


def generate(res, g, seed, flow=None, mask=None, hist=None, **kw):
    """(images1, images2, params) as float64 numpy arrays, with the general guarantees checked."""
    import jax
    import jax.numpy as jnp

    pb, shape, off, grid = GEO[g]
    flow = np.zeros((1,) + grid + (2,), np.float32) if flow is None else flow
    dummy = jnp.zeros(1)
    f = compiled(g, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in kw.items())), mask is not None, hist is not None, len(flow))
    a, b, p = f(jax.random.PRNGKey(seed), jnp.array(flow), dummy if mask is None else jnp.array(mask, jnp.float32), dummy if hist is None else jnp.array(hist, jnp.float32))
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    p = {k: np.asarray(getattr(p, k), np.float64) for k in ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")}
    n = kw["batch_size"]
    res.evaluations += n
    common.beat()
    for i in range(n):
        res.seen((g, seed, repr(sorted(kw.items())), i, mask is not None, hist is not None))
    for name, im in (("first", a), ("second", b)):
        if im.shape != (n,) + shape:
            raise Bad("shape", f"the {name} images have shape {im.shape}, not {(n,) + shape}")
        if not np.isfinite(im).all() or im.min() < 0 or im.max() > 255:
            raise Bad("values", f"the {name} images range from {im.min()} to {im.max()}, finite: {np.isfinite(im).all()}")
    lo, hi = kw["seeding_density_range"]
    d = p["seeding_densities"]
    if d.shape != (n,) or not ((d >= lo * (1 - 1e-6)) & (d <= hi * (1 + 1e-6))).all():
        raise Bad("reported-density", f"reported densities {d} outside {lo, hi}")
    for k in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
        r = p[k]
        if r.shape != (n, 2) or not all(any(np.allclose(v, w, rtol=1e-6, atol=0) for w in kw[k]) for v in r):
            raise Bad("reported-range", f"reported {k} {r.tolist()} are not among {kw[k]}")
    return a, b, p


class Bad(Exception):
    def __init__(self, sig, text):
        self.sig, self.text = sig, text


def guarded(fn):
    def run(case, res):
        try:
            fn(case, res)
        except Bad as e:
            res.violate(e.sig, f"{GEO[case['g']] if 'g' in case else ''} key {case.get('seed')}: {e.text}")

    return run


BASE = dict(batch_size=24, p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[(2.5, 2.5)], diameter_var=0.0, intensity_ranges=[(100.0, 100.0)],
            intensity_var=0.0, rho_ranges=[(0.0, 0.0)], rho_var=0.0, dt=1.0)


def fit(im):
    """(y, x, dx, dy, rho, peak) of the only spot of an image."""
    m = im > max(1e-3 * im.max(), 1e-6)
    ys, xs = np.nonzero(m)
    y0, x0 = ys[np.argmax(im[m])], xs[np.argmax(im[m])]
    v, u = (ys - y0).astype(float), (xs - x0).astype(float)
    w = np.sqrt(im[m])
    A = np.stack([np.ones_like(u), u, v, u * u, v * v, u * v], 1) * w[:, None]
    c, p, q, a, b, k = np.linalg.lstsq(A, np.log(im[m]) * w, rcond=None)[0]
    H = np.array([[2 * a, k], [k, 2 * b]])
    du, dv = np.linalg.solve(H, [-p, -q])
    peak = np.exp(c + p * du + q * dv + a * du * du + b * dv * dv + k * du * dv)
    rho = k / (2 * np.sqrt(a * b))
    sx, sy = np.sqrt(-1 / (2 * a * (1 - rho * rho))), np.sqrt(-1 / (2 * b * (1 - rho * rho)))
    return y0 + dv, x0 + du, 2 * sx, 2 * sy, rho, peak


def one_particle(g):
    pb = GEO[g][0]
    d = 1.5 / (pb[0] * pb[1])
    return (d, d)


def inside(r, lo, hi, eps):
    return lo - eps <= r <= hi + eps


def whole(im, r):
    """The spot lies entirely in the image."""
    y, x = np.unravel_index(np.argmax(im), im.shape)
    return im.max() > 0 and r <= y < im.shape[0] - r and r <= x < im.shape[1] - r


@guarded
def k_spot(case, res):
    g, (pb, shape, off, grid) = case["g"], GEO[case["g"]]
    D = [[(2.5, 2.5)], [(2.0, 2.4), (3.2, 3.6)], [(2.0, 3.6)]]
    I = [[(100.0, 100.0)], [(20.0, 40.0), (90.0, 120.0), (200.0, 220.0)]]
    R = [[(0.0, 0.0)], [(-0.6, -0.4), (0.3, 0.5)], [(-0.5, 0.5)]]
    V = [(0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.0, 100.0, 0.05)]
    ay, ax = grid[0] / pb[0], grid[1] / pb[1]
    settings = list(enumerate(itertools.product(D, I, R, V)))
    for (n, (dr, ir, rr, (dv, iv, rv))), seed in itertools.product(settings[case["part"]::3][g % case["thin"]::case["thin"]], range(case["seeds"])):
        u, v = [(0, 0), (2.5, -1.25), (-1.0, 3.0)][n % 3]  # grid steps per unit time
        dt = (1.0, 0.5)[n % 2]
        flow = np.zeros((1,) + grid + (2,), np.float32) + np.array([u, v], np.float32)
        kw = dict(BASE, seeding_density_range=one_particle(g), diameter_ranges=dr, intensity_ranges=ir, rho_ranges=rr, diameter_var=dv, intensity_var=iv,
                  rho_var=rv, dt=dt)
        a, b, p = generate(res, g, seed * 1000 + n, flow, **kw)
        r = int(3 * max(x[1] for x in dr) / 2)
        sy, sx = v * dt / ay, u * dt / ax
        changed, used, seen = set(), {k: set() for k in ("diameter_ranges", "intensity_ranges", "rho_ranges")}, 0
        for i in range(len(a)):
            for k in used:
                used[k].add(tuple(np.round(p[k][i], 4)))
            tag = f"{kw} row {i}"
            if shape == pb and not a[i].any():
                raise Bad("missing", f"{tag}: the particle is not visible in the first image")
            fits = []
            for name, im in (("first", a[i]), ("second", b[i])):
                if not whole(im, r + 1):
                    fits.append(None)
                    continue
                y, x, dx, dy, rho, peak = f = fit(im)
                fits.append(f)
                seen += 1
                (d0, d1), (i0, i1), (r0, r1) = p["diameter_ranges"][i], p["intensity_ranges"][i], p["rho_ranges"][i]
                if not (inside(dx, d0, d1, 0.02) and inside(dy, d0, d1, 0.02)):
                    raise Bad("diameter", f"{tag}: the spot of the {name} image has diameters {dx:.3f}, {dy:.3f}, reported range {d0, d1}")
                if not inside(peak, i0, i1, 0.5):
                    raise Bad("intensity", f"{tag}: the spot of the {name} image has peak {peak:.2f}, reported range {i0, i1}")
                if not inside(rho, r0, r1, 0.01):
                    raise Bad("rho", f"{tag}: the spot of the {name} image has correlation {rho:.3f}, reported range {r0, r1}")
            if None in fits:
                continue
            f1, f2 = fits
            if abs(f2[0] - f1[0] - sy) > 0.05 or abs(f2[1] - f1[1] - sx) > 0.05:
                raise Bad("shift", f"{tag}: the particle moves by {f2[0] - f1[0]:.3f}, {f2[1] - f1[1]:.3f} pixels, not {sy, sx}")
            for name, var, ix, eps in (("diameter", dv, (2, 3), 0.02), ("intensity", iv, (5,), 0.5), ("rho", rv, (4,), 0.01)):
                diff = max(abs(f1[j] - f2[j]) for j in ix)
                if var == 0 and diff > eps:
                    raise Bad("variance", f"{tag}: variance of {name} is zero, yet it differs by {diff:.3f} between the images")
                if diff > 2 * eps:
                    changed.add(name)
        wide = {"diameter": dr != D[0], "intensity": ir != I[0], "rho": rr != R[0]}
        for name, var in (("diameter", dv), ("intensity", iv), ("rho", rv)):
            if seen > 12 and var and wide[name] and name not in changed:
                raise Bad("variance", f"{kw}: a variance of {var} never changes the {name} between the images")
        for k in used:
            if len(used[k]) < len(kw[k]):
                raise Bad("unused", f"{kw}: of the {k} only {used[k]} are used in {len(a)} rows")
        if shape == pb and not seen:
            raise Bad("few", f"{kw}: no spot could be measured in {len(a)} rows")
    res.sample(dict(case=case))


@guarded
def k_hide(case, res):
    g, seed = case["g"], case["seed"]
    kw = dict(BASE, batch_size=6, seeding_density_range=(0.02, 0.02), intensity_ranges=[(5.0, 10.0)])
    flow = np.zeros((1,) + GEO[g][3] + (2,), np.float32)
    a0, b0, _ = generate(res, g, seed, flow, **kw)
    if not (a0.any() and np.array_equal(a0, b0)):
        raise Bad("still", "under zero flow and zero variances the two images of a pair differ or are empty")
    for p1, p2 in itertools.product((0.0, 1.0, 0.5, 0.1), repeat=2):
        a, b, _ = generate(res, g, seed, flow, **dict(kw, p_hide_img1=p1, p_hide_img2=p2))
        for name, im, base, p in (("first", a, a0, p1), ("second", b, b0, p2)):
            if p == 0 and not np.allclose(im, base, atol=1e-3):
                raise Bad("hide", f"hiding probabilities {p1, p2}: the {name} image is not the one with all particles")
            if p == 1 and im.any():
                raise Bad("hide", f"hiding probabilities {p1, p2}: particles show in the {name} image")
            if 0 < p < 1 and ((im > base + 1e-3).any() or not im.any() or np.allclose(im, base, atol=1e-3)):
                raise Bad("hide", f"hiding probabilities {p1, p2}: the {name} image does not show some of the particles")
        if 0 < p1 < 1 and 0 < p2 < 1 and np.allclose(a, b, atol=1e-3):
            raise Bad("hide", f"hiding probabilities {p1, p2}: the same particles are hidden in both images")


@guarded
def k_density(case, res):
    g, seed = case["g"], case["seed"]
    pb, shape, off, grid = GEO[g]
    g_full = g
    n = pb[0] * pb[1]
    for lo, hi in ((0.0, 0.0), (1, 1), (5, 5), (29, 29), (0.5, 0.5), (0, 30), (10, 20), (3, 4), (0, 1.2), (28, 28.5), (0.2, 3.7)):
        # in particles; half a particle more, so that rounding decides nothing for fixed densities
        lo, hi = ((lo + 0.5) / n, (hi + 0.5) / n) if lo == hi and lo >= 1 else (lo / n, hi / n)
        kw = dict(BASE, batch_size=16, seeding_density_range=(lo, hi), diameter_ranges=[(3.0, 3.0)], intensity_ranges=[(2.0, 2.0)])
        try:
            a, b, p = generate(res, g_full, seed + 17, None, **kw)
        except Bad:
            raise
        except Exception as e:
            raise Bad("density-error", f"densities {lo * n, hi * n} per image: {type(e).__name__}: {str(e)[:200]}")
        if hi > lo and len(set(p["seeding_densities"])) < 2:
            raise Bad("density", f"densities {lo, hi}: all rows report {p['seeding_densities'][0]}")
        if shape != pb:
            continue
        spot = 2.0 * (np.exp(-np.arange(-4, 5) ** 2 / (2 * 1.5**2)).sum()) ** 2
        for i in range(len(a)):
            want = p["seeding_densities"][i] * n
            for name, im in (("first", a[i]), ("second", b[i])):
                got = im.sum() / spot
                if not any(abs(got - k) < 0.45 for k in {np.floor(want + 1e-4), np.floor(want - 1e-4)}):
                    raise Bad("density", f"densities {lo * n, hi * n} per image: row {i} reports {want:.3f} particles, the {name} image shows {got:.2f}")


def masks(shape, n=20):
    h, w = shape
    y, x = np.mgrid[0:h, 0:w]
    yield from (np.ones(shape), np.zeros(shape), (y % 2), (x % 2), (y < h // 2), (x < w // 2), (y >= h // 2), (x >= w // 2), (y == 0), (x == w - 1), (y + x) % 3 == 0,
                (y > x), (y == h - 1) | (x == 0), (y * x) % 5 > 0, (abs(y - h / 2) < 4), (abs(x - w / 3) < 5), y + x < h, (y % 7 < 3) & (x % 5 < 4), y * w + x == 0, y * w + x != h * w - 1)


@guarded
def k_mask(case, res):
    g, seed = case["g"], case["seed"]
    # the noise leaves no pixel at zero outside the mask
    for extra in ({}, dict(noise_uniform=5.0, noise_gaussian_mean=40.0, noise_gaussian_std=3.0)):
        kw = dict(BASE, batch_size=3, seeding_density_range=(0.02, 0.04), **extra)
        flow = np.zeros((1,) + GEO[g][3] + (2,), np.float32) + 1
        a0, b0, p0 = generate(res, g, seed, flow, **kw)
        for k, m in enumerate(masks(GEO[g][1])):
            m = np.asarray(m, np.float32)
            a, b, p = generate(res, g, seed, flow, mask=m, **kw)
            for name, im, base in (("first", a, a0), ("second", b, b0)):
                if im[:, m == 0].any():
                    raise Bad("mask-zero", f"mask {k}: the {name} image is not zero where the mask is")
                if not np.allclose(im[:, m == 1], base[:, m == 1], atol=1e-3):
                    raise Bad("mask-one", f"mask {k}: the {name} image is changed where the mask is one")
            if any(not np.array_equal(p[q], p0[q]) for q in p):
                raise Bad("mask-params", f"mask {k} changes the reported parameters")


@guarded
def k_noise(case, res):
    g, seed = case["g"], case["seed"]
    flow = np.zeros((1,) + GEO[g][3] + (2,), np.float32) + 0.5
    for inten in ([(60.0, 90.0)], [(230.0, 250.0)]):
        kw = dict(BASE, batch_size=4, seeding_density_range=(0.01, 0.02), intensity_ranges=inten)
        base = generate(res, g, seed, flow, **kw)[:2]
        plain = [im < 254.99 for im in base]  # not clipped
        for nu, nm, ns in itertools.product((0.0, 4.0), (0.0, 3.0), (0.0, 2.0, 40.0)):
            if not (nu or nm or ns):
                continue
            out = generate(res, g, seed, flow, **dict(kw, noise_uniform=nu, noise_gaussian_mean=nm, noise_gaussian_std=ns))[:2]
            what = f"uniform {nu}, Gaussian {nm} +- {ns}"
            diffs = []
            for name, im, b, ok in zip(("first", "second"), out, base, plain):
                ok = ok & (im > 0) & (im < 255)
                d = (im - b)[ok]
                diffs.append(im - b)
                tol = 2e-3
                if d.size and (d.min() < nm - 7 * ns - tol or d.max() > nm + nu + 7 * ns + tol):
                    raise Bad("noise", f"{what}: the {name} images change by {d.min():.3f} to {d.max():.3f}")
                if not ns and ((im - b)[im >= 255] > nm + nu + tol).any():
                    raise Bad("noise", f"{what}: saturated pixels of the {name} images change by more than that")
                if (nu or ns) and np.ptp(d) < 0.5 * (nu + ns):
                    raise Bad("noise", f"{what}: the noise of the {name} images only spans {np.ptp(d):.4f}")
                if not ns or ns < 5:  # the mean over all pixels that are far from clipping
                    far = (b > 7 * ns - nm) & (b < 255 - nm - nu - 7 * ns) if ns else ok
                    x = (im - b)[far]
                    if x.size > 200:
                        sd = np.sqrt(nu * nu / 12 + ns * ns)
                        if abs(x.mean() - nm - nu / 2) > 6 * sd / np.sqrt(x.size) + tol or abs(x.std() - sd) > 0.3 * sd + tol:
                            raise Bad("noise", f"{what}: the noise of the {name} images has mean {x.mean():.3f}, deviation {x.std():.3f}")
            if (nu or ns) and (np.allclose(diffs[0], diffs[1], atol=1e-3) or np.allclose(diffs[0][0], diffs[0][1], atol=1e-3)):
                raise Bad("noise", f"{what}: different images carry the same noise")


@guarded
def k_hist(case, res):
    g, seed = case["g"], case["seed"]
    shape = GEO[g][1]
    n = shape[0] * shape[1]
    hists = []
    flat = np.full(256, n // 256)
    flat[: n % 256] += 1
    one = np.zeros(256, int)
    one[77] = n
    two = np.zeros(256, int)
    two[10], two[200] = n // 3, n - n // 3
    ramp = np.diff(np.floor(np.linspace(0, 1, 257) ** 2 * n)).astype(int)
    hists = [flat, one, two, ramp]
    flow = np.zeros((1,) + GEO[g][3] + (2,), np.float32) + 1
    kw = dict(BASE, batch_size=3, seeding_density_range=(0.02, 0.03))
    m = np.ones(shape, np.float32)
    m[: shape[0] // 3] = 0
    for mask in (None, m):
        a0, b0, _ = generate(res, g, seed, flow, mask=mask, **kw)
        for k, h in enumerate(hists):
            a, b, _ = generate(res, g, seed, flow, mask=mask, hist=h, **kw)
            for name, im, base in (("first", a, a0), ("second", b, b0)):
                want = np.stack([ref.match_hist(x, h) for x in base])
                # compiled differently, a value next to a whole level may fall on its other side
                if (im != want).mean() > 0.02:
                    raise Bad("hist", f"histogram {k}: the {name} images are not the matched ones in {(im != want).mean():.1%} of the pixels")


@guarded
def k_crop(case, res):
    """An offset only moves the window in the imaged region."""
    import jax
    import jax.numpy as jnp
    from synthpix.data_generate import generate_images_from_flow
    from synthpix.types import ImageGenerationSpecification

    pb, _, _, grid = GEO[case["g"]]
    flow = jnp.zeros((2,) + grid + (2,)).at[0].set(1.0)
    kw = dict(BASE, batch_size=4, seeding_density_range=(0.02, 0.04))

    def gen(shape, off):
        spec = ImageGenerationSpecification(image_shape=shape, img_offset=off, **kw)
        a, b, _ = jax.jit(lambda k: generate_images_from_flow(k, flow, spec, position_bounds=pb))(jax.random.PRNGKey(case["seed"] + 5))
        res.evaluations += 4
        common.beat()
        return np.asarray(a), np.asarray(b)

    full = gen(pb, (0, 0))
    for n, sh in enumerate(((1, 1), (3, 7), (pb[0] - 5, pb[1] - 9), (pb[0], 4), (2, pb[1]))):
        offs = [(0, 0), (pb[0] - sh[0], 0), (0, pb[1] - sh[1]), (pb[0] - sh[0], pb[1] - sh[1]), ((pb[0] - sh[0]) // 2, (pb[1] - sh[1]) // 3)]
        for off in sorted(set(offs if case["all"] else offs[n % 3::2])):
            part = gen(sh, off)
            res.seen((case["g"], sh, off))
            for name, x, y in zip(("first", "second"), part, full):
                want = y[:, off[0]:off[0] + sh[0], off[1]:off[1] + sh[1]]
                if x.shape != want.shape or not np.allclose(x, want, atol=2e-3):
                    raise Bad("crop", f"an image of {sh} at {off} is not that part of the whole {name} image")


def k_extreme(case, res):
    """Whatever the settings, values stay finite and in range and the reported parameters admissible."""
    combos = list(itertools.product([(0.0, 0.3), (0.5, 0.5)], [(0.0, 0.0), (0.5, 1.0)], [[(0.05, 0.1)], [(0.1, 6.0), (1.0, 1.0)], [(9.0, 9.0)]], [0.0, 400.0],
                                    [[(1.0, 5000.0)], [(0.01, 0.02), (254.0, 255.0)]], [[(-0.999, 0.999)], [(0.99, 0.99), (-0.5, 0.0)]], [(0.0, 0.0, 0.0), (300.0, 100.0, 500.0)]))
    step = len(combos) // 48 if case["hi"] <= 48 else 1
    for n in range(case["lo"], case["hi"]):
        c = combos[(n * 7 * max(1, step) + n // 7) % len(combos)]
        g = n % 5
        kw = dict(batch_size=3, seeding_density_range=c[0], p_hide_img1=c[1][0], p_hide_img2=c[1][1], diameter_ranges=c[2], diameter_var=c[3], intensity_ranges=c[4],
                  intensity_var=c[3] * 10, rho_ranges=c[5], rho_var=c[3] / 40, dt=(1.0, 30.0)[n % 2], noise_uniform=c[6][0], noise_gaussian_mean=c[6][1],
                  noise_gaussian_std=c[6][2])
        flow = np.zeros((2,) + GEO[g][3] + (2,), np.float32) + np.array([(-1e3, 0.5, 3)[n % 3], (2.0, 1e4, -5)[n % 3]], np.float32)
        try:
            generate(res, g, n, flow, **kw)
        except Bad as e:
            res.violate(e.sig, f"{GEO[g]} key {n} {kw}: {e.text}")
            return


def k_checks(case, res):
    """The input check accepts admissible arguments and refuses every corruption of one of them."""
    import jax.numpy as jnp
    from synthpix.data_generate import input_check_gen_img_from_flow as check
    from synthpix.types import ImageGenerationSpecification as Spec

    good = dict(flow_field=jnp.zeros((2, 8, 9, 2)), parameters=Spec(image_shape=(6, 7), img_offset=(1, 2), seeding_density_range=(0.1, 0.2)), position_bounds=(8, 9),
                flow_field_res_x=1.0, flow_field_res_y=2, mask=jnp.ones((6, 7)), histogram=jnp.zeros(256).at[3].set(42))
    bad = dict(
        flow_field=[np.zeros((2, 8, 9, 2)), jnp.zeros((8, 9, 2)), jnp.zeros((2, 8, 9, 3)), None], position_bounds=[(8,), (8, 0), (-8, 9), (8.0, 9), (6, 9), (8, 8), (7, 8)],
        flow_field_res_x=[0, -1.0, "1", None], flow_field_res_y=[0, -2, "1", None], mask=[np.ones((6, 7)), jnp.ones((7, 6)), jnp.ones(42), jnp.ones((6, 7, 1))],
        histogram=[np.zeros(256), jnp.zeros((2, 128)), jnp.zeros(255), jnp.zeros(256), jnp.zeros(256).at[3].set(41)])
    fine = [{}, dict(mask=None), dict(histogram=None), dict(position_bounds=(7, 9)), dict(position_bounds=(500, 600)), dict(flow_field_res_x=3)]
    for kw in fine:
        res.evaluations += 1
        try:
            check(**dict(good, **kw))
        except Exception as e:
            res.violate("refused", f"admissible arguments ({kw}) are refused: {e!r}")
            return
    for name, vals in bad.items():
        for v in vals:
            res.evaluations += 1
            res.seen((name, repr(v)[:60], getattr(v, "shape", None)))
            try:
                check(**dict(good, **{name: v}))
            except ValueError:
                continue
            except Exception as e:
                res.violate("error", f"{name}={str(v)[:80]}: {e!r}")
                return
            res.violate("accepted", f"{name}={str(v)[:80]} is accepted")
            return
