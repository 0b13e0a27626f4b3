"""C25: image warping follows its definition in both directions."""
import itertools

import numpy as np

from . import common, ref

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of image shapes, pixels, displacement lattices and unit images on the real warping functions "
             "against a float64 definition")
NOTE = ("Warping is linear in the image, so a warp is decided by its action on all unit images (two dense images guard against a "
        "non-linearity); every pixel is displaced on its own by every displacement of a lattice that leaves the image on all sides, "
        "and all flows over a coarse alphabet are enumerated for tiny images.")
RULE = "distinct = different (direction, shape, flow, image) warps with a non-zero result"
BOUNDS = {
    "quick": "shapes 1-4 x 1-4 and 5x3: uniform displacements -5..5 in steps 1/4 and thirds; one displaced pixel; all flows over 5 "
             "vectors for up to 4 pixels; 4 time steps; 9 flow functions x 12 shapes x 3 times x both directions",
    "thorough": "shapes to 6x6, steps 1/8, all flows over 7 vectors",
}
ASSUMPTIONS = ["non-linearities in the image would show on the dense images"]
XLA_CACHE = False
ATOL = 3e-5


def cases(tier, seed):
    T = tier == "thorough"
    n = 7 if T else 5
    shapes = list(itertools.product(range(1, n), repeat=2)) + [(5, 3), (3, 7)]
    out = []
    for sh in dict.fromkeys(shapes):
        out.append(dict(k="uniform", shape=sh, step=0.125 if T else 0.25))
        out.append(dict(k="one", shape=sh))
        out.append(dict(k="callable", shape=sh))
    for sh in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4)) + (((2, 3), (3, 2)) if T else ()):
        out.append(dict(k="flows", shape=sh))
    out.append(dict(k="types"))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def images(h, w):
    """Unit images and two dense ones."""
    n = h * w
    b = np.concatenate([np.eye(n), ((np.arange(n) * 37 % 11) + 0.5)[None], ((np.arange(n) * 53 % 17) * -1.25 + 3)[None]])
    return b.reshape(n + 2, h, w).astype(np.float32)


def maps(flows, dt):
    """(forward, backward) matrices (F, n, n) acting on the flattened image, for flows (F, h, w, 2)."""
    flows = np.asarray(flows, np.float64)
    nf, h, w = flows.shape[:3]
    n = h * w
    ys, xs = np.mgrid[0:h, 0:w]
    f, p = np.indices((nf, n))
    out = []
    for sign in (1, -1):
        y = (ys + sign * flows[..., 1] * dt).reshape(nf, n)
        x = (xs + sign * flows[..., 0] * dt).reshape(nf, n)
        if sign < 0:
            y, x = np.clip(y, 0, h - 1), np.clip(x, 0, w - 1)
        m = np.zeros((nf, n, n))
        y0, x0 = np.floor(y).astype(int), np.floor(x).astype(int)
        for a, b in ((0, 0), (0, 1), (1, 0), (1, 1)):
            i, j = y0 + a, x0 + b
            wt = (1 - abs(y - i)) * (1 - abs(x - j))
            ok = (i >= 0) & (i < h) & (j >= 0) & (j < w)
            q = np.where(ok, i * w + j, 0)
            if sign > 0:  # pixel p is deposited at q
                np.add.at(m, (f, q, p), np.where(ok, wt, 0))
            else:  # pixel p is sampled at q
                np.add.at(m, (f, p, q), np.where(ok, wt, 0))
        out.append(m)
    return out


def warpers():
    import jax
    from synthpix.apply import apply_flow_to_image_backward as bw, apply_flow_to_image_forward as fw

    both = lambda im, fl, dt: (fw(im, fl, dt), bw(im, fl, dt))
    # flows x images
    return jax.jit(jax.vmap(jax.vmap(both, in_axes=(0, None, None)), in_axes=(None, 0, None)))


def check(res, f, h, w, flows, dt, tag):
    import jax.numpy as jnp

    im = images(h, w)
    flows = np.asarray(flows, np.float32)
    for lo in range(0, len(flows), 512):
        part = flows[lo:lo + 512]
        pad = np.concatenate([part, np.zeros((512 - len(part), h, w, 2), np.float32)]) if len(flows) > 512 else part
        got = [np.asarray(g, np.float64)[:len(part)] for g in f(jnp.array(im), jnp.array(pad), dt)]
        common.beat()
        flat = im.reshape(len(im), -1).astype(np.float64)
        still = (part == 0).all((1, 2, 3)) | (dt == 0)
        for d, m, g in zip(("forward", "backward"), maps(part, float(np.float32(dt))), got):
            want = np.einsum("fqp,ip->fiq", m, flat).reshape(g.shape)
            res.evaluations += len(part) * len(im)
            for k in range(len(part)):
                res.seen((h, w, d, tag, lo + k, dt))
            bad = np.argwhere(~(np.abs(g - want) <= ATOL * 20))
            if len(bad):
                i = tuple(bad[0])
                res.violate(d, f"{d} warping of {im[i[1]].tolist()} by {part[i[0]].tolist()} over {dt}: pixel {[int(v) for v in i[2:]]} is {g[i]}, not {want[i]}")
                return False
            if still.any() and not (g[still] == im[None]).all():
                res.violate("identity", f"{d} warping by zero flow or over zero time changes the {h}x{w} image")
                return False
    res.traces += len(flows)
    return True


def lattice(n, step):
    return sorted(set(np.arange(-n - 1, n + 1.01, step).tolist()) | {k + t for k in (-2, -1, 0, 1) for t in (1 / 3, 0.9)})


def k_uniform(case, tier, res):
    h, w = case["shape"]
    f = warpers()
    ds = np.array(list(itertools.product(lattice(w, case["step"]), lattice(h, case["step"]))), np.float32)
    flows = np.broadcast_to(ds[:, None, None, :], (len(ds), h, w, 2))
    if not check(res, f, h, w, flows, 1.0, "uniform"):
        return
    for dt in (0.5, 2.0, 0.0):
        if not check(res, f, h, w, flows[:: 7] / (dt or 1), dt, "uniform"):
            return
    res.sample(dict(case=case, flows=len(ds)))


def k_one(case, tier, res):
    """One pixel moves by every displacement of a coarser lattice, the others by another amount."""
    h, w = case["shape"]
    f = warpers()
    flows = []
    for p in range(h * w):
        for rest in ((0, 0), (1.0, -0.25)):
            for d in itertools.product(lattice(w, 1.0)[::1], lattice(h, 1.0)):
                fl = np.zeros((h * w, 2), np.float32) + np.array(rest, np.float32)
                fl[p] = d
                flows.append(fl.reshape(h, w, 2))
    if tier != "thorough" and len(flows) > 2500:
        flows = flows[::3]
    check(res, f, h, w, flows, 1.0, "one")


def k_flows(case, tier, res):
    h, w = case["shape"]
    f = warpers()
    vec = [(0, 0), (1, 0), (0, -1), (0.5, 0.25), (-0.75, 1.5)] + ([(0.25, -1), (2, 2)] if tier == "thorough" else [])
    it = list(itertools.product(range(len(vec)), repeat=h * w))
    flows = np.array(vec, np.float32)[np.array(it)].reshape(-1, h, w, 2)
    for dt in (1.0, 0.5):
        if not check(res, f, h, w, flows, dt, "flows"):
            return
    res.sample(dict(case=case, flows=len(flows)))


def functions():
    import jax.numpy as jnp

    return {
        "zero": lambda t, x, y: (0.0 * x, 0.0 * y), "right": lambda t, x, y: (1.0 + 0 * x, 0.0 * y), "t": lambda t, x, y: (t + 0.0 * x, -t + 0.0 * y),
        "x": lambda t, x, y: (x * 1.0, 0.0 * y), "y": lambda t, x, y: (y * 1.0, 0.0 * y), "shear": lambda t, x, y: (0.5 * y, 0.25 * x),
        "txy": lambda t, x, y: (t - 0.5 * x + 0.1 * y, 0.3 * x * y - t), "array": lambda t, x, y: jnp.array([0.5 * x - t, y * 0.25 + t]),
        "list": lambda t, x, y: [0.25 * y, t + 0.5 * x],
    }


def k_callable(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.apply import apply_flow_to_image_callable

    h, w = case["shape"]
    im = images(h, w)
    for name, fn in functions().items():
        fs = {fwd: jax.jit(jax.vmap(lambda i, t, dt, fwd=fwd: apply_flow_to_image_callable(i, fn, t=t, dt=dt, forward=fwd), in_axes=(0, None, None)))
              for fwd in (False, True)}
        for t, dt, fwd in itertools.product((0.0, 1.0, -0.75), (1.0, 0.5), (False, True)):
            g = np.asarray(fs[fwd](jnp.array(im), t, dt), np.float64)
            fl = np.array([[[float(v) for v in fn(t, float(j), float(i))] for j in range(w)] for i in range(h)])
            want = (im.reshape(len(im), -1).astype(np.float64) @ maps(fl[None], dt)[0 if fwd else 1][0].T).reshape(im.shape)
            res.evaluations += len(im)
            res.seen((h, w, name, t, dt, fwd))
            if g.shape != want.shape or not (np.abs(g - want) <= ATOL * 40).all():
                res.violate("callable", f"warping a {h}x{w} image by flow function {name} at t={t}, dt={dt}, forward={fwd} differs from the definition")
                return
            common.beat()
    res.traces += res.evaluations
    # positional order of the arguments and the defaults
    a = np.asarray(apply_flow_to_image_callable(jnp.array(im[-1]), functions()["txy"]), np.float64)
    fl = np.array([[functions()["txy"](0.0, float(j), float(i)) for j in range(w)] for i in range(h)])
    want = (maps(fl[None], 1.0)[1][0] @ im[-1].ravel().astype(np.float64)).reshape(h, w)
    if not (np.abs(a - want) <= ATOL * 40).all():
        res.violate("defaults", f"the default warp of a {h}x{w} image is not backward at t=0 over dt=1")


def k_types(case, tier, res):
    """Whole-number images are warped like the same values as floating point."""
    import jax.numpy as jnp
    from synthpix.apply import apply_flow_to_image_backward as bw, apply_flow_to_image_forward as fw

    for h, w in ((2, 3), (3, 2), (4, 4)):
        im = (np.arange(h * w) * 37 % 251).reshape(h, w)
        for d in itertools.product((-1.0, -0.25, 0.0, 0.5, 1.0), repeat=2):
            fl = np.broadcast_to(np.array(d, np.float32), (h, w, 2))
            m = maps(fl[None], 1.0)
            for name, fn, k in (("forward", fw, 0), ("backward", bw, 1)):
                want = (m[k][0] @ im.ravel()).reshape(h, w)
                for dt in (jnp.float32, jnp.int32, jnp.uint8):
                    got = np.asarray(fn(jnp.array(im, dt), jnp.array(fl), 1.0), np.float64)
                    res.evaluations += 1
                    res.seen((h, w, d, name, str(dt)))
                    if not (np.abs(got - want) <= 1e-3).all():
                        res.violate(f"type-{name}", f"{name} warping of a {h}x{w} {dt.__name__} image by {d}: {got.tolist()}, not {want.tolist()}")
                        return
                common.beat()
    res.traces += res.evaluations
