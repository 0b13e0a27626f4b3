"""C20: particles are displaced by the interpolated local velocity."""
import itertools

import numpy as np

from . import common, ref

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of positions on fractional lattices, grid shapes and unit flow basis fields on the real "
             "functions against a float64 definition")
NOTE = ("The map from flow to displacement is linear for a fixed position, so agreement on every unit basis field (and on two "
        "dense fields, which would show a non-linearity) at a position decides all flows there; positions are enumerated on "
        "lattices that include grid nodes, edges and both sides of every cell border.")
RULE = "distinct = different (shape, position, basis field) with a non-zero result"
BOUNDS = {
    "quick": "2D: all grids 1-5 x 1-5, positions -1.75..n+0.75 in steps 0.25 and 1/3; 3D: all grids 1-3 x 1-3 x 1-3, positions in steps "
             "0.5 from -1.5 to n+0.5 and thirds; 3-4 time steps and per-axis resolutions; all basis fields; orders of 3 particles; "
             "array generation on all shapes 1-6 x 1-6; input checks over all single-argument corruptions",
    "thorough": "2D grids to 8x8 with steps of 1/8; 3D grids to 4x4x4 with steps 0.25",
}
ASSUMPTIONS = ["linearity in the flow of the real function (checked on dense fields only)"]
XLA_CACHE = False
ATOL = 2e-5


def cases(tier, seed):
    T = tier == "thorough"
    out = [dict(k="2d", h=h, w=w, step=0.125 if T else 0.25) for h, w in itertools.product(range(1, 9 if T else 6), repeat=2)]
    out += [dict(k="3d", d=d, h=h, w=w, step=0.25 if T else 0.5)
            for d, h, w in itertools.product(range(1, 5 if T else 4), repeat=3)]
    out += [dict(k="gen", h=h, w=w) for h, w in itertools.product(range(1, 9 if T else 7), repeat=2)]
    out += [dict(k="order"), dict(k="inputs")]
    return out


def lattice(n, step):
    a = set(np.arange(-1.75, n + 0.76, step).tolist()) | {k + t for k in range(-1, n + 1) for t in (1 / 3, 2 / 3)} | set(range(-1, n + 1))
    return sorted(a)


SCALES = [(1.0, 1.0, 1.0, 1.0), (0.5, 2.0, 3.0, 1.0), (2.0, 0.25, 1.5, 0.75), (0.1, 1.0, 7.0, 2.5)]


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def compare(res, got, want, what, scale=1.0):
    bad = np.argwhere(~(np.abs(got - want) <= ATOL * max(1.0, scale)))
    if len(bad):
        i = tuple(bad[0])
        res.violate(what[0], f"{what[1]}: index {i}: {got[i]} instead of {want[i]}")
        return False
    return True


def k_2d(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.apply import apply_flow_to_particles

    h, w = case["h"], case["w"]
    pts = np.array(list(itertools.product(lattice(h, case["step"]), lattice(w, case["step"]))))
    p32 = jnp.array(pts, jnp.float32)
    ex = np.asarray(p32, np.float64)
    m = ref.bilinear_map(h, w, ex[:, 0], ex[:, 1])  # (P, h*w)
    basis = np.zeros((2 * h * w + 2, h, w, 2), np.float32)
    for k in range(h * w):
        basis[2 * k].reshape(h * w, 2)[k, 0] = 1
        basis[2 * k + 1].reshape(h * w, 2)[k, 1] = 1
    idx = np.arange(h * w).reshape(h, w)
    basis[-2, ..., 0], basis[-2, ..., 1] = (idx * 37 % 11) - 5.0, (idx * 29 % 13) - 6.5
    basis[-1] = -3 * basis[-2][..., ::-1] + 0.25
    for dt, rx, ry, _ in SCALES:
        # in pieces, so that one compiled function does for all flows
        f = jax.jit(jax.vmap(lambda fl: apply_flow_to_particles(p32, fl, dt, rx, ry)))
        got = np.asarray(f(jnp.array(basis)), np.float64)
        vel = np.einsum("pk,bkc->bpc", m, basis.reshape(len(basis), h * w, 2).astype(np.float64))
        want = np.stack([ex[:, 0] + vel[..., 1] * ry * dt, ex[:, 1] + vel[..., 0] * rx * dt], -1)
        res.evaluations += got.size // 2
        common.beat()
        if got.shape != want.shape:
            res.violate("shape", f"{got.shape[1:]} for {len(pts)} particles")
            return
        if not compare(res, got, want, ("displacement", f"grid {h}x{w}, dt {dt}, resolutions {rx}, {ry} (field, particle, y/x)"),
                       np.abs(want).max()):
            return
    for b in range(len(basis)):
        for k in np.flatnonzero(np.abs(vel[b]).sum(-1)):
            res.seen((h, w, b, int(k)))
    res.traces += len(basis)
    res.sample(dict(case=case, particles=len(pts), fields=len(basis)))


def k_3d(case, tier, res):
    import jax
    import jax.numpy as jnp
    from synthpix.apply import apply_flow_to_particles

    d, h, w = case["d"], case["h"], case["w"]
    lat = lambda n: sorted(set(np.arange(-1.5, n + 0.51, case["step"]).tolist()) | {k + 1 / 3 for k in range(-1, n)})
    pts = np.array(list(itertools.product(lat(d), lat(h), lat(w))))
    p32 = jnp.array(pts, jnp.float32)
    ex = np.asarray(p32, np.float64)
    m = ref.trilinear_map(d, h, w, ex[:, 0], ex[:, 1], ex[:, 2])
    n = d * h * w
    basis = np.zeros((3 * n + 1, n, 3), np.float32)
    for k in range(n):
        for c in range(3):
            basis[3 * k + c, k, c] = 1
    basis[-1] = (np.arange(n * 3).reshape(n, 3) * 31 % 17) - 8
    for dt, rx, ry, rz in SCALES[1:3]:
        f = jax.jit(jax.vmap(lambda fl: apply_flow_to_particles(p32, fl, dt, rx, ry, rz)))
        got = np.asarray(f(jnp.array(basis.reshape(-1, d, h, w, 3))), np.float64)
        vel = np.einsum("pk,bkc->bpc", m, basis.astype(np.float64))
        want = np.stack([ex[:, 0] + vel[..., 2] * rz * dt, ex[:, 1] + vel[..., 1] * ry * dt, ex[:, 2] + vel[..., 0] * rx * dt], -1)
        res.evaluations += got.size // 3
        common.beat()
        if got.shape != want.shape:
            res.violate("shape", f"{got.shape[1:]} for {len(pts)} particles")
            return
        if not compare(res, got, want, ("displacement", f"grid {d}x{h}x{w}, dt {dt} (field, particle, z/y/x)"), np.abs(want).max()):
            return
    res.traces += len(basis)
    for b in range(len(basis)):
        res.seen((d, h, w, b))


def k_gen(case, tier, res):
    import jax.numpy as jnp
    from synthpix.utils import generate_array_flow_field

    h, w = case["h"], case["w"]
    fs = [(lambda t, x, y: (x * 1.0, y * 1.0), lambda x, y: (x, y)), (lambda t, x, y: (y * 2.0 - x, x * y + t[0]), lambda x, y: (2 * y - x, x * y + 1)),
          (lambda t, x, y: (jnp.float32(3.0), x * 1.0), lambda x, y: (3.0, x))]
    for k, (f, g) in enumerate(fs):
        a = np.asarray(generate_array_flow_field(f, (h, w)))
        want = np.array([[g(x, y) for x in range(w)] for y in range(h)], float)
        res.evaluations += 1
        res.seen((h, w, k))
        if a.shape != want.shape or not np.allclose(a, want, atol=1e-5):
            bad = a.shape if a.shape != want.shape else np.argwhere(~np.isclose(a, want))[0]
            res.violate("generated-field", f"flow function {k} on a {h}x{w} grid: wrong at (row, column, component) / shape {bad}")
            return


def k_order(case, tier, res):
    """The displacement of a particle does not depend on which others there are, nor on their order."""
    import jax.numpy as jnp
    from synthpix.apply import apply_flow_to_particles

    fl = jnp.array((np.arange(24).reshape(3, 4, 2) * 7 % 5), jnp.float32)
    pts = [(0.0, 0.0), (1.25, 2.5), (2.0, 3.0), (-0.5, 1.0), (1.25, 2.5)]
    alone = {p: np.asarray(apply_flow_to_particles(jnp.array([p]), fl, 0.5, 2.0, 3.0))[0] for p in set(pts)}
    for n in (2, 3, 5):
        for sel in itertools.permutations(pts, n):
            got = np.asarray(apply_flow_to_particles(jnp.array(sel), fl, 0.5, 2.0, 3.0))
            res.evaluations += 1
            res.seen(sel)
            if not np.allclose(got, [alone[p] for p in sel], atol=1e-6):
                res.violate("order", f"particles {sel} moved together differ from the same moved alone")
                return


def k_inputs(case, tier, res):
    """Every consistent 2D input is accepted, every corruption of one argument refused."""
    import jax.numpy as jnp
    from synthpix.apply import input_check_apply_flow

    good = dict(particle_positions=[jnp.zeros((n, 2)) for n in (1, 3)], flow_field=[jnp.zeros((3, 4, 2)), jnp.zeros((1, 1, 2))],
                dt=[1, 0.5, -1.0, 0], flow_field_res_x=[1, 0.25], flow_field_res_y=[2, 0.5], flow_field_res_z=[1.0])
    bad = dict(particle_positions=[np.zeros((2, 2)), [[0, 0]], jnp.zeros((2,)), jnp.zeros((2, 4)), jnp.zeros((2, 1)), jnp.zeros((1, 2, 2)),
                                   None, jnp.zeros((2, 3))],
               flow_field=[np.zeros((3, 4, 2)), None, jnp.zeros((3, 4)), jnp.zeros((3, 4, 1)), jnp.zeros((3, 4, 4)), jnp.zeros((3, 4, 3))],
               dt=["1", None, [1.0]], flow_field_res_x=[0, -1.0, "1", None], flow_field_res_y=[0, -0.5, "1", None],
               flow_field_res_z=[0, -2, "1", None])
    base = {k: v[0] for k, v in good.items()}
    for k, vs in good.items():
        for v in vs:
            res.evaluations += 1
            try:
                input_check_apply_flow(**{**base, k: v})
            except Exception as e:
                res.violate("refused", f"a consistent input is refused ({k}={v!r:.60}): {e}")
                return
    for k, vs in bad.items():
        for v in vs:
            for k2, vs2 in good.items():
                for v2 in vs2 if k2 != k else ():
                    res.evaluations += 1
                    try:
                        input_check_apply_flow(**{**base, k2: v2, k: v})
                    except ValueError:
                        continue
                    except Exception as e:
                        res.violate("refusal", f"{type(e).__name__} instead of ValueError for {k}={v!r:.60}: {e}")
                        return
                    res.violate("accepted", f"an inconsistent input is accepted: {k}={v!r:.60}")
                    return
    res.seen("inputs")
