"""C24: flow labels are resampled, cropped, scaled and tiled correctly."""
import itertools

import numpy as np

from . import common, ref

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of grids, windows, resolutions, paddings, units and counts on the real adapter against a float64 "
             "definition")
NOTE = ("The adapter is linear in each flow field, so each configuration is decided on all unit fields of its grid at once (they form the "
        "batch of flows) and on dense fields; windows inside, across and beyond the grid are included.")
RULE = "distinct = different (configuration, flow) pairs"
BOUNDS = {
    "quick": "6 grids to 8x7, image shapes, offsets, label shapes, bounds, bound offsets, 4 resolutions, 4 grid resolutions (product, thinned "
             "by a fixed stride), 2 units, 3 time steps, 4 paddings, 1-5 flows with 1-9 labels",
    "thorough": "the same product thinned by 5 instead of 97",
}
ASSUMPTIONS = ["linearity in the flow of the real function (checked on dense fields only)"]
XLA_CACHE = False

GRIDS = [(1, 1), (4, 6), (6, 4), (5, 5), (8, 7), (2, 3)]
# (image shape, offset, position bounds)
WINDOWS = [((4, 4), (0, 0), (4, 4)), ((3, 5), (1, 0), (5, 6)), ((6, 2), (0, 3), (6, 7)), ((1, 1), (2, 1), (3, 4)), ((8, 8), (1, 2), (9, 12)),
           ((5, 4), (2, 2), (9, 8))]
NEW = [(4, 4), (3, 5), (1, 1), (7, 2), (2, 9)]
RES = [1.0, 2.0, 0.5, 3.0]
GRES = [(1.0, 1.0), (2.0, 1.0), (0.5, 3.0), (1.0, 0.75)]  # (x, y)
PBO = [(0, 0), (1, 0.5), (0.25, 2), (0, 3)]
PADS = [(0, 0), (1, 0), (0, 2), (3, 1)]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for g, (gi, w) in itertools.product(GRIDS, enumerate(WINDOWS)):
        out.append(dict(k="geo", grid=g, win=w, stride=5 if T else 97, at=gi))
    for n in range(1, 6):
        out.append(dict(k="count", n=n))
    out.append(dict(k="checks"))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def basis(h, w):
    n = h * w
    b = np.zeros((2 * n + 2, h, w, 2), np.float32)
    for k in range(n):
        b[2 * k].reshape(n, 2)[k, 0] = 1
        b[2 * k + 1].reshape(n, 2)[k, 1] = 1
    i = np.arange(n).reshape(h, w)
    b[-2, ..., 0], b[-2, ..., 1] = (i * 37 % 11) - 5.0, (i * 29 % 13) - 6.5
    b[-1] = 0.25 - 3 * b[-2][..., ::-1]
    return b


def compare(res, got, wants, what):
    lab, win = (np.asarray(g, np.float64) for g in got)
    for k, (l, w) in enumerate(wants):
        for name, g, x in (("label", lab[k], l), ("window", win[k] if k < len(win) else None, w)):
            if g is None:
                continue
            if g.shape != x.shape:
                res.violate(f"{name}-shape", f"{what}: {name} {k} has shape {g.shape}, not {x.shape}")
                return False
            tol = 2e-4 * max(1.0, np.abs(x).max())
            if not (np.abs(g - x) <= tol).all():
                i = np.unravel_index(np.nanargmax(np.abs(g - x)), g.shape)
                res.violate(name, f"{what}: {name} {k} at {[int(v) for v in i]} is {g[i]}, not {x[i]}")
                return False
    return True


def k_geo(case, tier, res):
    import jax.numpy as jnp
    from synthpix.utils import flow_field_adapter

    h, w = case["grid"]
    shape, off, pb = case["win"]
    b = basis(h, w)
    combos = list(itertools.product(NEW, RES, GRES, PBO, PADS, ("pixels", "measure units per second"), (1.0, 0.5, 2.0)))
    # physical units do not involve the time step, so one time step does there
    combos = [c for c in combos if c[5] == "pixels" or c[6] == 0.5]
    for k, (new, r, (rx, ry), pbo, pad, units, dt) in enumerate(combos):
        if (k + case["at"]) % case["stride"] or pb[0] / r * ry < 1 or pb[1] / r * rx < 1:
            continue
        f = lambda fl: flow_field_adapter(fl, new_flow_field_shape=new, image_shape=shape, img_offset=off, resolution=r, res_x=rx, res_y=ry,
                                          position_bounds=pb, position_bounds_offset=pbo, batch_size=len(b), output_units=units, dt=dt,
                                          zero_padding=pad)
        got = f(jnp.array(b))
        want = list(zip(*ref.adapt(b, new, shape, off, r, rx, ry, pb, pbo, units, dt, pad)))
        res.evaluations += len(b)
        common.beat()
        for i in range(len(b)):
            res.seen((h, w, case["win"], k, i))
        if len(got[0]) != len(b) or len(got[1]) != len(b):
            res.violate("count", f"{len(got[0])} labels and {len(got[1])} windows for {len(b)} flows")
            return
        if not compare(res, got, want, f"grid {h}x{w}, image {shape} at {off} of {pb} at {pbo}, {new} labels, resolution {r}, grid {rx}, {ry}, "
                       f"{units}, dt {dt}, padding {pad}"):
            return
    res.traces += res.evaluations


def k_count(case, tier, res):
    """Label i belongs to flow i mod n, for every number of labels; the windows are one per flow."""
    import jax.numpy as jnp
    from synthpix.utils import flow_field_adapter

    n = case["n"]
    for (h, w) in ((4, 6), (5, 5)):
        fl = basis(h, w)[-2] + np.arange(n, dtype=np.float32)[:, None, None, None] * np.array([1.0, -2.0], np.float32)
        for batch in range(1, 10):
            got = flow_field_adapter(jnp.array(fl), new_flow_field_shape=(3, 4), image_shape=(3, 4), img_offset=(1, 0), position_bounds=(4, 5),
                                     batch_size=batch)
            want = ref.adapt(fl, (3, 4), (3, 4), (1, 0), 1.0, 1.0, 1.0, (4, 5), (0, 0), "pixels", 1.0, (0, 0))
            want = [(want[0][i % n], want[1][i % n]) for i in range(batch)]
            res.evaluations += 1
            res.seen((h, w, n, batch))
            if len(got[0]) != batch or len(got[1]) != n:
                res.violate("count", f"{n} flows adapted to {batch} labels: {len(got[0])} labels, {len(got[1])} windows")
                return
            if not compare(res, (got[0], np.asarray(got[1])[np.arange(batch) % n]), want, f"{n} flows to {batch} labels"):
                return
            common.beat()
    # the defaults: unit resolution, 256 x 256 pixels, pixel units
    fl = basis(5, 4)[-2:]
    got = flow_field_adapter(jnp.array(fl))
    want = ref.adapt(fl, (256, 256), (256, 256), (0, 0), 1.0, 1.0, 1.0, (256, 256), (0, 0), "pixels", 1.0, (0, 0))
    res.evaluations += 1
    if len(got[0]) != 1 or not compare(res, got, [(want[0][0], want[1][0])], "defaults"):
        res.violate("defaults", "the defaults do not give one 256x256 label in pixels")
    res.traces += res.evaluations


GOOD = dict(flow_field="flow", new_flow_field_shape=(3, 4), image_shape=(3, 4), img_offset=(1, 0), resolution=1.0, res_x=1.0, res_y=2.0,
            position_bounds=(4, 5), position_bounds_offset=(0, 0.5), batch_size=3, output_units="pixels", dt=0.5, zero_padding=(0, 1))
BAD = dict(
    flow_field=["numpy", "3d", "channels", None], new_flow_field_shape=[(3,), (0, 4), (3.0, 4), [3, 4], (3, -1), (3, 4, 5), None, 3],
    image_shape=[(3,), (0, 4), (3, 4.5), [3, 4], (-3, 4), None], img_offset=[(1,), (-1, 0), (0, "a"), [1, 0], None],
    resolution=[0, -1.0, "1", None], res_x=[0, -1.0, "1", None], res_y=[0, -2, "1", None], position_bounds=[(4,), (0, 5), (4, -5), [4, 5], None],
    position_bounds_offset=[(0,), (-0.5, 0), (0, "a"), [0, 0], None], batch_size=[0, -1, 2.0, "3", None],
    output_units=["meters", "", None, 3], dt=[0, -1.0, "1", None], zero_padding=[(0,), (-1, 0), (0, 1.5), [0, 0], None, (0, 1, 2)])


def k_checks(case, tier, res):
    """The input check accepts admissible arguments and names every inadmissible one."""
    import jax.numpy as jnp
    from synthpix.utils import input_check_flow_field_adapter as check

    flows = {"flow": jnp.zeros((2, 4, 5, 2)), "numpy": np.zeros((2, 4, 5, 2)), "3d": jnp.zeros((4, 5, 2)), "channels": jnp.zeros((2, 4, 5, 3)),
             None: None}

    def call(kw):
        check(**{k: flows[v] if k == "flow_field" else v for k, v in kw.items()})

    for kw in [GOOD] + [dict(GOOD, **{k: v}) for k, v in (("output_units", "measure units per second"), ("res_x", 3), ("dt", 1), ("resolution", 2),
                                                         ("img_offset", (0.5, 0)), ("position_bounds", (4.5, 5)), ("zero_padding", (0, 0)),
                                                         ("batch_size", 1))]:
        res.evaluations += 1
        try:
            call(kw)
        except Exception as e:
            res.violate("refused", f"admissible arguments {kw} are refused: {e!r}")
            return
    for name, vals in BAD.items():
        for v in vals:
            res.evaluations += 1
            res.seen((name, repr(v)))
            try:
                call(dict(GOOD, **{name: v}))
                res.violate("accepted", f"{name}={v!r} is accepted")
                return
            except ValueError as e:
                if name not in str(e):
                    res.violate("unnamed", f"{name}={v!r} is refused without naming it: {e}")
                    return
            except Exception as e:
                res.violate("error", f"{name}={v!r}: {e!r}")
                return
    res.traces += res.evaluations
