"""C18: accepted geometry always yields images and labels of the configured shape."""
import itertools

import numpy as np

from . import common, geom
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of sampler geometries (lattice of shapes, resolutions, offsets, extents, speeds, grids) on "
             "the real sampler: acceptance, shapes by abstract evaluation, labels and particle motion on affine flow fields")
NOTE = ("Every geometry of the lattice is built; of every accepted one the shapes of the batch are computed, and of a "
        "complete sub-lattice a batch is made and every label and measurable particle compared with the affine flow.")
RULE = "distinct = different geometries (accepted or refused) judged"
BOUNDS = {
    "quick": "4 image shapes x 7 resolutions x 3 time steps x 5 speed ranges x 4 offsets x 4 extents (fitting, exact, too small "
             "on either axis) x 3 grids, with and without hidden particles, 4 label densities; labels and motion on 160 of them",
    "thorough": "more resolutions, shapes and grids; labels and motion on 2500 of them",
}
ASSUMPTIONS = ["geometries that fit exactly may be accepted or refused (rounding)",
               "labels lie within one grid step and one label of the pixel they describe (their sampling pattern is C24's)"]
XLA_CACHE = True


def params(T):
    return dict(
        imgs=[(5, 5), (16, 20), (21, 17), (32, 24)] + ([(64, 48), (7, 30)] if T else []),
        ress=[0.5, 1, 2, 3.0, 0.3, 7.0, 155.0] + ([0.1, 1 / 3, 10, 49.0] if T else []),
        dts=[1.0, 0.1, 0.026],
        # in units of pixels per frame: scaled below
        sps=[(0, 0, 0, 0), (-1, 1, -1, 1), (-0.7, 3, 0, 2.3), (0.5, 2, -3, -1), (-2, 0.1, -0.3, 1.7)],
        offs=[(0, 0), (1.7, 0.4), (-0.5, 3), (3, -0.5)],
        slacks=[(0.5, 2.2), (0, 0), (-0.5, 1), (1, -0.5)],
        grids=[(4, 5), (16, 16), (47, 33)] + ([(128, 96)] if T else []))


def all_geoms(T):
    p = params(T)
    for res, dt in itertools.product(p["ress"], p["dts"]):
        sps = [tuple(v / (res * dt) for v in s) for s in p["sps"]]
        offs = [tuple(v / res for v in o) for o in p["offs"]]
        sl = [tuple(v / res for v in o) for o in p["slacks"]]
        for k, g in enumerate(geom.lattice(p["imgs"], [res], [dt], sps, offs, sl, p["grids"])):
            g.vpp = (1.0, 0.5, 2, 0.29)[k % 4]
            g.hide = (0.0, 0.0, 0.2)[k % 3]
            yield g


def cases(tier, seed):
    T = tier == "thorough"
    p = params(T)
    out = []
    n = 2500 if T else 160
    for img in ([100, 200], [64, 48], [7, 3]):
        for vpp in (0.29, 0.57, 1.1, 0.07, 3, 0.25):
            out.append(dict(k="density", img=img, vpp=vpp))
    out += [dict(k="shape", i=i, of=64) for i in range(64)]
    out += [dict(k="batch", i=i, of=n) for i in range(n)]
    return out


def label_shape(g):
    return tuple(int(np.floor(s * g.vpp + 1e-6)) for s in g.img)


def desc(g):
    return (f"image {g.img}, resolution {g.res}, dt {g.dt}, speeds {g.sp}, offset {g.off}, extent {g.size}, grid {g.grid}, "
            f"labels per pixel {g.vpp}, hiding {g.hide}, diameter {g.diam}")


def accept(g, res, batch=2, n=1, src=None):
    """The sampler, or None when it is refused; judges the acceptance."""
    src = src or sm.Src(None, shape=g.grid)
    fits, not_ = g.fits()
    try:
        s = g.build(src, n, batch)
    except ValueError as e:
        if fits:
            res.violate("refused", f"refused although it fits: {e}; {desc(g)}")
        return None
    if not_:
        res.violate("accepted", f"accepted although image and travel do not fit the flow field; {desc(g)}")
        return None
    return s


def shapes(s, n, g, batch, res, real=True):
    import jax

    try:
        fl = jax.ShapeDtypeStruct((n, *g.grid, 2), np.float32)
        lab, win = jax.eval_shape(s.flow_field_adapter_jit, fl)
        key = jax.ShapeDtypeStruct((1, 2), np.uint32)
        i1, i2, _ = jax.eval_shape(s.img_gen_fn_jit, key, jax.ShapeDtypeStruct(win.shape, np.float32))
    except (AttributeError, TypeError, ValueError):
        # the sampler is put together in another way: look at a batch, of some of the geometries
        if not real:
            return
        got = sm.nxt(s)
        if got[0] != "batch":
            res.violate("no-batch", f"{got}; {desc(g)}")
            return
        i1, i2, lab = got[1].images1, got[1].images2, got[1].flow_fields
    want = (batch, *g.img)
    if tuple(i1.shape) != want or tuple(i2.shape) != want:
        res.violate("image-shape", f"images of shape {i1.shape} / {i2.shape} instead of {want}; {desc(g)}")
    elif tuple(lab.shape) != (batch, *label_shape(g), 2):
        res.violate("label-shape", f"labels of shape {lab.shape} instead of {(batch, *label_shape(g), 2)}; {desc(g)}")


def run_case(case, tier, res):
    T = tier == "thorough"
    if case["k"] == "density":
        g = geom.Geometry(case["img"], 1.0, 1.0, (0, 0, 0, 0), (0.0, 0.0), (300.0, 300.0), (8, 8), vpp=case["vpp"])
        s = accept(g, res)
        res.evaluations += 1
        if s is not None and 0 not in label_shape(g):
            shapes(s, 1, g, 2, res)
        return
    if case["k"] == "shape":
        gs = list(itertools.islice(all_geoms(T), case["i"], None, case["of"]))
        step = 1 if T else 6
        for j, g in enumerate(gs):
            common.beat()
            res.evaluations += 1
            s = accept(g, res)
            res.seen((desc(g), s is not None))
            res.add("accepted" if s is not None else "refused")
            if s is not None and j % step == case["i"] % step:
                shapes(s, 1, g, 2, res, real=j % (8 * step) == case["i"] % step)
                res.add("shapes")
            if res.violations:
                return
        return
    gs = [g for g in all_geoms(T) if g.fits()[0]]
    pick = gs[case["i"] * len(gs) // case["of"]]
    measure(pick, res)


def measure(g, res, seed=0, batches=2):
    """Labels and motions of a real batch on affine flow fields."""
    h, w = g.grid
    ry, rx = h / g.size[0], w / g.size[1]  # grid steps per length unit
    px = g.res * g.dt  # pixels per velocity unit
    x0, x1, y0, y1 = (min(0, g.sp[0]), max(0, g.sp[1]), min(0, g.sp[2]), max(0, g.sp[3]))
    coef = []
    for i in range(2):  # spans the speed range over the grid, differently on both axes
        fx, fy = (0.3, 0.6) if i == 0 else (-0.5, 0.35)
        ux = (x1 - x0) * 0.9 or 0.05 / px
        uy = (y1 - y0) * 0.9 or 0.05 / px
        mx, my = (x0 + x1) / 2, (y0 + y1) / 2
        cx = (ux * fx / max(1, w - 1), ux * (1 - abs(fx)) / max(1, h - 1))
        cy = (uy * fy / max(1, w - 1), -uy * (1 - abs(fy)) / max(1, h - 1))
        coef.append(((mx - cx[0] * (w - 1) / 2 - cx[1] * (h - 1) / 2, *cx),
                     (my - cy[0] * (w - 1) / 2 - cy[1] * (h - 1) / 2, *cy)))
    n, B = 2, 12
    src = geom.Affine(coef, g.grid, n)
    g.diam = sm.D
    s = accept(g, res, batch=B, n=n, src=src)
    if s is None:
        return
    ls = label_shape(g)
    if 0 in ls:
        return
    amp = max(abs(v) for v in (x0, x1, y0, y1)) + 0.1 / px
    for k in range(batches):
        got = sm.nxt(s)
        res.evaluations += 1
        if got[0] != "batch":
            res.violate("no-batch", f"{got}; {desc(g)}")
            return
        b = got[1]
        if b.images1.shape != (B, *g.img) or b.images2.shape != (B, *g.img):
            res.violate("image-shape", f"images {b.images1.shape}; {desc(g)}")
            return
        if b.flow_fields.shape != (B, *ls, 2):
            res.violate("label-shape", f"labels {b.flow_fields.shape} instead of {(B, *ls, 2)}; {desc(g)}")
            return
        lab = np.asarray(b.flow_fields, float)
        if not np.isfinite(lab).all() or not np.isfinite(np.asarray(b.images1)).all() or not np.isfinite(np.asarray(b.images2)).all():
            res.violate("not-finite", desc(g))
            return
        # where each label was sampled: solve the affine field for the grid position
        pos = []
        for i in range(B):
            (a0, b0, c0), (a1, b1, c1) = coef[i % n]
            M = np.linalg.inv(np.array([[b0, c0], [b1, c1]]))
            q = (lab[i] - np.array([a0, a1])) @ M.T  # (gx, gy)
            tol = 3e-6 * amp * np.abs(M).sum(1).max() + 1e-3
            pos.append((q[..., 1], q[..., 0], tol))
        for i, (gy, gx, tol) in enumerate(pos):
            for axis, (p, r, o, m, nl) in enumerate(((gy[:, 0], ry, g.off[0], g.img[0], ls[0]), (gx[0, :], rx, g.off[1], g.img[1], ls[1]))):
                true = (o + np.arange(nl) * (m / nl) / g.res) * r
                # the image may be placed up to a pixel before its nominal offset; a label lies within a grid step and a label
                # of its pixel
                lee = 1 + m / nl / g.res * r + tol
                low, high = true - r / g.res - lee, true + lee
                edge = np.clip(p, 0, (h, w)[axis] - 1)
                if ((edge < np.clip(low, 0, None)) | (edge > high)).any():
                    j = int(np.argmax((edge < np.clip(low, 0, None)) | (edge > high)))
                    res.violate("label-place", f"label {j} on axis {axis} of row {i} was sampled at grid position {p[j]:.4f}, its "
                                f"pixel lies at {true[j]:.4f}; {desc(g)}")
                    return
                if g.res * (nl - 1) and r * m / g.res >= 1.5 and ls == g.img:
                    # far enough resolved: the first label is at the image's corner
                    if not (true[0] - r / g.res - tol <= p[0] <= true[0] + tol):
                        res.violate("label-place", f"the first label on axis {axis} was sampled at {p[0]:.4f}, the image starts at "
                                    f"{true[0]:.4f}; {desc(g)}")
                        return
        starts = [(gy[0, 0], gx[0, 0]) for gy, gx, _ in pos]
        (ay, by), (ax, bx) = g.travel()
        for i, (im1, im2) in enumerate(zip(np.asarray(b.images1), np.asarray(b.images2))):
            p, q = sm.locate(im1), sm.locate(im2)
            if p is None or q is None:
                continue
            sy, sx = starts[i]
            gy, gx = sy + p[0] * ry / g.res, sx + p[1] * rx / g.res
            # the last grid cell(s) before the end of the region of motion uses its edge value
            if gy > (g.off[0] + g.img[0] / g.res + by) * ry - 2.01 or gx > (g.off[1] + g.img[1] / g.res + bx) * rx - 2.01:
                res.add("rows_in_edge_cell")
                continue
            if gy < 0 or gx < 0:
                continue
            want = value_px(coef[i % n], gy, gx) * px
            have = np.array([q[1] - p[1], q[0] - p[0]])
            res.add("rows_measured")
            slope = px * max(abs(v) for c in coef[i % n] for v in c[1:])
            if np.abs(have - want).max() > 4e-3 + slope * 2 * pos[i][2]:
                res.violate("motion", f"the particle of row {i} at {p} moved by {have}, the flow field there says {want} (pixels); {desc(g)}")
                return
    res.seen(desc(g))
    res.states += 1


value_px = geom.value
