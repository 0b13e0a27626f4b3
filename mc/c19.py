"""C19: uniform flow moves the particle image by exactly the labelled displacement."""
import itertools

import numpy as np

from . import common, geom
from . import smmodel as sm
from . import c18

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of sampler geometries on the real sampler with uniform flow fields; exact measurement of "
             "single-particle motion, and comparison of whole translated images for whole-pixel displacements")
NOTE = ("Every geometry of the lattice is sampled; the motion of every measurable particle is compared with the label, and with "
        "many particles the second image with the translated first.")
RULE = "distinct = different (geometry, displacement) combinations measured"
BOUNDS = {
    "quick": "160 geometries spread over the lattice of C18 (7 resolutions, 3 time steps, 5 speed ranges, offsets, extents, "
             "3 grids) x 12 rows x 3 displacements; 24 whole-image geometries x 3 displacements",
    "thorough": "1500 geometries x 24 rows x 5 displacements; 120 whole-image geometries x 9 displacements",
}
ASSUMPTIONS = ["border region: the patch radius plus the displacement"]
XLA_CACHE = True


def cases(tier, seed):
    T = tier == "thorough"
    n = 1500 if T else 160
    out = [dict(k="one", i=i, of=n) for i in range(n)]
    k = 0
    for img, grid, res, vpp in itertools.product([(40, 44), (33, 50)] + ([(64, 64)] if T else []),
                                                 [(4, 5), (16, 16), (47, 33), (40, 44)] + ([(1, 1), (128, 9)] if T else []),
                                                 (1, 2.0, 0.3) + ((7.0, 155.0) if T else ()), (1.0,)):
        out.append(dict(k="many", img=img, grid=grid, res=res, dt=(1.0, 0.1, 0.026)[k % 3], extra=(0.0, 0.4, 3.7)[k // 3 % 3],
                        shifts=9 if T else 3))
        k += 1
    return out


class Uniform(sm.Src):
    def __init__(self, vs, shape):
        super().__init__(None, shape=shape)
        self.vs = vs

    def get_batch(self, batch_size):
        from synthpix.types import SchedulerData

        ff = np.zeros((batch_size, *self.shape, 2), np.float32)
        for i in range(batch_size):
            ff[i] = self.vs[(self.pos * batch_size + i) % len(self.vs)]
        self.pos += 1
        return SchedulerData(flow_fields=ff, mask=np.ones(batch_size, bool), files=("f",) * batch_size)


def run_case(case, tier, res):
    T = tier == "thorough"
    if case["k"] == "one":
        gs = [g for g in c18.all_geoms(T) if g.fits()[0] and min(g.img) > 8]
        g = gs[case["i"] * len(gs) // case["of"]]
        x0, x1, y0, y1 = (min(0, g.sp[0]), max(0, g.sp[1]), min(0, g.sp[2]), max(0, g.sp[3]))
        vs = [(x0 + (x1 - x0) * a, y0 + (y1 - y0) * b) for a, b in ((0.1, 0.83), (0.97, 0.4), (0.5, 0.02), (0.33, 0.6), (1, 1))][:5 if T else 3]
        B = 24 if T else 12
        g.vpp = 1.0 if g.vpp == 0.29 else g.vpp
        units = ("pixels", "measure units per second")[case["i"] % 2]
        s = g.build(Uniform(vs, g.grid), len(vs), B, seed=case["i"] % 7, units=units)
        px = g.res * g.dt
        f = 1.0 if units == "pixels" else px
        for k in range(3):
            got = sm.nxt(s)
            if got[0] != "batch":
                res.violate("no-batch", f"{got}; {c18.desc(g)}")
                return
            res.evaluations += 1
            b = got[1]
            lab = np.asarray(b.flow_fields, float) * f
            for i, mv in enumerate(sm.motions(b)):
                want = np.array(vs[i % len(vs)]) * px
                if np.abs(lab[i] - want).max() > 1e-4 * max(1, np.abs(want).max()):
                    res.violate("label", f"label of row {i} is {lab[i].mean((0, 1))} pixels, the flow {want}; {c18.desc(g)}")
                    return
                if mv is None:
                    continue
                res.add("rows_measured")
                if np.abs(np.array(mv) - want).max() > 3e-3:
                    res.violate("motion", f"row {i}: the image moved by {mv} pixels, the label says {want}; {c18.desc(g)}")
                    return
                res.seen((c18.desc(g), i % len(vs)))
        res.states += 1
        return
    # whole images, whole-pixel displacements
    img, grid, rs, dt = tuple(case["img"]), tuple(case["grid"]), case["res"], case["dt"]
    shifts = [(0, 0), (3, -2), (-1, 4), (2, 2), (-3, -3), (4, 0), (0, -4), (1, 0), (0, 1)][:case["shifts"]]
    v = 4 / (rs * dt)
    g = geom.Geometry(img, rs, dt, (-v, v, -v, v), (0, 0), (1, 1), grid)
    m = (4 + case["extra"]) / rs
    g.off = (m, m)
    g.size = tuple(m + s / rs + m for s in img)
    vs = [(a / (rs * dt), b / (rs * dt)) for a, b in shifts]
    B = len(vs) * 2
    s = g.build(Uniform(vs, grid), len(vs), B, seeding_density_range=(0.05, 0.05), intensity_ranges=[(20.0, 40.0)],
                rho_ranges=[(-0.3, 0.3)])
    got = sm.nxt(s)
    if got[0] != "batch":
        res.violate("no-batch", f"{got}; {c18.desc(g)}")
        return
    b = got[1]
    for i in range(B):
        dx, dy = shifts[i % len(vs)]
        a1, a2 = np.asarray(b.images1)[i].astype(float), np.asarray(b.images2)[i].astype(float)
        e = 4 + 4  # displacement and patch radius
        want = np.roll(a1, (dy, dx), (0, 1))[e:-e, e:-e]
        have = a2[e:-e, e:-e]
        res.evaluations += 1
        if np.abs(have - want).max() > 0.5:
            res.violate("image", f"row {i}: the second image is not the first moved by {(dx, dy)} pixels (largest difference "
                        f"{np.abs(have - want).max():.2f} grey levels); {c18.desc(g)}")
            return
        if not have.any():
            res.add("empty")
        res.seen((c18.desc(g), dx, dy))
    res.states += 1
