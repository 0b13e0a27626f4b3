"""C37: a configured image mask and histogram reach every image."""
import itertools
import os

import numpy as np

from . import c28, common, ref
from . import fsmodel as fm
from . import smmodel as sm

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of masks, histograms, file types and ways of configuring them on the real sampler and factory, every image of every batch against "
             "those of a sampler without them and an exact matching; every single corruption of the files")
NOTE = "Every combination within the bounds is built in every way and iterated, with a reset; images, labels and parameters are compared with those of an unmasked twin."
RULE = "distinct = different (image shape, mask, histogram, way of configuring, batch), or corruptions"
BOUNDS = {
    "quick": "2 image shapes (and one of more than 65536 pixels), 9 masks x 5 file types, 5 histograms x 4 file types, pairs of them, given as arrays, by a mapping, and to the factory by a mapping and by a file; "
             "3 batches, a reset and 1 batch each; 18 corruptions of masks and 16 of histograms in each way",
    "thorough": "4 image shapes, all pairs, 5 batches",
}
ASSUMPTIONS = ["one device (several: C32)"]
XLA_CACHE = True
SHIM = False
CASE_LIMIT = {"quick": 150, "thorough": 400}
SHAPES = [(10, 12), (11, 9), (8, 16), (13, 13), (260, 260)]  # the last: counts beyond 16 bits
WAYS = ["array", "config", "make", "yaml"]
MTYPES, HTYPES = ["u1", "bool", "i8", "f4", "f8"], ["i8", "i4", "f4", "f8"]
LOOK = dict(intensity_ranges=[[60.0, 180.0]], noise_uniform=9.0, noise_gaussian_mean=12.0, noise_gaussian_std=2.0, seeding_density_range=[0.05, 0.1])


def masks(h, w):
    i, j = np.mgrid[:h, :w]
    out = dict(top=i < h // 3, left=j < w // 4, board=(i + j) % 2 == 0, ones=i >= 0, zeros=i < 0, corner=(i > 0) | (j > 0), last=(i < h - 1) | (j < w - 1),
               point=(i == 2) & (j == 3), wedge=i * w > j * h)
    return {k: v.astype(int) for k, v in out.items()}


def hists(n):
    one, two = np.zeros(256, int), np.zeros(256, int)
    one[77] = n
    two[10], two[200] = n // 3, n - n // 3
    ends = np.zeros(256, int)
    ends[0], ends[255] = n - n // 4, n // 4
    flat = np.full(256, n // 256)
    flat[: n % 256] += 1
    return dict(flat=flat, one=one, two=two, ends=ends, ramp=np.diff(np.floor(np.linspace(0, 1, 257) ** 2 * n)).astype(int))


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for si in range(4 if T else 2):
        ms, hs = list(masks(*SHAPES[si])), list(hists(1))
        k = si
        for mn in ms:
            for way in WAYS:
                out.append(dict(k="apply", si=si, mask=mn, hist=None, way=way, mt=MTYPES[k % 5], ht="i8", look=k % 2, len=5 if T else 3, seed=seed + k))
                k += 1
        for hn in hs:
            for way in WAYS:
                out.append(dict(k="apply", si=si, mask=None, hist=hn, way=way, mt="u1", ht=HTYPES[k % 4], look=k % 2, len=5 if T else 3, seed=seed + k))
                k += 1
        for q, (mn, hn) in enumerate(itertools.product(ms, hs)):
            if T or q % 4 == si:
                out.append(dict(k="apply", si=si, mask=mn, hist=hn, way=WAYS[(q // 4) % 4], mt=MTYPES[q % 5], ht=HTYPES[q % 4], look=q % 2, len=5 if T else 3, seed=seed + q))
    out += [dict(k="apply", si=4, mask=m, hist=h, way="config", mt="u1", ht=t, look=0, len=1, seed=seed)
            for m, h, t in ((None, "one", "i8"), ("wedge", "two", "i4"), (None, "ramp", "f4"))]
    out += [dict(k="refuse", what=w, way=y) for w in ("mask", "histogram") for y in WAYS]
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res)
    res.traces += 1


class Source:
    """Files of four uniform flow fields, and the settings of a sampler over them."""

    def __init__(self, shape, look=0, seed=0):
        self.ds = fm.Dataset("npy", [["f", 1]] * 4)
        for i, p in enumerate(self.ds.paths):
            np.save(p, np.zeros((*self.grid(shape), 2), np.float32) + np.float32(i) / 4)
        self.cfg = dict(c28.SYN, image_shape=list(shape), flow_field_size=[float(v) for v in self.grid(shape)], batch_size=2, flow_fields_per_batch=2, batches_per_flow_batch=1, seed=seed)
        if look:
            self.cfg.update(LOOK)

    def grid(self, shape):
        return (17, 21) if max(shape) < 17 else (shape[0] + 7, shape[1] + 9)

    def scheduler(self):
        return self.ds.build(loop=True)

    def build(self, way, mask=None, hist=None):
        from synthpix.sampler import SyntheticImageSampler
        import jax.numpy as jnp

        cfg = dict(self.cfg)
        if way == "array":
            s = SyntheticImageSampler.from_config(self.scheduler(), cfg)
            kw = dict(batches_per_flow_batch=1, flow_fields_per_batch=2, flow_field_size=tuple(cfg["flow_field_size"]), generation_specification=spec_of(cfg),
                      **{k: cfg[k] for k in ("resolution", "velocities_per_pixel", "seed", "max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y", "output_units",
                                             "device_ids")})
            return SyntheticImageSampler(scheduler=s.scheduler, mask_images=None if mask is None else jnp.asarray(mask),
                                         histogram=None if hist is None else jnp.asarray(hist), **kw)
        d = common.tmpdir()
        for name, v in (("mask", mask), ("histogram", hist)):
            if v is not None:
                cfg[name] = v if not isinstance(v, np.ndarray) else os.path.join(d, name + ".npy")
                if isinstance(v, np.ndarray):
                    np.save(cfg[name], v)
        if way == "config":
            s = SyntheticImageSampler.from_config(self.scheduler(), cfg)
        else:
            cfg.update(scheduler_class=".npy", file_list=list(self.ds.paths), loop=True, randomize=False)
            s = c28.make(cfg if way == "make" else c28.yaml_file(cfg))
        for n in os.listdir(d):  # what is in the files was read at construction
            os.remove(os.path.join(d, n))
        return s


def spec_of(cfg):
    from synthpix.types import ImageGenerationSpecification as Spec

    one = ("p_hide_img1", "p_hide_img2", "diameter_var", "intensity_var", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std", "batch_size")
    return Spec(**{k: tuple(cfg[k]) for k in ("image_shape", "img_offset", "seeding_density_range")}, **{k: cfg[k] for k in one},
                **{k: [tuple(r) for r in cfg[k]] for k in ("diameter_ranges", "intensity_ranges", "rho_ranges")})


def k_apply(case, res):
    shape = SHAPES[case["si"]]
    src = Source(shape, case["look"], case["seed"])
    mask = None if case["mask"] is None else masks(*shape)[case["mask"]].astype(case["mt"])
    hist = None if case["hist"] is None else hists(shape[0] * shape[1])[case["hist"]].astype(case["ht"])
    what = f"{shape}, mask {case['mask']} ({case['mt']}), histogram {case['hist']} ({case['ht']}), {case['way']}"
    bare = src.build("config")
    try:
        s = src.build(case["way"], mask, hist)
    except Exception as e:
        res.violate("refused", f"{what}: {type(e).__name__}: {str(e)[:200]}")
        return
    for k in range(case["len"] + 1):
        if k == case["len"]:
            s.reset()
            bare.reset()
        got, twin = sm.nxt(s), sm.nxt(bare)
        common.beat()
        res.evaluations += 1
        res.transitions += 1
        res.seen((case["si"], case["mask"], case["hist"], case["way"], k))
        if got[0] != "batch" or twin[0] != "batch":
            res.violate("no-batch", f"{what}: {got} at batch {k}, {twin[0]} without them")
            return
        a, b = got[1], twin[1]
        for name in ("images1", "images2"):
            x, y = np.asarray(getattr(a, name), float), np.asarray(getattr(b, name), float)
            if x.shape != (2, *shape):
                res.violate("shape", f"{what}: {name} of shape {x.shape} in batch {k}")
                return
            if mask is not None:
                y = y * mask.astype(float)
            if hist is None:
                if mask is not None and (x[:, mask == 0] != 0).any():
                    res.violate("masked", f"{what}: {name} of batch {k} are not zero where the mask is")
                    return
                # compiled differently, and rounded differently
                bad = np.abs(x - y).max() > 1e-2
            else:
                want = np.stack([ref.match_hist(v, hist.astype(np.int64)) for v in y])
                bad = (x != want).mean() > 0.03
            if bad:
                res.violate("images", f"{what}: {name} of batch {k} are not those of the same sampler without them, "
                                      f"{'masked' if mask is not None else ''} {'matched' if hist is not None else ''}")
                return
        if not np.array_equal(np.asarray(a.flow_fields), np.asarray(b.flow_fields)) or tuple(a.files or ()) != tuple(b.files or ()):
            res.violate("labels", f"{what}: labels or file names of batch {k} change")
            return
        if np.asarray(a.mask).tolist() != np.asarray(b.mask).tolist():
            res.violate("mask", f"{what}: the validity mask of batch {k} is {a.mask}, without them {b.mask}")
            return
    s.shutdown()
    bare.shutdown()


def k_refuse(case, res):
    """Every unusable mask or histogram is refused at construction."""
    shape = SHAPES[0]
    h, w = shape
    n = h * w
    src = Source(shape)
    d = common.tmpdir()
    junk = os.path.join(d, "junk.npy")
    with open(junk, "wb") as f:
        f.write(b"not an array")
    ok = np.ones(shape, np.uint8)
    ok[0] = 0
    flat = hists(n)["flat"]
    if case["what"] == "mask":
        good = ok
        arrays = [ok.T, ok[None], ok[..., None], ok.ravel(), ok[:-1], np.ones((h + 1, w)), np.ones(shape + (2,)), np.ones((h, 1)), np.ones((1, w)), np.ones(())]
        values = []
        for v in (2, -1, 0.5, 255, np.nan, 1e-3):
            m = ok.astype(float)
            m[3, 4] = v
            values.append(m)
    else:
        good = flat
        arrays = [flat[:-1], np.append(flat, 0), flat[:, None], flat[None], flat.reshape(16, 16), np.zeros(256), flat + (np.arange(256) == 7), flat - (np.arange(256) == 7),
                  flat * 2, flat / n, np.array(n), np.full(256, np.nan)]
        values = []
    bad = arrays + values if case["way"] != "array" else arrays
    if case["way"] != "array":
        bad = bad + [os.path.join(d, "none.npy"), d, junk, "", 5, [junk], good.tolist()]
    for i, v in enumerate([good] + bad):
        if isinstance(v, np.ndarray):
            v = np.asarray(v)
        res.evaluations += 1
        res.seen((case["what"], case["way"], i))
        common.beat()
        try:
            s = src.build(case["way"], **{"mask" if case["what"] == "mask" else "hist": v})
            s.shutdown()
            got = "accepted"
        except Exception as e:
            got = f"{type(e).__name__}: {str(e)[:120]}"
        if (got == "accepted") != (i == 0):
            res.violate("refuse", f"{case['what']} {np.shape(v) if isinstance(v, np.ndarray) else repr(v)[:60]} (number {i}) given by {case['way']}: {got}")
            return
