"""C05: recorded data is loaded faithfully and rescaled consistently."""
import itertools
import os

import numpy as np

from . import common
from . import fsmodel as fm

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of container x layout x source shape x requested shape on the real loaders, "
             "judged by an independent resampling oracle")
NOTE = "Every combination within the bounds is written to a real file, served by the real scheduler and compared elementwise."
RULE = "distinct = different (container, layout, source shape, requested shape, images) combinations served"
BOUNDS = {
    "quick": "npy/h5: every shape up to 4x3x4 (2 or 3 components); flows of 8 and images of 3 number types; files of which any cannot be read, in 5 ways; mat: v5, compressed, v7.3, (H,W,2)/(2,H,W), source shapes "
             "{2,3,4,6,8}^2 x requested shapes {2,3,5,8}^2, images of the flow's or of another size",
    "thorough": "mat: source shapes {2..9}^2 x requested shapes {2,3,4,5,8,11}^2",
}
ASSUMPTIONS = ["resampling filters are PIL's bilinear (flow) and bilinear or bicubic (images), within 2e-3 / 2 grey levels",
               "arrays inside a v7.3 file are stored in the layout in which they are to be served (no MATLAB transposition)"]


def kernel(kind, x):
    x = abs(x)
    if kind == "bilinear":
        return max(0.0, 1.0 - x)
    a = -0.5
    if x < 1:
        return ((a + 2) * x - (a + 3)) * x * x + 1
    if x < 2:
        return (((x - 5) * x + 8) * x - 4) * a
    return 0.0


def matrix(n_in, n_out, kind):
    """Rows: the weights of each output sample."""
    scale = n_in / n_out
    fs = max(scale, 1.0)
    sup = (1.0 if kind == "bilinear" else 2.0) * fs
    m = np.zeros((n_out, n_in))
    for o in range(n_out):
        c = (o + 0.5) * scale
        lo, hi = max(0, int(c - sup + 0.5)), min(n_in, int(c + sup + 0.5))
        for i in range(lo, hi):
            m[o, i] = kernel(kind, (i - c + 0.5) / fs)
        m[o] /= m[o].sum()
    return m


def resample(a, shape, kind):
    a = np.asarray(a, float)
    if a.shape == tuple(shape):
        return a
    return matrix(a.shape[0], shape[0], kind) @ a @ matrix(a.shape[1], shape[1], kind).T


def resample_int(a, shape, kind, top=255):
    """8- or 16-bit images: each pass rounds and clips (columns first, as PIL does)."""
    a = np.asarray(a, float)
    if a.shape[1] != shape[1]:
        a = np.clip(np.floor(a @ matrix(a.shape[1], shape[1], kind).T + 0.5), 0, top)
    if a.shape[0] != shape[0]:
        a = np.clip(np.floor(matrix(a.shape[0], shape[0], kind) @ a + 0.5), 0, top)
    return a


FLOW_TYPES = ("f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2")
IMAGE_TYPES = ("u1", "u2", "f4")


def same_image(got, src, shape):
    if tuple(shape) == src.shape:
        return np.array_equal(got, src)
    if src.dtype.kind == "f":
        return any(np.abs(got - resample(src, shape, k)).max() <= 0.05 for k in ("bilinear", "bicubic"))
    top = np.iinfo(src.dtype).max
    return any(np.abs(got - resample_int(src, shape, k, top)).max() <= max(2, top / 300) for k in ("bilinear", "bicubic"))


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for h, w in itertools.product((1, 2, 3, 4), (1, 2, 3, 5)):
        for dt in ("f4", "f8"):
            out.append(dict(fmt="npy", shape=[h, w], dt=dt))
    for x, y, z in itertools.product((1, 2, 4), (1, 2, 3), (1, 2, 3, 4)):
        for c in (2, 3):
            out.append(dict(fmt="h5", dims=[x, y, z], c=c))
    for fmt, rnd in itertools.product(("npy", "h5", "mat"), (False, True)):
        out.append(dict(fmt="announce", of=fmt, rnd=rnd, n=4 if T else 3))
    src = range(2, 10) if T else (2, 3, 4, 6, 8)
    req = (2, 3, 4, 5, 8, 11) if T else (2, 3, 5, 8)
    for h, w in itertools.product(src, src):
        for cont in ("5", "5c", "7.3"):
            for layout in ("hwc", "chw"):
                if layout == "chw" and w == 2:
                    continue  # (2, H, 2) is ambiguous
                i = len(out)
                for dt in ("f4",) + ((FLOW_TYPES[1 + i % 7],) if (h, w) != (3, 4) else FLOW_TYPES[1:]):
                    out.append(dict(fmt="mat", cont=cont, layout=layout, src=[h, w], dt=dt, im=IMAGE_TYPES[0 if dt == "f4" else 1 + i % 2],
                                    req=[list(r) for r in itertools.product(req, req)]))
    return out


def write_mat(path, cont, d):
    if cont == "7.3":
        import h5py

        with h5py.File(path, "w") as f:
            for k, v in d.items():
                f.create_dataset(k, data=v)
    else:
        import scipy.io

        scipy.io.savemat(path, d, do_compression=cont == "5c")


def announce(case, res):
    """The announced shape is that of the flow fields served, whichever files cannot be read."""
    hows = [["f", 1]] + [["bad", h] for h in ("garbage", "empty", "trunc", "nokey", "gone")]
    for spec in itertools.product(hows, repeat=case["n"]):
        for images in (False, True) if case["of"] != "h5" and ["bad", "nokey"] not in spec else (False,):
            ds = fm.Dataset(case["of"], [list(s) for s in spec], images)
            s = ds.build(randomize=case["rnd"], key=3 if case["rnd"] else None)
            res.evaluations += 1
            res.seen((case["of"], case["rnd"], spec, images))
            common.beat()
            try:
                ann = tuple(s.get_flow_fields_shape())
            except Exception as e:
                ann = f"{type(e).__name__}: {str(e)[:80]}"
            try:
                served = np.asarray(s.get_batch(1).flow_fields).shape[1:]
            except StopIteration:
                continue
            if ann != served:
                res.violate("announced-shape", f"{case['of']} files {[x[-1] for x in spec]}{', shuffled' if case['rnd'] else ''}: announced {ann}, served {served}")
                return
            if ["f", 1] not in spec:
                res.violate("invented", f"{case['of']} files {[x[-1] for x in spec]}: served {served}")
                return


def run_case(case, tier, res):
    from synthpix import scheduler as S

    if case["fmt"] == "announce":
        return announce(case, res)
    rng = np.random.default_rng(7)
    d = common.tmpdir()
    if case["fmt"] == "npy":
        h, w = case["shape"]
        arrs = [(rng.standard_normal((h, w, 2)) * 5).astype(case["dt"]) for _ in range(2)]
        ps = []
        for i, a in enumerate(arrs):
            ps.append(os.path.join(d, f"flow_{i}.npy"))
            np.save(ps[-1], a)
        s = S.NumpyFlowFieldScheduler(ps)
        b = s.get_batch(2)
        res.evaluations += 1
        res.seen(case)
        if not np.array_equal(np.asarray(b.flow_fields), np.stack(arrs)):
            res.violate("npy-content", f"served flow differs from the stored array, shape {h}x{w}")
        if tuple(s.get_flow_fields_shape()) != b.flow_fields.shape[1:]:
            res.violate("announced-shape", f"announced {s.get_flow_fields_shape()}, served {b.flow_fields.shape[1:]}")
        return
    if case["fmt"] == "h5":
        import h5py

        x, y, z = case["dims"]
        a = (rng.standard_normal((x, y, z, case["c"])) * 5).astype(np.float32)
        p = os.path.join(d, "a.h5")
        with h5py.File(p, "w") as f:
            f.create_dataset("data", data=a)
        s = S.HDF5FlowFieldScheduler([p])
        ann = tuple(s.get_flow_fields_shape())
        b = s.get_batch(y)
        res.evaluations += 1
        res.seen(case)
        want = np.moveaxis(a[..., ::2] if case["c"] == 3 else a, 1, 0)
        got = np.asarray(b.flow_fields)
        if ann != got.shape[1:]:
            res.violate("announced-shape", f"announced {ann}, served {got.shape[1:]} for components {case['c']}")
        elif not np.array_equal(got, want):
            res.violate("h5-content", f"served slices differ from the stored array {a.shape}")
        return
    h, w = case["src"]
    dt = np.dtype(case["dt"])
    V = rng.standard_normal((h, w, 2)) * 4 + [1.0, -2.0]
    V = (np.abs(V * 9) if dt.kind == "u" else V).astype(dt)
    for isz in ((h, w), (h + 3, w + 1)):
        it = np.dtype(case["im"])
        I = [(rng.integers(*((9000, 45000) if it == np.uint16 else (0, 256)), isz)).astype(it) for _ in range(2)]
        if it.kind == "f":
            I = [i + it.type(0.375) for i in I]
        p = os.path.join(d, f"m{isz[0]}.mat")
        write_mat(p, case["cont"], {"V": V if case["layout"] == "hwc" else V.transpose(2, 0, 1), "I0": I[0], "I1": I[1]})
        for req in case["req"]:
            for im in (False, True):
                if not im and isz != (h, w):
                    continue
                s = S.MATFlowFieldScheduler([p], include_images=im, output_shape=tuple(req))
                b = s.get_batch(1)
                res.evaluations += 1
                res.seen((case["cont"], case["layout"], case["src"], req, im, isz))
                where = f"{case['cont']} {case['layout']} {dt} source {h}x{w} (images {isz}) to {req}"
                got = np.asarray(b.flow_fields)
                if got.shape != (1, *req, 2) or tuple(s.get_flow_fields_shape()) != (*req, 2):
                    res.violate("mat-shape", f"flow {got.shape}, announced {s.get_flow_fields_shape()}: {where}")
                    return
                want = np.stack([resample(V[..., 0], req, "bilinear") * (req[1] / w),
                                 resample(V[..., 1], req, "bilinear") * (req[0] / h)], -1)
                if not np.allclose(got[0], want, rtol=1e-3, atol=2e-3):
                    res.violate("mat-flow", f"flow off by {np.abs(got[0]-want).max():.3g}: {where}")
                    return
                for name, ims, src in (("images1", b.images1, I[0]), ("images2", b.images2, I[1])):
                    if not im:
                        if ims is not None:
                            res.violate("mat-images", f"{name} delivered although not asked for: {where}")
                            return
                        continue
                    g = None if ims is None else np.asarray(ims, float)
                    if g is None or g.shape != (1, *req):
                        res.violate("mat-image-shape", f"{name} {None if g is None else g.shape}: {where}")
                        return
                    if not same_image(g[0], src, req):
                        res.violate("mat-image", f"{name} is not the resampled recording: {where}")
                        return
