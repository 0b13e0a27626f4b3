"""C32: the number of devices changes throughput, not meaning."""
import itertools

import numpy as np

from . import common
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of device selections, batch sizes and flow-field counts on the real sampler over virtual devices; "
             "exact single-particle measurement of every row, and lock-step comparison of the draws with the one-device model")
NOTE = ("Every configuration is run over several groups of flow fields with resets; each row's motion is compared with its own label, its "
        "label with the flow fields drawn, and all images of a run with each other.")
RULE = "distinct = different (device selection, batch size, flow-field count, batches per group, position) batches"
BOUNDS = {
    "quick": "4 virtual devices, 11 selections of 1-4 of them (any order, invalid ones mixed in, default); batch sizes 1-9; flow-field counts "
             "1-8 below them; 1-2 batches per group; 5 batches and a reset each; 10 invalid selections",
    "thorough": "batch sizes to 12, every flow-field count, 12 batches each; image masks, histograms and episodes included",
}
ASSUMPTIONS = ["devices are virtual ones of the CPU backend"]
DEVICES = 4
XLA_CACHE = True
CASE_LIMIT = {"quick": 120, "thorough": 300}

SEL = [[0], [2], [0, 1], [1, 0], [3, 1], [0, 1, 2], [0, 1, 2, 3], [3, 2, 1, 0], None, [0, 4], [9, 1, 2]]


def valid(ids):
    return list(range(4)) if ids is None else [i for i in ids if 0 <= i < 4]


def cases(tier, seed):
    T = tier == "thorough"
    out, k = [], 0
    for si, ids in enumerate(SEL):
        pairs = [(b, n) for b in range(1, 13 if T else 10) for n in range(1, b + 1)]
        if not T:  # each selection takes its own share, those with several devices a larger one
            step = 9 if len(valid(ids)) == 1 else 5
            pairs = [p for j, p in enumerate(pairs) if (j + 2 * si) % step == 0] + ([(4, 3), (6, 2)] if si in (2, 6) else [])
        for b, n in pairs:
            out.append(dict(k="run", ids=ids, b=b, n=n, bpfb=1 + k % 2, len=12 if T else 5, seed=k % 5, groups=(None, 3)[k % 3 == 0], short=k % 6 == 0 and n > 1))
            k += 1
    for ids in [[0], [1, 0], [0, 1, 2, 3], None] if T else [[0, 1, 2, 3], [2, 0]]:
        out += [dict(k="extra", ids=ids, what=w) for w in ("mask", "hist", "episodic", "noise")]
    out.append(dict(k="refused"))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res)
    res.traces += 1


def k_run(case, res):
    ids, b, n = case["ids"], case["b"], case["n"]
    nd = len(valid(ids))
    full = -(-b // nd) * nd
    src = sm.Src(case["groups"], short=n - 1 if case["short"] else None)
    dt, rs = 0.5, 2.0
    what = f"devices {ids}, batch size {b}, {n} flow fields per batch"
    s = sm.build(src, bpfb=case["bpfb"], n=n, size=(24.0, 26.0), res=rs, seed=case["seed"], sp=3.0, device_ids=ids, spec=dict(batch_size=b, dt=dt))
    if s.batch_size != full:
        res.violate("batch-size", f"{what}: the sampler reports a batch size of {s.batch_size}, not {full}")
        return
    m = sm.Groups(src, case["bpfb"])
    kept, images = {}, {}
    for r in range(2):
        if r:
            s.reset()
            m.reset(True)
        for k in range(case["len"]):
            want = m.next()
            got = sm.nxt(s)
            common.beat()
            res.evaluations += 1
            res.seen((ids, b, n, case["bpfb"], k))
            if want is None:
                if got[0] != "end":
                    res.violate("after-end", f"{what}: {str(got)[:200]} after the end of the data")
                    return
                break
            if got[0] != "batch":
                res.violate("missing", f"{what}: {str(got)[:300]} instead of batch {k} (group {want})")
                return
            bt, g = got[1], sm.group(src, want, n)
            p = bt.params
            sizes = [len(x) for x in (bt.images1, bt.images2, bt.flow_fields, p.seeding_densities, p.diameter_ranges, p.intensity_ranges, p.rho_ranges)]
            if set(sizes) != {full}:
                res.violate("batch-size", f"{what}: images, labels and parameters have {sizes} rows instead of {full}")
                return
            flows = g["flow_fields"][:, 0, 0].astype(float) * rs * dt
            lab = np.asarray(bt.flow_fields, float)
            used = set()
            for i, mv in enumerate(sm.motions(bt)):
                f = [j for j in range(n) if np.allclose(lab[i], flows[j], atol=1e-4)]
                if not f:
                    res.violate("label", f"{what}: the label of row {i}, {lab[i].mean((0, 1))}, is none of the flow fields drawn {flows.tolist()}")
                    return
                used |= set(f)
                if mv is not None and not np.allclose(mv, lab[i][0, 0], atol=3e-3):
                    res.violate("motion", f"{what}: the particle of row {i} moved by {mv}, its label says {lab[i][0, 0]}")
                    return
                im = np.asarray(bt.images1[i])
                if r == 0 and sm.locate(im):  # particles next to the border are moved onto it
                    d = common.digest(im.tobytes())
                    if d in images:
                        res.violate("repeated", f"{what}: row {i} of batch {k} and row {images[d][1]} of batch {images[d][0]} have the same random image")
                        return
                    images[d] = (k, i)
            if used != set(range(n)):
                res.violate("unused", f"{what}: of the {n} flow fields drawn only {sorted(used)} are used by the {full} rows")
                return
            for name, have, due in (("mask", bt.mask, g["mask"]), ("files", bt.files, g["files"])):
                if have is None or list(np.asarray(have)) != list(due):
                    res.violate(name, f"{what}: {name} {have} delivered, those of the flow fields in use are {due}")
                    return
            if src.pos != m.pos or set(src.sizes) - {n}:
                res.violate("draws", f"{what}: {src.pos} groups drawn of sizes {set(src.sizes)}, due are {m.pos} of {n}")
                return
            d = common.digest(np.asarray(bt.images1).tobytes() + np.asarray(bt.images2).tobytes() + lab.tobytes())
            if r and case["groups"] is not None and kept[k] != d:
                res.violate("repeat", f"{what}: batch {k} differs after a reset")
                return
            kept[k] = d
    res.states += len(images)
    res.sample(dict(case=case, images=len(images)))


class Episodic(sm.Src):
    episode_length = 3

    def get_batch(self, n):
        self.left = getattr(self, "left", 3)
        self.left -= 1
        return super().get_batch(n)

    def steps_remaining(self):
        return getattr(self, "left", 3)

    def next_episode(self):
        self.left = 3


def k_extra(case, res):
    import jax.numpy as jnp

    ids, w = case["ids"], case["what"]
    nd = len(valid(ids))
    kw, spec = {}, dict(batch_size=2 * nd, image_shape=(40, 44))
    m = np.ones((40, 44), np.float32)
    m[:, 7:19] = 0
    if w == "mask":
        kw["mask_images"] = jnp.array(m)
    if w == "hist":
        kw["histogram"] = jnp.array(np.bincount(np.arange(40 * 44) % 200, minlength=256))
    if w == "noise":
        spec.update(noise_uniform=20.0, noise_gaussian_mean=5.0, noise_gaussian_std=2.0)
    src = (Episodic if w == "episodic" else sm.Src)(None)
    s = sm.build(src, n=nd, device_ids=ids, spec=spec, **kw)
    for k in range(3):
        got = sm.nxt(s)
        res.evaluations += 1
        res.seen((ids, w, k))
        if got[0] != "batch":
            res.violate("missing", f"devices {ids}, {w}: {got}")
            return
        b = got[1]
        a, c = np.asarray(b.images1), np.asarray(b.images2)
        if w == "mask" and (a[:, m == 0].any() or c[:, m == 0].any() or not all(x.any() for x in a.reshape(nd, -1))):
            res.violate("mask", f"devices {ids}: the image mask is not in force on every device")
            return
        if w == "hist":
            want = np.bincount(np.arange(40 * 44) % 200, minlength=256)
            for x in (*a, *c):
                if abs(np.bincount(np.round(x).astype(int).ravel(), minlength=256)[1:].sum() - want[1:].sum()) > 40 * 44 or x.max() < 190:
                    res.violate("hist", f"devices {ids}: the histogram is not matched on every device")
                    return
        if w == "episodic":
            if b.done is None or b.done.shape != (2 * nd,) or bool(b.done.any()) != (k == 2) or bool(b.done.all()) != (k == 2):
                res.violate("done", f"devices {ids}: done is {b.done} at step {k} of 3")
                return
        if w == "noise":
            flat = a.reshape(2 * nd, -1)
            for i, j in itertools.combinations(range(2 * nd), 2):
                if np.corrcoef(flat[i], flat[j])[0, 1] > 0.5:
                    res.violate("noise", f"devices {ids}: rows {i} and {j} carry the same noise")
                    return


def k_refused(case, res):
    """A selection without any device is refused; one that is accepted also works."""
    for ids, must in [([], True), ([4], True), ([7, 9], True), ([0, 0], None), ([1, 1, 2], None), ([-1], None), ([-9], None), ([0, -1], None), ([3, 3, 3, 3], None),
                      ([0, -4], None)]:
        res.evaluations += 1
        res.seen(ids)
        src = sm.Src(None)
        try:
            s = sm.build(src, n=2, device_ids=ids, spec=dict(batch_size=4))
        except (ValueError, IndexError):
            continue
        except Exception as e:
            res.violate("error", f"devices {ids}: {e!r}")
            return
        if must:
            res.violate("accepted", f"devices {ids}: accepted although none of them exists")
            return
        got = sm.nxt(s)
        if got[0] != "batch" or len(got[1].images1) != s.batch_size or s.batch_size < 4:
            res.violate("unusable", f"devices {ids} are accepted, but {str(got)[:200]} (batch size {s.batch_size})")
            return
