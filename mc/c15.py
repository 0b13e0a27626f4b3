"""C15: each synthetic sample is paired with the flow field it was generated from."""
import itertools

import numpy as np

from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real sampler over model sources (all next/reset strings to a depth); the "
             "flow field of every image pair is identified by exact single-particle measurement")
NOTE = ("Every next/reset history within the bounds is executed on the real sampler; label, motion, mask and names of "
        "every row are compared with the group model, and the number of groups drawn with the model's.")
RULE = "distinct = different (configuration, model state, group delivered) observations"
BOUNDS = {
    "quick": "1-4 flow fields per batch, batch sizes up to 9 (divisible and not), 1-3 batches per group, sources of 1, 3 or "
             "unboundedly many groups, full or short last group, with or without masks/names; operation strings to depth 9",
    "thorough": "more combinations (up to 5 flow fields, batch size 12, 4 batches per group), depth 14",
}
ASSUMPTIONS = ["one device (see C32 for several)", "rows whose only particle is near the border are not measured"]
XLA_CACHE = True


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    pairs = [(1, 1), (1, 3), (2, 2), (2, 5), (3, 4), (4, 9)] + ([(5, 12), (3, 3), (2, 8), (4, 4)] if T else [])
    for (n, b), bpfb in itertools.product(pairs, (1, 2, 3) + ((4,) if T else ())):
        for groups, short in ((3, None), (3, max(1, n - 1)), (None, None), (1, None)):
            if short and n == 1:
                continue
            extra = groups == 3 and not short
            for masks, names in (((True, True), (False, True), (True, False)) if extra else ((True, True),)):
                out.append(dict(n=n, b=b, bpfb=bpfb, groups=groups, short=short, masks=masks, names=names,
                                units="pixels" if (n + b + bpfb) % 2 else "measure units per second",
                                seed=(n + 3 * b + bpfb) % 5, depth=14 if T else 9))
    return out


def run_case(case, tier, res):
    n, b = case["n"], case["b"]
    src = sm.Src(case["groups"], short=case["short"], masks=case["masks"], names=case["names"])
    dt, rs = 0.5, 2.0
    s = sm.build(src, bpfb=case["bpfb"], n=n, size=(24.0, 26.0), res=rs, seed=case["seed"], units=case["units"], sp=3.0,
                 spec=dict(batch_size=b, dt=dt))
    f = rs * dt if case["units"] == "pixels" else 1.0
    measured = [0]

    def judge(s2, got, want, m, h):
        res.seen((n, b, case["bpfb"], case["groups"], m.key(), want, got[0]))
        if want is None:
            return None if got[0] != "batch" else ("after-end", "a batch was delivered although the source had ended")
        if got[0] != "batch":
            return ("missing", f"{got} instead of a batch of group {want}")
        bt = got[1]
        g = sm.group(src, want, n)
        if len(bt.images1) != b or len(bt.images2) != b or len(bt.flow_fields) != b:
            return ("size", f"{len(bt.images1)} / {len(bt.images2)} images and {len(bt.flow_fields)} labels for batch size {b}")
        lab = np.asarray(bt.flow_fields, float)
        for i in range(b):
            w = g["flow_fields"][i % n][0, 0].astype(float)
            if not np.allclose(lab[i], w * f, atol=1e-4):
                return ("label", f"label of row {i} is {lab[i].mean((0, 1)) / f}, flow field {i % n} of group {want} is {w}")
        for i, mv in enumerate(sm.motions(bt)):
            w = g["flow_fields"][i % n][0, 0].astype(float) * rs * dt
            if mv is None:
                continue
            measured[0] += 1
            if not np.allclose(mv, w, atol=2e-3):
                return ("pairing", f"the particle of row {i} moved by {mv}, its flow field says {w} (group {want})")
        for name, have, due in (("mask", bt.mask, g["mask"]), ("files", bt.files, g["files"])):
            if due is None:
                ok = have is None
            else:
                ok = have is not None and list(np.asarray(have)) == list(due)
            if not ok:
                return (name, f"{name} {have} delivered, those of the flow fields in use are {due}")
        if s2.scheduler.pos != m.pos:
            return ("draws", f"{s2.scheduler.pos} groups drawn since the source was reset, {m.pos} due")
        if set(s2.scheduler.sizes) - {n}:
            return ("draw-size", f"groups of {set(s2.scheduler.sizes)} flow fields drawn instead of {n}")
        return None

    if src.drawn:
        res.violate("draws", f"{src.drawn} groups drawn at construction")
        return
    sm.explore(s, sm.Groups(src, case["bpfb"]), ("n", "R", "r"), case["depth"], judge, res)
    res.add("rows_measured", measured[0])
    res.sample(dict(case=case, measured=measured[0], states=res.states))
