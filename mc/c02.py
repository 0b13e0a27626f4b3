"""C02: every batch has the requested size, correct padding, mask and file names."""
import itertools

from . import fsmodel as fm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real schedulers over tiny real files with images: all request strings, "
             "every row compared with the recorded data")
NOTE = "Every request string over every small dataset (with and without images) is executed on the real classes; all rows are compared."
RULE = "distinct = different (dataset, model state, operation, outcome)"
BOUNDS = {
    "quick": "datasets of 1-3 readable/unreadable/repeated files (h5: 0-3 slices), 3 formats, with/without recorded images, "
             "looping or not, batch sizes 1-3, 5 and 8, resets, strings to depth 4 (shuffled: 3)",
    "thorough": "datasets of 1-4 entries, batch sizes 1-5, 8 and 11, depth 6 (shuffled: 5)",
}
ASSUMPTIONS = ["images are compared with what PIL decodes from the same JPEG file"]
ASPECTS = ("form",)
OPS = {"quick": [1, 2, 3, 5, 8, "R"], "thorough": [1, 2, 3, 4, 5, 8, 11, "R"]}


def specs(fmt, T):
    kinds = [["f", 1], ["bad"]] + ([["f", 3], ["f", 0]] if fmt == "h5" else [])
    for n in range(1, 5 if T else 4):
        ks = kinds + [["dup", j] for j in range(min(n - 1, 1))]
        for c in itertools.product(ks, repeat=n):
            if any(k[0] == "bad" or k == ["f", 0] for k in c[2:]):
                continue
            if all(k[0] != "dup" or (k[1] < i and c[k[1]][0] == "f") for i, k in enumerate(c)):
                yield list(c)


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for fmt in ("npy", "mat", "h5"):
        # files of the same name in several directories, also as links to files elsewhere
        f = ["f", 3] if fmt == "h5" else ["f", 1]
        for sp in ([f, f], [f, f, f], [f, ["bad", "gone"], f], [f, f, ["dup", 0]], [f, ["dup", 0], f]):
            for images in ((False, True) if fmt != "h5" else (False,)):
                for dirs in (True, "link"):
                    out.append(dict(fmt=fmt, spec=sp, images=images, loop=len(sp) == 2, rnd=False, depth=6 if T else 4, dirs=dirs))
        for sp in specs(fmt, T):
            for images in ((False, True) if fmt != "h5" else (False,)):
                for loop in (False, True):
                    if loop and not any(k[0] == "f" and k[1] for k in sp):
                        continue
                    out.append(dict(fmt=fmt, spec=sp, images=images, loop=loop, rnd=False, depth=6 if T else 4))
                    if len(sp) == 3 and fmt != "h5":
                        out.append(dict(fmt=fmt, spec=sp, images=images, loop=loop, rnd=True, key=seed,
                                        depth=4 if T else 3))
    return out


def run_case(case, tier, res):
    ds = fm.Dataset(case["fmt"], case["spec"], images=case["images"], dirs=case.get("dirs", False))
    make = lambda: ds.build(randomize=case["rnd"], loop=case["loop"], key=case.get("key"))
    fm.explore(ds, make, fm.Pass(ds, case["rnd"], case["loop"]), OPS[tier], case["depth"], res, ASPECTS,
               stop_after_end=2)
    res.sample({"case": case, "states": res.states})
