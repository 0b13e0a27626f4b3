"""C01: a non-looping pass serves every readable slice exactly once, in order."""
import itertools

from . import fsmodel as fm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real schedulers over tiny real files: all operation strings, "
             "states deduplicated, against a reference model of a pass")
NOTE = "Every request string over every small dataset is executed on the real classes with real files."
RULE = "distinct = different (dataset, model state, operation, outcome)"
BOUNDS = {
    "quick": "datasets of 1-3 entries over {0-9 slices, unreadable in 6 ways, repeated, of one name in several directories}, 3 formats, batch sizes 1-3 and 5, resets, "
             "all strings to depth 6 (shuffled: 5, keys 0-1)",
    "thorough": "datasets of 1-4 entries, batch sizes 1-4 and 7, depth 9 (shuffled: 7, keys 0-3)",
}
ASSUMPTIONS = ["a file that fails to load fails at every attempt"]
ASPECTS = ("stream", "end")
OPS = {"quick": [1, 2, 3, 5, "R"], "thorough": [1, 2, 3, 4, 7, "R"]}


def specs(fmt, T):
    kinds = [["f", 1], ["bad"]] + ([["f", 2], ["f", 3], ["f", 0]] if fmt == "h5" else [])
    for n in range(1, 5 if T and fmt != "h5" else 4):
        ks = kinds + [["dup", j] for j in range(n - 1)]
        for c in itertools.product(ks, repeat=n):
            if all(k[0] != "dup" or (k[1] < i and c[k[1]][0] == "f") for i, k in enumerate(c)):
                yield list(c)


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    # files of more slices than the fields have rows, columns or components
    for sp in ([["f", 4]], [["f", 5]], [["f", 8]], [["f", 7], ["f", 1]], [["f", 1], ["f", 6]], [["f", 4], ["dup", 0]],
               [["f", 9], ["bad"], ["f", 4]]):
        out.append(dict(fmt="h5", spec=sp, rnd=False, depth=8 if T else 6))
    for fmt in ("npy", "mat", "h5"):
        # files of the same name in several directories, and every way of being unreadable
        f = ["f", 2] if fmt == "h5" else ["f", 1]
        for images in ((False, True) if fmt == "npy" else (False,)):
            for how in ("empty", "trunc", "nokey", "gone") + (("img",) if images else ()):
                b = ["bad", how]
                for sp in ([b], [b, f], [f, b], [f, b, f], [b, f, b], [f, b, ["dup", 0]]):
                    out.append(dict(fmt=fmt, spec=sp, rnd=False, depth=6 if T else 4, dirs=True, images=images))
            for sp in ([f, f], [f, f, f], [f, ["bad"], f], [f, f, ["dup", 0]], [f, ["dup", 0], f]):
                for rnd in (False, True):
                    out.append(dict(fmt=fmt, spec=sp, rnd=rnd, key=0, depth=7 if T else 4, dirs=True, images=images))
        for sp in specs(fmt, T):
            out.append(dict(fmt=fmt, spec=sp, rnd=False, depth=9 if T else 6))
            if len(sp) > 1 and (T or fmt != "h5" or len(sp) == 2 or ["f", 0] not in sp):
                for k in range(4 if T else 2):
                    out.append(dict(fmt=fmt, spec=sp, rnd=True, key=k, depth=7 if T else 4))
    return out


def run_case(case, tier, res):
    ds = fm.Dataset(case["fmt"], case["spec"], images=case.get("images", False), dirs=case.get("dirs", False))
    make = lambda: ds.build(randomize=case["rnd"], key=case.get("key"))
    fm.explore(ds, make, fm.Pass(ds, case["rnd"], False), OPS[tier], case["depth"], res, ASPECTS,
               keep=2)
    res.sample({"case": case, "states": res.states})
