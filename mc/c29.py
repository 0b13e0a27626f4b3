"""C29: computed speed ranges bound the data exactly."""
import builtins
import itertools
import os

import numpy as np

from . import common

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the places of the extremes over files, shapes and types, and of missing-entry patterns with all dialogue "
             "answers, on the real functions against exact minima and maxima")
NOTE = ("Every element of every array is, in turn, the minimum or the maximum of its component; all assignments of extremes to files, all file "
        "orders; for the dialogue all 6^4 patterns of missing, invalid, zero and other present entries with every sequence of answers.")
RULE = "distinct = different (data, file order) or (configuration, answers)"
BOUNDS = {
    "quick": "9 array shapes x every position of the four extremes (two at a time) x 4 types x 3 offsets; 1-3 files in all orders; 1296 entry patterns "
             "x 6 answer sequences; 14 refused configurations",
    "thorough": "three extremes at a time, 4 files in all orders, each pattern with 3 file sets",
}
ASSUMPTIONS = ["the data hold no NaN"]
XLA_CACHE = False

SHAPES = [(1, 1, 1, 2), (2, 2, 2, 2), (3, 2, 1, 2), (1, 3, 2, 2), (2, 1, 3, 2), (2, 2, 2, 3), (2, 3, 2), (1, 1, 2), (4, 2, 2)]
KEYS = ["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"]
ENTRY = [("absent", None), ("null", None), ("text", "1.0"), ("int", 3), ("float", -0.25), ("zero", 0.0)]
ANSWERS = [["1", "y"], ["1", "Y"], ["1", "n"], ["2"], ["3"], [""]]


def cases(tier, seed):
    T = tier == "thorough"
    out = [dict(k="one", shape=s, triple=T) for s in SHAPES]
    out += [dict(k="files", n=n) for n in range(1, 5 if T else 4)]
    out += [dict(k="panel", first=i, second=j, sets=3 if T else 1) for i in range(len(ENTRY)) for j in range(len(ENTRY))]
    out += [dict(k="refuse")]
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, res)
    res.traces += res.evaluations


def write(path, data, name="flow", more=()):
    import h5py

    with h5py.File(path, "w") as f:
        f.create_dataset(name, data=data)
        for n, d in more:
            f.create_dataset(n, data=d)


def expected(datas):
    """Of (x, y, z) velocities the in-plane ones, x and z, are those served."""
    x, y = [d[..., 0] for d in datas], [d[..., 2 if d.shape[-1] == 3 else 1] for d in datas]
    return {"min_speed_x": min(float(d.min()) for d in x), "max_speed_x": max(float(d.max()) for d in x),
            "min_speed_y": min(float(d.min()) for d in y), "max_speed_y": max(float(d.max()) for d in y)}


def compare(res, files, datas, what):
    from synthpix.sanity import calculate_min_and_max_speeds as calc

    want = expected(datas)
    res.evaluations += 1
    if res.evaluations % 50 == 0:
        common.beat()
    got = calc(list(files))
    if got != want or not all(type(v) is float for v in got.values()):
        res.violate("range", f"{what}: {got}, not {want}")
        return False
    return True


def k_one(case, res):
    """Each pair of elements holds the minimum and maximum of each component."""
    shape = case["shape"]
    d = common.tmpdir()
    p = os.path.join(d, "a.h5")
    cells = list(np.ndindex(shape[:-1]))
    pairs = list(itertools.permutations(cells, 2)) if len(cells) > 1 else [(cells[0], cells[0])]
    if case["triple"]:
        pairs = pairs + pairs[::-1]
    for i, (a, b) in enumerate(pairs):
        for off in (0.0, 50.0, -50.0):
            dt = ("f4", "f8", "i2", "f2")[i % 4]
            v = np.zeros(shape, dt) + np.asarray(off).astype(dt)
            c, e = pairs[(i * 5 + 1) % len(pairs)]
            v[a + (0,)] += np.asarray(-7.125).astype(dt)
            v[b + (0,)] += np.asarray(9.25).astype(dt)
            y = shape[-1] - 1
            v[c + (y,)] += np.asarray(-3.5).astype(dt)
            v[e + (y,)] += np.asarray(20.75).astype(dt)
            if shape[-1] == 3:
                v[..., 1] = 1000
            # the speeds are those of the first data set; further ones follow it in name
            write(p, v, more=[("other", np.full(shape, 500.0))] if i % 3 == 0 else ())
            res.seen((shape, a, b, off))
            if not compare(res, [p], [v], f"one file of shape {shape} ({dt}), extremes of x at {a}, {b}, of y at {c}, {e}, offset {off}"):
                return
    rng = np.random.default_rng(0)
    for _ in range(20):  # values that need every digit
        v = rng.normal(size=shape)
        write(p, v)
        if not compare(res, [p], [v], f"one file of shape {shape} of full-precision values {v.tolist()}"):
            return


def k_files(case, res):
    """Every assignment of the four extremes to the files, in every order of the files."""
    n = case["n"]
    d = common.tmpdir()
    files = [os.path.join(d, f"f{i}.h5") for i in range(n)]
    shapes = [(2, 2, 2, 2), (3, 2, 2), (1, 2, 3, 2), (2, 1, 1, 3)]
    for where in itertools.product(range(n), repeat=4):
        for off in (0.0, 30.0, -30.0):
            datas = []
            for i in range(n):
                v = np.full(shapes[i], off, np.float32) + i * 0.5
                v[..., 0].flat[-1] += -10 if where[0] == i else 0
                v[..., 0].flat[0] += 10 if where[1] == i else 0
                v[..., -1].flat[0] += -10.5 if where[2] == i else 0
                v[..., -1].flat[-1] += 11.25 if where[3] == i else 0
                datas.append(v)
                write(files[i], v, name=("flow", "a", "velocity", "z")[i])
            for perm in itertools.permutations(range(n)):
                res.seen((n, where, off, perm))
                if not compare(res, [files[i] for i in perm], datas, f"{n} files, extremes in {where}, offset {off}, order {perm}"):
                    return
    for rep in itertools.product(range(n), repeat=2):  # a file given twice
        if not compare(res, [files[i] for i in rep], [datas[i] for i in rep], f"files {rep}"):
            return


def panel(path, answers):
    """(outcome, value, prompts used)"""
    from synthpix.sanity import missing_speeds_panel

    it = iter(answers)
    asked = []

    def ask(*a):
        asked.append(a)
        try:
            return next(it)
        except StopIteration:
            raise AssertionError("asked more often than expected")

    old = builtins.input
    builtins.input = ask
    try:
        return "value", missing_speeds_panel(path), len(asked)
    except AssertionError as e:
        return "asked", str(e), len(asked)
    except Exception as e:
        return "error", e, len(asked)
    finally:
        builtins.input = old


def k_panel(case, res):
    import yaml
    from synthpix.utils import load_configuration

    d = common.tmpdir()
    rng = np.random.default_rng(3)
    sets = []
    for s in range(case["sets"]):
        datas = [(rng.normal(size=(2, 2, 2, 2)) * 4 + 10 * s - 5).astype(("f4", "f8")[s % 2]) for _ in range(2)]
        files = [os.path.join(d, f"s{s}_{i}.h5") for i in range(2)]
        for f, v in zip(files, datas):
            write(f, v)
        sets.append((files, expected(datas)))
    path = os.path.join(d, "c.yaml")
    for third, fourth in itertools.product(range(len(ENTRY)), repeat=2):
        entries = [ENTRY[i] for i in (case["first"], case["second"], third, fourth)]
        ok = all(isinstance(e[1], (int, float)) for e in entries)
        for s, (files, speeds) in enumerate(sets):
            config = {"seed": 1, "file_list": files, "note": "keep"}
            for i, (k, (kind, v)) in enumerate(zip(KEYS, entries)):
                if kind != "absent":
                    config[k] = v + i if kind in ("int", "float") else v
            for ans in ANSWERS if not ok else [[]]:
                with open(path, "w") as f:
                    yaml.safe_dump(config, f, sort_keys=False)
                with open(path, "rb") as f:
                    before = f.read()
                res.evaluations += 1
                res.seen((tuple(e[0] for e in entries), tuple(ans), s))
                common.beat()
                what = f"entries {dict(zip(KEYS, [e[0] for e in entries]))}, answers {ans}"
                out, val, asked = panel(path, ans)
                with open(path, "rb") as f:
                    after = f.read()
                if out == "asked":
                    res.violate("asked", f"{what}: {val}")
                    return
                if ok:
                    if out != "value" or tuple(val) != tuple(config[k] for k in KEYS) or after != before:
                        res.violate("present", f"{what}: nothing is missing, yet {out} {val!r}, file {'kept' if after == before else 'changed'}")
                        return
                    continue
                if asked != len(ans):
                    res.violate("asked", f"{what}: asked {asked} times")
                    return
                if ans[0] == "1":
                    got = dict(load_configuration(path))
                    if got != dict(config, **speeds):
                        res.violate("stored", f"{what}: the file holds {({k: got.get(k) for k in KEYS})}, not {speeds}, or other entries changed")
                        return
                    if ans[1].lower() == "y":
                        if out != "value" or tuple(val) != tuple(speeds[k] for k in KEYS):
                            res.violate("returned", f"{what}: {out} {val!r}, not {[speeds[k] for k in KEYS]}")
                            return
                        # asking again finds them in the file
                        out, val, asked = panel(path, [])
                        if out != "value" or tuple(val) != tuple(speeds[k] for k in KEYS) or asked:
                            res.violate("second", f"{what}: the next check gives {out} {val!r} after {asked} questions")
                            return
                        continue
                elif after != before:
                    res.violate("declined", f"{what}: declined, but the file changes")
                    return
                if out != "error":
                    res.violate("went-on", f"{what}: goes on with {val!r}")
                    return


def k_refuse(case, res):
    """Configurations without usable files are refused before anything is asked, computed or written."""
    import yaml
    import h5py

    d = common.tmpdir()
    good = os.path.join(d, "g.h5")
    write(good, np.zeros((2, 2, 2, 2)))
    text = os.path.join(d, "t.txt")
    open(text, "w").close()
    flat = os.path.join(d, "flat.h5")
    write(flat, np.zeros((4, 4)))
    grp = os.path.join(d, "group.h5")
    with h5py.File(grp, "w") as f:
        f.create_group("a").create_dataset("b", data=np.zeros((2, 2, 2, 2)))
    path = os.path.join(d, "c.yaml")
    speeds = dict(zip(KEYS, (1.0, 2.0, -1.0, -2.0)))
    bad = [{}, {"file_list": None}, {"file_list": []}, {"file_list": good}, {"file_list": {"a": good}}, {"file_list": [1]}, {"file_list": [good, None]},
           {"file_list": [good, os.path.join(d, "none.h5")]}, {"file_list": [d]}, {"file_list": [text]}, {"file_list": [good, text]}]
    for config in bad + [dict(b, **speeds) for b in bad]:
        with open(path, "w") as f:
            yaml.safe_dump(config, f)
        with open(path, "rb") as f:
            before = f.read()
        out, val, asked = panel(path, [])
        res.evaluations += 1
        res.seen(repr(config))
        with open(path, "rb") as f:
            after = f.read()
        if out != "error" or not isinstance(val, ValueError) or asked or after != before:
            res.violate("refuse", f"{config}: {out} {val!r} after {asked} questions")
            return
    for p in (flat, grp):  # unusable data: an error, and the file stays
        with open(path, "w") as f:
            yaml.safe_dump({"file_list": [good, p]}, f)
        with open(path, "rb") as f:
            before = f.read()
        out, val, asked = panel(path, ["1", "y"])
        res.evaluations += 1
        with open(path, "rb") as f:
            after = f.read()
        if out != "error" or after != before:
            res.violate("data", f"{os.path.basename(p)}: {out} {val!r}, file {'kept' if before == after else 'changed'}")
            return
