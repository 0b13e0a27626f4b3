"""C06: directories stand for their data files; bad inputs are refused at construction."""
import itertools
import os

import numpy as np

from . import common
from . import fsmodel as fm

LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of directory names, directory contents and input lists on the real constructors, against a listing model"
NOTE = "Every combination within the bounds is laid out on disk and handed to the real classes."
RULE = "distinct = different (format, directory name, content, list form)"
BOUNDS = {
    "quick": "3 formats, 15 directory names (glob characters, spaces, dots, unicode), every content of up to 3 of 7 names, "
             "lists of <=3 directories/files in every order; MATLAB directory trees with files in up to 3 of 7 places; every refusal rule x format x position",
    "thorough": "as quick, lists of <=4 entries",
}
ASSUMPTIONS = ["NumPy and HDF5 files: only those directly inside the directory are considered"]

DIRS = ["plain", "run[1]", "a*b", "w?t", "[!x]", "sp ace", ".hidden", "d.npy", "d.h5", "d.mat", "flow_9.npy",
        "ünï", "[", "]x[", "{a,b}"]
NAMES = {
    "npy": ["flow_1.npy", "flow_10.npy", "flow_2.npy", "flow_é [1]-.npy", "other.npy", "flow_3.txt", "img_0.jpg"],
    "h5": ["a.h5", "b10.h5", "b2.h5", "Z.h5", "a é [1]-.h5", "c.hdf", "a.h5.bak"],
    "mat": ["a.mat", "b10.mat", "b2.mat", "Z.mat", "a é [1]-.mat", "c.npy", "a.mat~"],
}
DATA = {"npy": ["flow_1.npy", "flow_10.npy", "flow_2.npy", "flow_é [1]-.npy"], "h5": ["a.h5", "b10.h5", "b2.h5", "Z.h5", "a é [1]-.h5"],
        "mat": ["a.mat", "b10.mat", "b2.mat", "Z.mat", "a é [1]-.mat"]}


def cases(tier, seed):
    out = []
    for fmt in ("npy", "h5", "mat"):
        for d in DIRS:
            out.append(dict(k="dir", fmt=fmt, dir=d))
        for n in range(1, 5 if tier == "thorough" else 4):
            out.append(dict(k="mix", fmt=fmt, n=n))
        out.append(dict(k="refuse", fmt=fmt))
    out += [dict(k="tree", dir=d) for d in DIRS]
    return out


def put(fmt, path, tag):
    fm.write(fmt, path, tag, 1)


def stream(s, limit=12):
    tags, files = [], []
    for _ in range(limit):
        try:
            b = s.get_batch(1)
        except StopIteration:
            return tags, files
        tags.append(round(float(np.asarray(b.flow_fields).flat[0])))
        files.append(b.files[0])
    return tags, files


def build(fmt, fl, **kw):
    from synthpix import scheduler as S

    cls = {"npy": S.NumpyFlowFieldScheduler, "h5": S.HDF5FlowFieldScheduler, "mat": S.MATFlowFieldScheduler}[fmt]
    if fmt == "mat":
        kw.setdefault("output_shape", (fm.H, fm.W))
    return cls(fl, **kw)


def populate(fmt, d, names):
    os.makedirs(d)
    tag = 1
    tags = {}
    for n in names:
        p = os.path.join(d, n)
        if n in DATA[fmt]:
            put(fmt, p, tag)
            tags[p] = tag
        elif n.endswith(".npy"):
            np.save(p, np.zeros((2, 3, 2), np.float32))
        else:
            open(p, "w").write("x")
        tag += 1
    return tags


PLACES = ["a.mat", "s/b.mat", "s/a.mat", "s/t/a.mat", "s t/[1].mat", "z.mat", "s.mat/q.mat"]


def tree(case, res):
    """MATLAB files are searched in subdirectories too."""
    for r in (1, 2, 3):
        for places in itertools.combinations(PLACES, r):
            d = os.path.join(common.tmpdir(), case["dir"])
            tags = {}
            for i, q in enumerate(places):
                p = os.path.join(d, q)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                put("mat", p, i + 1)
                tags[p] = i + 1
            os.makedirs(os.path.join(d, "u", "v"))
            want = sorted(tags)
            res.evaluations += 1
            res.seen((case["dir"], places))
            try:
                got = stream(build("mat", [d]))
            except ValueError as e:
                res.violate("tree-refused", f"directory {case['dir']!r} holding {places} refused: {e}")
                return
            if got[0] != [tags[p] for p in want]:
                res.violate("tree-content", f"directory {case['dir']!r} holding {places} serves {got[1]}, expected {want}")
                return


def run_case(case, tier, res):
    if case["k"] == "tree":
        return tree(case, res)
    root = common.tmpdir()
    fmt = case["fmt"]
    if case["k"] == "dir":
        for r in range(0, 4):
            for names in itertools.permutations(NAMES[fmt], r) if r < 3 else itertools.combinations(NAMES[fmt], r):
                base = common.tmpdir()
                # a sibling the directory name would also match as a pattern
                for sib in ("runX", "run1", "aXb", "wit", "x", "a"):
                    os.makedirs(os.path.join(base, sib))
                    put(fmt, os.path.join(base, sib, DATA[fmt][0]), 77)
                d = os.path.join(base, case["dir"])
                inner = {"npy": "flow_0.npy", "h5": "inner.h5", "mat": "inner.mat"}[fmt]
                tags = populate(fmt, d, names)
                if len(names) == 2:
                    os.makedirs(os.path.join(d, inner))  # a directory, not a data file
                want = sorted(tags)
                res.evaluations += 1
                res.seen((fmt, case["dir"], names))
                where = f"directory {case['dir']!r} holding {names}"
                for form in (d, d + os.sep):
                    try:
                        got = stream(build(fmt, [form]))
                    except ValueError as e:
                        if want:
                            res.violate("dir-refused", f"{where} refused: {e}")
                            return
                        continue
                    if not want:
                        res.violate("empty-accepted", f"{where} accepted although it holds no data file")
                        return
                    if got[0] != [tags[p] for p in want]:
                        res.violate("dir-content", f"{where} serves {got[1]}, expected {want}")
                        return
                    if [os.path.normpath(f) for f in got[1]] != want:
                        res.violate("dir-names", f"{where} names {got[1]}, expected {want}")
                        return
        return
    if case["k"] == "mix":
        d1, d2, f1, f2 = (os.path.join(root, x) for x in ("d1", "d[2]", "z" + DATA[fmt][0], "y"))
        t = {}
        ext = {"npy": ".npy", "h5": ".h5", "mat": ".mat"}[fmt]
        os.makedirs(os.path.join(root, "zf"))
        f1 = os.path.join(root, "zf", "flow_5" + ext)
        f2 = os.path.join(root, "zf", "flow_0" + ext)
        for i, p in enumerate((f1, f2)):
            put(fmt, p, 50 + i)
            t[p] = [50 + i]
        for j, d in enumerate((d1, d2)):
            os.makedirs(d)
            ns = DATA[fmt][1:3] + DATA[fmt][:1]
            tg = {}
            for i, n in enumerate(ns):
                put(fmt, os.path.join(d, n), 10 * (j + 1) + i)
                tg[n] = 10 * (j + 1) + i
            t[d] = [tg[n] for n in sorted(ns)]
        for fl in itertools.product((d1, d2, f1, f2), repeat=case["n"]):
            got = stream(build(fmt, list(fl)), 20)[0]
            want = sum((t[x] for x in fl), [])
            res.evaluations += 1
            res.seen((fmt, tuple(os.path.basename(x) for x in fl)))
            if got != want:
                res.violate("list-order", f"list {[os.path.basename(x) for x in fl]} serves {got}, expected {want}")
                return
        return
    # refusals
    ext = {"npy": ".npy", "h5": ".h5", "mat": ".mat"}[fmt]
    good = []
    for i in (1, 2, 3):
        p = os.path.join(root, f"flow_{i}{ext}")
        fm.write(fmt, p, i, 1, images=fmt != "h5")
        good.append(p)
    missing = os.path.join(root, "flow_77" + ext)
    others = []
    for e in (".npy", ".h5", ".mat", ".txt", "", ext.upper() + "x", ".jpg"):
        if e == ext:
            continue
        p = os.path.join(root, "alien" + e)
        open(p, "w").write("x")
        others.append(p)
    empty = os.path.join(root, "emptydir")
    os.makedirs(empty)
    lists = [("empty list", []), ("None", None), ("a string", good[0]), ("a tuple", tuple(good)), ("an empty directory", [empty]),
             ("a dict", {good[0]: 1})]
    for pos in range(3):
        for why, bad in [("missing file", missing)] + [("other format " + os.path.basename(o), o) for o in others] + \
                [("number", 3), ("None entry", None), ("bytes", good[0].encode())]:
            lists.append((f"{why} at {pos}", good[:pos] + [bad] + good[pos:2]))
    for im in ((False, True) if fmt != "h5" else (False,)):
        kw = {"include_images": True} if im else {}
        try:
            build(fmt, list(good), **kw)
        except Exception as e:
            res.violate("good-refused", f"a good list was refused: {e!r}")
            return
        for why, fl in lists:
            res.evaluations += 1
            res.seen((fmt, why, im))
            try:
                build(fmt, fl, **kw)
            except (ValueError, FileNotFoundError, TypeError):
                continue
            except Exception as e:
                res.violate("refusal-type", f"{why}: refused with {e!r}")
                return
            res.violate("accepted", f"{fmt} scheduler accepted {why} (images {im})")
            return
    if fmt == "npy":
        for t, gone in itertools.product((1, 2, 3), (0, 1)):
            for as_dir in (False, True):
                r2 = common.tmpdir()
                fl = []
                for i in (1, 2, 3):
                    p = os.path.join(r2, f"flow_{i}.npy")
                    fm.write("npy", p, i, 1, images=True)
                    fl.append(p)
                os.remove(os.path.join(r2, f"img_{t - gone}.jpg"))
                res.evaluations += 1
                res.seen(("missing image", t, gone, as_dir))
                try:
                    build("npy", [r2] if as_dir else fl, include_images=True)
                except (ValueError, FileNotFoundError):
                    pass
                else:
                    res.violate("missing-image", f"img_{t - gone}.jpg missing, but the list was accepted")
                    return
                build("npy", fl)  # not needed without images
