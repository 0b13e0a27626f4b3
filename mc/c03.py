"""C03: looping, resets and reproducibility of the file schedulers."""
import itertools

from . import common
from . import fsmodel as fm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real schedulers: all request/reset strings against a pass model, and "
             "lock-step product exploration of twin schedulers")
NOTE = "All request/reset strings within the bounds on real files; twins are driven in lock step and must stay equal."
RULE = "distinct = different (dataset, model state, operation, outcome) or twin streams"
BOUNDS = {
    "quick": "datasets of 1-4 files (1-3 slices, unreadable, repeated), 3 formats, loop/shuffle options, keys 0-2, "
             "batch sizes 1-4 and 7 (across several passes), resets; strings to depth 5 (shuffled 4); twins: depth 4, "
             "key dependence over keys 0-7 with 4-5 files",
    "thorough": "depth 7 (shuffled 6), keys 0-4, twins to depth 6, key dependence over keys 0-15",
}
ASSUMPTIONS = []
ASPECTS = ("stream", "form", "end")
OPS = {"quick": [1, 2, 4, 7, "R"], "thorough": [1, 2, 3, 4, 7, "R"]}
F1, BAD = ["f", 1], ["bad"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for fmt in ("npy", "mat", "h5"):
        sets = [[F1], [F1, F1], [F1, BAD], [BAD, F1], [F1, F1, F1], [F1, ["dup", 0]], [F1, F1, ["dup", 0]],
                [F1, BAD, F1], [F1, F1, F1, F1]]
        if fmt == "h5":
            sets += [[["f", 2]], [["f", 3], F1], [["f", 2], ["f", 0], F1], [["f", 2], ["dup", 0]], [F1, ["f", 2], ["f", 3]]]
        for sp in sets:
            for loop in (True, False):
                for rnd in (False, True):
                    for key in (range(5 if T else 3) if rnd else (None,)):
                        if rnd and len(sp) == 1:
                            continue
                        d = (6 if T else 4) if rnd else (7 if T else 5)
                        out.append(dict(k="pass", fmt=fmt, spec=sp, loop=loop, rnd=rnd, key=key, depth=d))
            for loop in (True, False):
                for rnd in (False, True):
                    for via in ("ctor", "config"):
                        out.append(dict(k="twin", fmt=fmt, spec=sp, loop=loop, rnd=rnd, key=3, via=via,
                                        depth=6 if T else 4))
                out.append(dict(k="reset", fmt=fmt, spec=sp, loop=loop, depth=5 if T else 4))
        for sp in ([F1, F1], [F1, BAD, F1], [F1, F1, ["dup", 0]]):
            for loop in (True, False):
                for rnd in (False, True):
                    out.append(dict(k="pass", fmt=fmt, spec=sp, loop=loop, rnd=rnd, key=1, depth=5 if T else 4, dirs=True))
        for n in (4, 5):
            for via in ("ctor", "config"):
                out.append(dict(k="keys", fmt=fmt, spec=[F1] * n, keys=16 if T else 8, via=via))
    return out


def ident(ds, got):
    if got[0] != "batch":
        return got
    d = got[1]
    return ("batch", tuple(fm.rows_of(ds, d, 0)), tuple(map(bool, d.mask)), d.files)


def run_case(case, tier, res):
    ds = fm.Dataset(case["fmt"], case["spec"], dirs=case.get("dirs", False))
    kind = case["k"]
    if kind == "pass":
        make = lambda: ds.build(randomize=case["rnd"], loop=case["loop"], key=case["key"])
        fm.explore(ds, make, fm.Pass(ds, case["rnd"], case["loop"]), OPS[tier], case["depth"], res, ASPECTS,
                   stop_after_end=2)
        return
    if kind == "keys":
        orders = {}
        for key in range(case["keys"]):
            s = ds.build(randomize=True, loop=False, key=key, from_config=case["via"] == "config")
            o = []
            for _ in range(3):  # three passes
                got = fm.call(s, len(case["spec"]))
                o.append(ident(ds, got)[1])
                s.reset()
            orders[key] = tuple(o)
            res.evaluations += 3
            res.seen((case["fmt"], o))
        for i in range(3):
            if len({o[i] for o in orders.values()}) < 2:
                res.violate("key-ignored", f"pass {i} has the same order for all of {case['keys']} keys", case=case)
                return
        return
    # twins
    if kind == "twin":
        a = fm.Rec(lambda: ds.build(randomize=case["rnd"], loop=case["loop"], key=case["key"]))
        b = fm.Rec(lambda: ds.build(randomize=case["rnd"], loop=case["loop"], key=case["key"], from_config=case["via"] == "config"))
        starts = [(a, b, ())]
        why = "two schedulers with the same files, options and key"
    else:
        # after any prefix and a reset: as a new one
        a = fm.Rec(lambda: ds.build(loop=case["loop"]))
        starts, todo = [], [(a, ())]
        while todo:
            s, h = todo.pop()
            r = fm.clone(s)
            r.reset()
            starts.append((r, fm.Rec(lambda: ds.build(loop=case["loop"])), h + ("R",)))
            if len(h) < 3:
                for op in (1, 2, 3):
                    c = fm.clone(s)
                    fm.call(c, op)
                    todo.append((c, h + (op,)))
        why = "a reset scheduler and a new one"
    seen = set()
    ops = [1, 3, "R"] if kind == "twin" else [1, 2, 5]
    stack = [(x, y, h, 0) for x, y, h in starts]
    while stack:
        x, y, h, d = stack.pop()
        res.states += 1
        if d >= case["depth"]:
            res.traces += 1
            continue
        for op in ops:
            x2, y2 = fm.clone(x), fm.clone(y)
            res.transitions += 1
            res.evaluations += 1
            common.beat()
            if op == "R":
                x2.reset()
                y2.reset()
                gx = gy = ("ok",)
            else:
                gx, gy = ident(ds, fm.call(x2, op)), ident(ds, fm.call(y2, op))
            if gx != gy:
                res.violate("differ:" + kind, f"{why} differ after {h + (op,)}: {gx} / {gy}; spec {ds.spec}", hist=h + (op,))
                return
            k = common.digest((fm.state_digest(x2), fm.state_digest(y2)))
            if k in seen and d >= 2:
                continue
            seen.add(k)
            res.seen((case["fmt"], str(case["spec"]), gx))
            stack.append((x2, y2, h + (op,), d + 1))
