"""C30: generation settings are validated on creation and on every update."""
import copy
import dataclasses
import itertools
import math

from . import common

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of field values (every admissible and inadmissible class, boundaries included), field pairs and update "
             "sequences on the real class against a dictionary model")
NOTE = ("Every field is created and updated with every value of its alphabet, alone, in all pairs of fields, and in all update sequences "
        "up to a depth; after every step the old objects are compared with what they were.")
RULE = "distinct = different sequences of assignments"
BOUNDS = {
    "quick": "16 fields, 3-9 admissible and 3-14 inadmissible values each; all pairs of (field, value) with at most one inadmissible, at creation "
             "and as one update; all update sequences of length 3 over 2 values per field",
    "thorough": "all pairs with any mix, update sequences of length 3 over 4 values per field and of length 4 over 1",
}
ASSUMPTIONS = ["values of types the documentation does not mention (booleans, NumPy scalars) are not decided"]

nan, inf = math.nan, math.inf
BADNUM = [-1, -0.5, nan, "1", None, -inf]
BADRANGES = [[], [(2, 1)], [(1,)], [(1, 2, 3)], [[1, 2]], ((1, 2),), (1, 2), None, 5, [(1, 2), (3, 2)], [(1, 2), [1, 2]], [(nan, 1)], [(1, nan)]]
GOOD = dict(
    batch_size=[1, 7, 300], image_shape=[(1, 1), (3, 500), (256, 256)], img_offset=[(0, 0), (3, 0), (0, 128)],
    seeding_density_range=[(0, 0), (0.01, 0.02), (0.5, 0.5), (0, 3)], p_hide_img1=[0, 1, 0.0, 1.0, 0.25], p_hide_img2=[1, 0, 0.75, 1.0],
    diameter_ranges=[[(0.1, 1.0)], [(1, 1)], [(1e-3, 2), (3, 4.5), (1, 1)]], diameter_var=[0, 0.0, 2.5, 10],
    intensity_ranges=[[(50, 200)], [(1, 1)], [(0.5, 2), (255, 300)]], intensity_var=[0, 0.0, 1.5, 400],
    rho_ranges=[[(-0.99, 0.99)], [(0, 0)], [(-0.5, -0.5), (0.1, 0.2)]], rho_var=[0, 0.0, 0.125, 3], dt=[1, 0.5, 1e-6, 10.0],
    noise_uniform=[0, 0.0, 5, 2.5], noise_gaussian_mean=[0, 0.0, 3, 1.5], noise_gaussian_std=[0, 0.0, 4, 0.5])
BAD = dict(
    batch_size=[0, -1, 1.5, 2.0, "3", None, nan], image_shape=[(0, 5), (5, 0), (-1, 5), (5,), (5, 5, 5), [5, 5], (5.0, 5), (5, 5.0), None, 5, ("5", 5)],
    img_offset=[(-1, 0), (0, -1), (0,), (0, 0, 0), [0, 0], None, 3, ("0", 0), (nan, 0), (0, nan)],
    seeding_density_range=[(0.2, 0.1), (-0.1, 0.1), (0.1,), (0.1, 0.2, 0.3), [0.1, 0.2], None, 0.1, ("0", 1), (nan, 1), (0, nan)],
    p_hide_img1=[-0.1, 1.1, nan, -1, 2, inf], p_hide_img2=[-0.1, 1.1, nan, -1, 2, -inf],
    diameter_ranges=BADRANGES + [[(0, 1)], [(-1, 1)], [(1, 2), (0, 2)]], intensity_ranges=BADRANGES + [[(0, 1)], [(-1, 1)]],
    rho_ranges=[r for r in BADRANGES] + [[(-1, 0)], [(0, 1)], [(0, 0), (0.5, 0.4)], [(-1.5, 0)], [(0, 1.5)]],
    diameter_var=BADNUM, intensity_var=BADNUM, rho_var=BADNUM, dt=[0, 0.0] + BADNUM, noise_uniform=BADNUM, noise_gaussian_mean=BADNUM,
    noise_gaussian_std=BADNUM)
FIELDS = list(GOOD)


def cases(tier, seed):
    T = tier == "thorough"
    out = [dict(k="one")]
    for f in FIELDS:
        out.append(dict(k="pair", f=f, both=T))
        out.append(dict(k="chain", f=f, vals=4 if T else 2, n=3))
        if T:
            out.append(dict(k="chain", f=f, vals=1, n=4))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def cls():
    from synthpix.types import ImageGenerationSpecification

    return ImageGenerationSpecification


def fields(spec):
    return {f: getattr(spec, f) for f in FIELDS}


def same(a, b):
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)


def build(res, base, kw, ok, what):
    """Create (base None) or update with kw; True if it behaved as the model says."""
    C = cls()
    before = copy.deepcopy(fields(base)) if base is not None else None
    arg = copy.deepcopy(kw)
    res.evaluations += 1
    try:
        new = C(**arg) if base is None else base.update(**arg)
    except Exception as e:
        if ok:
            res.violate("refused", f"{what} with {kw!r} is refused: {e!r}")
            return None
        if base is not None and not same(fields(base), before):
            res.violate("touched", f"a refused {what} with {kw!r} changed the original")
            return None
        if isinstance(e, ValueError) and not any(f.rstrip("s") in str(e) for f in kw):
            res.violate("unnamed", f"{what} with {kw!r} is refused without naming the field: {e}")
            return None
        return True
    if not ok:
        res.violate("accepted", f"{what} with {kw!r} is accepted")
        return None
    want = dict(before if base is not None else fields(C()), **kw)
    if not same(fields(new), want):
        d = {k: (fields(new)[k], want[k]) for k in want if not same({k: fields(new)[k]}, {k: want[k]})}
        res.violate("fields", f"{what} with {kw!r}: (is, should be) {d}")
        return None
    if base is not None and (new is base or not same(fields(base), before)):
        res.violate("touched", f"{what} with {kw!r} changed the original or returned it")
        return None
    return new


def k_one(case, tier, res):
    C = cls()
    names = [f.name for f in dataclasses.fields(C)]
    if sorted(names) != sorted(FIELDS):
        common.beat()  # fields added or renamed: those known are still checked
    rich = C(**{f: GOOD[f][-1] for f in FIELDS})
    plain = C(**{f: GOOD[f][0] for f in FIELDS})
    for f in FIELDS:
        for ok, vals in ((True, GOOD[f]), (False, BAD[f])):
            for v in vals:
                for base, what in ((None, "creation"), (C(), "update"), (rich, "update"), (plain, "update")):
                    res.seen((f, repr(v), what))
                    if build(res, base, {f: v}, ok, what) is None:
                        return
    # the empty update is an equal, other object; positional creation keeps the order of the fields
    for s in (C(), rich, plain):
        if build(res, s, {}, True, "update") is None:
            return
    if names[:len(FIELDS)] == FIELDS_ORDER and not same(fields(C(*[GOOD[f][-1] for f in FIELDS_ORDER])), {f: GOOD[f][-1] for f in FIELDS}):
        res.violate("positional", "positional creation mixes up the fields")
    # default lists are not shared
    a, b = C(), C()
    for f in ("diameter_ranges", "intensity_ranges", "rho_ranges"):
        keep = copy.deepcopy(getattr(b, f))
        getattr(a, f).append((0.5, 0.5))
        if getattr(b, f) != keep or getattr(C(), f) != keep:
            res.violate("shared", f"the default {f} is shared between objects")
            return
    # frozen
    for f in FIELDS:
        try:
            setattr(plain, f, BAD[f][0])
        except Exception:
            continue
        res.violate("mutable", f"{f} can be assigned an inadmissible value")
        return
    res.traces += res.evaluations


FIELDS_ORDER = ["batch_size", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1", "p_hide_img2", "diameter_ranges", "diameter_var",
                "intensity_ranges", "intensity_var", "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"]


def k_pair(case, tier, res):
    C = cls()
    f = case["f"]
    base = C(**{g: GOOD[g][1] for g in FIELDS})
    for g in FIELDS:
        if g == f:
            continue
        for (a, v), (b, w) in itertools.product([(True, v) for v in GOOD[f]] + [(False, v) for v in BAD[f]],
                                                [(True, w) for w in GOOD[g]] + [(False, w) for w in BAD[g]]):
            if not (a and b) and not case["both"] and (not b or FIELDS.index(g) % 3):
                continue
            for bs, what in ((None, "creation"), (base, "update")):
                if build(res, bs, {f: v, g: w}, a and b, what) is None:
                    return
            res.seen((f, g, repr(v), repr(w)))
        common.beat()
    res.traces += res.evaluations


def k_chain(case, tier, res):
    """All sequences of single-field updates; every object made on the way stays as it was."""
    C = cls()
    steps = [(f, v) for f in FIELDS for v in GOOD[f][-case["vals"]:]] + [(f, BAD[f][0]) for f in FIELDS]
    start = [(case["f"], v) for v in GOOD[case["f"]][-case["vals"]:]]

    def walk(hist, seq):
        if len(seq) == case["n"]:
            for obj, want in hist:
                if not same(fields(obj), want):
                    res.violate("history", f"after the updates {seq} an earlier object has changed")
                    return False
            res.traces += 1
            return True
        obj, model = hist[-1]
        for f, v in (start if not seq else steps):
            res.transitions += 1
            bad = any(v is b for b in BAD[f])
            r = build(res, obj, {f: v}, not bad, "update")
            if r is None:
                return False
            res.seen((tuple(seq), f, repr(v)))
            if bad:
                continue
            if not walk(hist + [(r, dict(model, **{f: v}))], seq + [(f, repr(v))]):
                return False
            if len(seq) < 2:
                common.beat()
        return True

    first = C()
    walk([(first, copy.deepcopy(fields(first)))], [])
