"""C31: batch containers survive functional updates and tree transformations."""
import dataclasses
import itertools

import numpy as np

from . import common

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of present/absent fields, update subsets, update sequences and tree transformations on the real "
             "containers against a dictionary model")
NOTE = ("Each container is built with every combination of present and absent optional fields; every subset of fields is updated at once "
        "and in sequences; every transformation is compared field by field, every leaf being distinct.")
RULE = "distinct = different (container, fields present, operation)"
BOUNDS = {
    "quick": "3 containers; all 2^n combinations of optional fields; all 2^n update subsets (values, falsy values, None) and all sequences of 2 "
             "subsets of at most 2 fields; 9 transformations, nested in dictionaries and tuples",
    "thorough": "sequences of 3 subsets",
}
ASSUMPTIONS = []
XLA_CACHE = False

SPEC = {  # field order as declared, optional ones marked
    "SynthpixBatch": [("images1", 0), ("images2", 0), ("flow_fields", 0), ("params", 1), ("done", 1), ("mask", 1), ("files", 1)],
    "SchedulerData": [("flow_fields", 0), ("images1", 1), ("images2", 1), ("mask", 1), ("files", 1)],
    "ImageGenerationParameters": [("seeding_densities", 0), ("diameter_ranges", 0), ("intensity_ranges", 0), ("rho_ranges", 0)],
}


def cases(tier, seed):
    out = []
    for c, fs in SPEC.items():
        opt = [f for f, o in fs if o]
        for present in itertools.product((0, 1), repeat=len(opt)):
            out.append(dict(k="tree", c=c, absent=[f for f, p in zip(opt, present) if not p]))
            if c != "ImageGenerationParameters":
                out.append(dict(k="update", c=c, absent=[f for f, p in zip(opt, present) if not p], depth=3 if tier == "thorough" else 2))
    return out


def run_case(case, tier, res):
    globals()["k_" + case["k"]](case, tier, res)


def value(c, f, salt, absent=()):
    """A value for a field, distinct per field and salt."""
    import jax.numpy as jnp
    import synthpix.types as T

    if f == "files":
        return tuple(f"{f}-{salt}-{i}" for i in range(2))
    if f == "params":
        return T.ImageGenerationParameters(*[value("", g, salt + 10 + i) for i, (g, _) in enumerate(SPEC["ImageGenerationParameters"])])
    names = sorted({g for fs in SPEC.values() for g, _ in fs})
    x = (np.arange(6, dtype=np.float32).reshape(2, 3) + 100 * names.index(f) + 7 * salt) * (0 if salt == 99 else 1)
    if c == "SchedulerData":
        return x
    return jnp.array(x > 550 if f == "done" else x)


def make(c, absent, salt=0):
    import synthpix.types as T

    v = {f: (None if f in absent else value(c, f, salt)) for f, _ in SPEC[c]}
    return getattr(T, c)(**v), v


def eq(a, b):
    if a is None or b is None or isinstance(b, (tuple, str)):
        return type(a) is type(b) and a == b
    if dataclasses.is_dataclass(b):
        return type(a) is type(b) and all(eq(getattr(a, f), getattr(b, f)) for f, _ in SPEC["ImageGenerationParameters"])
    return np.asarray(a).dtype == np.asarray(b).dtype and np.array_equal(a, b)


def diff(obj, model):
    return [f for f in model if not eq(getattr(obj, f), model[f])]


def k_update(case, tier, res):
    c = case["c"]
    names = [f for f, _ in SPEC[c]]
    optional = [f for f, o in SPEC[c] if o]

    def subsets(most):
        for n in range(most + 1):
            for fs in itertools.combinations(names, n):
                yield fs

    def step(obj, model, kw, what):
        before = {f: getattr(obj, f) for f in names}
        res.evaluations += 1
        try:
            new = obj.update(**kw)
        except Exception as e:
            res.violate("error", f"{c} without {case['absent']}: {what} raises {e!r}")
            return None
        want = dict(model, **kw)
        if type(new) is not type(obj) or new is obj:
            res.violate("same", f"{c}: {what} returns {type(new).__name__}, not a new container")
            return None
        d = diff(new, want)
        if d:
            res.violate("update", f"{c} without {case['absent']}: after {what} the fields {d} are not what they should be")
            return None
        if any(getattr(obj, f) is not before[f] for f in names) or diff(obj, model):
            res.violate("touched", f"{c} without {case['absent']}: {what} changes the original")
            return None
        return new, want

    obj, model = make(c, case["absent"])
    for fs in subsets(len(names)):
        for kind in ("value", "falsy", "none"):
            kw = {}
            for i, f in enumerate(fs):
                kw[f] = (value(c, f, 1 + i) if kind == "value" else (() if f == "files" else value(c, f, 99)) if kind == "falsy" else None)
            res.seen((c, tuple(case["absent"]), fs, kind))
            if step(obj, model, kw, f"update of {fs} ({kind})") is None:
                return

    def walk(obj, model, depth, seq):
        if depth == 0:
            res.traces += 1
            return True
        for fs in subsets(2 if depth == case["depth"] else 1):
            kw = {f: (None if f in optional and (depth + i) % 2 else value(c, f, 20 * depth + i)) for i, f in enumerate(fs)}
            r = step(obj, model, kw, f"updates {seq + [fs]}")
            res.transitions += 1
            if r is None or not walk(*r, depth - 1, seq + [fs]):
                return False
        common.beat()
        return True

    walk(obj, model, case["depth"], [])


def k_tree(case, tier, res):
    import jax
    import jax.numpy as jnp

    c, absent = case["c"], case["absent"]
    if c == "SchedulerData":
        return k_scheduler_data(case, res)
    obj, model = make(c, absent)
    # expected leaves: every array once
    arrays = []
    for f, _ in SPEC[c]:
        v = model[f]
        if dataclasses.is_dataclass(v):
            arrays += [getattr(v, g) for g, _ in SPEC["ImageGenerationParameters"]]
        elif v is not None and f != "files":
            arrays.append(v)

    def bump(v):
        if v is None or isinstance(v, (tuple, str)):
            return v
        if dataclasses.is_dataclass(v):
            return type(v)(*[bump(getattr(v, g)) for g, _ in SPEC["ImageGenerationParameters"]])
        return jnp.logical_not(v) if v.dtype == bool else v + 1

    def fail(sig, msg):
        res.violate(sig, f"{c} without {absent}: {msg}")

    def expect(name, got, want):
        res.evaluations += 1
        res.seen((c, tuple(absent), name))
        if type(got) is not type(obj):
            fail(name, f"{name} gives a {type(got).__name__}")
            return False
        d = diff(got, want)
        if d:
            fail(name, f"after {name} the fields {d} are wrong")
            return False
        if diff(obj, model):
            fail(name, f"{name} changed the original")
            return False
        return True

    bumped = {f: bump(v) for f, v in model.items()}
    up = lambda x: jnp.logical_not(x) if x.dtype == bool else x + 1
    touched = []

    def count(x):
        touched.append(x)
        return x

    ops = {
        "flatten-unflatten": lambda: (jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(obj)[::-1]), model),
        "identity map": lambda: (jax.tree_util.tree_map(count, obj), model),
        "map": lambda: (jax.tree_util.tree_map(up, obj), bumped),
        "jit identity": lambda: (jax.jit(lambda b: b)(obj), model),
        "jit map": lambda: (jax.jit(lambda b: jax.tree_util.tree_map(up, b))(obj), bumped),
        "vmap": lambda: (jax.vmap(lambda b: jax.tree_util.tree_map(up, b))(obj), bumped),
        "two-tree map": lambda: (jax.tree_util.tree_map(lambda a, b: jnp.where(a == b, up(a), a), obj, make(c, absent)[0]), bumped),
        "nested": lambda: (jax.tree_util.tree_map(up, {"a": (obj, 3 + jnp.zeros(2)), "b": [None]})["a"][0], bumped),
        "scan": lambda: (jax.lax.scan(lambda s, b: (s, jax.tree_util.tree_map(up, b)), 0, obj)[1], bumped),
        "device_get": lambda: (jax.device_get(obj), model),
        "device_put": lambda: (jax.device_put(obj), model),
    }
    for name, f in ops.items():
        try:
            got, want = f()
        except Exception as e:
            fail(name, f"{name} raises {type(e).__name__}: {e}")
            return
        common.beat()
        if not expect(name, got, want):
            return
    res.traces += len(ops)
    if sorted(map(id, touched)) != sorted(map(id, arrays)):
        fail("leaves", f"a map touches {len(touched)} leaves, there are {len(arrays)} arrays")
        return
    # a rebuilt container has leaves replaced at their own place
    leaves, tree = jax.tree_util.tree_flatten(obj)
    for k in range(len(leaves)):
        new = list(leaves)
        new[k] = leaves[k] * 0 - 5 if leaves[k].dtype != bool else ~leaves[k]
        got = jax.tree_util.tree_unflatten(tree, new)
        res.evaluations += 1
        flat = []
        for f, _ in SPEC[c]:
            v = getattr(got, f)
            flat += [getattr(v, g) for g, _ in SPEC["ImageGenerationParameters"]] if dataclasses.is_dataclass(v) else [v] if hasattr(v, "dtype") else []
        changed = [i for i, (a, b) in enumerate(zip(flat, arrays)) if not eq(a, b)]
        where = [i for i, a in enumerate(arrays) if a is leaves[k]]
        if len(flat) != len(arrays) or changed != where:
            fail("place", f"replacing leaf {k} changes the arrays {changed} instead of {where}")
            return
        if c == "SynthpixBatch" and not eq(got.files, model["files"]):
            fail("files", f"replacing leaf {k} loses the file names: {got.files}")
            return


def k_scheduler_data(case, res):
    import copy
    import pickle

    obj, model = make("SchedulerData", case["absent"])
    for name, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy), ("pickle", lambda o: pickle.loads(pickle.dumps(o)))):
        res.evaluations += 1
        res.seen(("SchedulerData", tuple(case["absent"]), name))
        d = diff(f(obj), model)
        if d:
            res.violate(name, f"SchedulerData without {case['absent']}: after {name} the fields {d} are wrong")
            return
    for f, _ in SPEC["SchedulerData"]:
        try:
            setattr(obj, f, None)
        except Exception:
            continue
        res.violate("mutable", f"SchedulerData.{f} can be reassigned in place")
        return
    res.traces += 1
