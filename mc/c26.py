"""C26: updating a configuration file changes only the given keys."""
import itertools
import math
import os

import numpy as np

from . import common, env

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of entry values, keys, positions, file layouts and update sequences on the real function and loader "
             "against an ordered-dictionary model")
NOTE = ("Every value of an alphabet that covers the YAML scalar forms (text that looks like numbers, dates, null, markup; every number form; "
        "nested and empty collections; array-library values) is a bystander and an update at every position; update sequences are explored "
        "to a depth with the file re-read after every step.")
RULE = "distinct = different (file content, update) pairs"
BOUNDS = {
    "quick": "88 texts x 5 roles, 30 numbers, 12 collections, 20 array values as bystander/update/new entry; all pairs of 30 values; all "
             "sequences of 3 updates over 13; 9 file layouts x 13 updates; the repository's configuration files",
    "thorough": "all pairs of all values, sequences of 4 updates",
}
ASSUMPTIONS = ["the file is a mapping at top level", "comments of the file are not entries"]
XLA_CACHE = False

TEXTS = ["", "~", "null", "Null", "true", "True", "yes", "no", "off", "on", "y", "1", "1.0", "1e5", "1E5", "1.", "1e+5", ".5", ".inf", "-.inf", ".nan",
         "0x1f", "0o17", "017", "0b11", "1_000", "12:30", "12:30:45", "2020-01-01", "2020-01-01 10:00:00", " lead", "trail ", "a: b", "a:", "a #b", "#x",
         "-", "- a", "?", "? a", "!x", "&a", "*a", "@a", "`a", "%a", "|", ">", "'", '"', "it's", "a\nb", "a\n", "\n", "a\tb", "\t", "\\", "\\n", "{", "}",
         "[", "]", "[a, b]", "{a: 1}", ",", "a, b", "é", "日本", "😀", "\x07", "\x85", "\u2028", "---", "...", "=", "<<", "x" * 300, "word " * 60 + "end",
         "a  b", "\r", "/tmp/a b.h5", "C:\\x", "0", "-0", "+1", "nan", "None", "False"]
NUMBERS = [0, 1, -1, 7, 10**12, 10**30, True, False, None, 0.0, -0.0, 0.1, 1.0, -2.5, 1e5, 1e16, 1e22, 1e-7, 123456789.123, 5e-324, 1.7976931348623157e308,
           math.inf, -math.inf, math.nan, 0.30000000000000004, 255, 1e100, 3.141592653589793, 1e15, 12345.678]
COLLECTIONS = [[], {}, [[]], [{}], {"a": []}, [1, [2, [3.5]]], {"b": 1, "a": {"d": None, "c": True}}, [None, True, "no"], [[0.1, 1], [2, 3]], ["a b", "c: d"],
               [{"z": 1, "y": [2]}], {"1": "one", 1: "uno"}]
KEYS = ["k", "a b", "true", "1", 1, "", "a:b", "null", "#k", "- k", "é", "k\n", "'", "file_list", "x" * 140, "[k]"]


def arrays():
    """(value, what it is to be read back as)"""
    import jax.numpy as jnp

    return [(np.float32(1.5), 1.5), (np.float64(0.1), 0.1), (np.float16(0.25), 0.25), (np.int64(7), 7), (np.uint8(255), 255), (np.bool_(True), True),
            (np.bool_(False), False), (jnp.float32(4.5), 4.5), (jnp.int32(8), 8), (jnp.bool_(True), True), (np.array([1, 2, 3]), [1, 2, 3]),
            (jnp.array([4, 5]), [4, 5]), (np.array([[0.5, 1], [2, 3]]), [[0.5, 1.0], [2.0, 3.0]]), (np.array([]), []), (np.array(2.5), 2.5),
            ((1, 2), [1, 2]), ([(0.1, 1), (2, 3)], [[0.1, 1], [2, 3]]), ((np.float32(0.5), 2), [0.5, 2]), ([np.int64(3)], [3]), (np.str_("off"), "off")]


def cases(tier, seed):
    T = tier == "thorough"
    out = [dict(k="role", what=w, lo=i, hi=i + 22) for w, n in (("TEXTS", len(TEXTS)), ("NUMBERS", len(NUMBERS)), ("COLLECTIONS", len(COLLECTIONS)), ("ARRAYS", 20))
           for i in range(0, n, 22)]
    out += [dict(k="keys"), dict(k="layouts"), dict(k="repo"), dict(k="arrays-pairs")]
    n = len(pair_values(T))
    out += [dict(k="pairs", lo=i, hi=min(n, i + (8 if T else 6)), full=T) for i in range(0, n, 8 if T else 6)]
    out += [dict(k="chain", first=i, depth=4 if T else 3) for i in range(len(UPDATES))]
    return out


def run_case(case, tier, res):
    import tempfile

    with tempfile.TemporaryDirectory(dir=common.tmpdir()) as d:
        ctx = Ctx(res, os.path.join(d, "config.yaml"))
        globals()["k_" + case["k"].replace("-", "_")](case, ctx)
        res.traces += res.evaluations


def same(a, b):
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and math.isnan(a)
    if type(a) is not type(b):
        return False
    if isinstance(b, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


class Ctx:
    def __init__(self, res, path):
        from synthpix.sanity import update_config_file
        from synthpix.utils import load_configuration

        self.res, self.path, self.update, self.load = res, path, update_config_file, load_configuration

    def write(self, config):
        """Put a configuration in the file, in a form the loader reads back exactly (double-quoted text)."""
        with open(self.path, "w", encoding="utf-8") as f:
            f.write(flow(dict(config)) + "\n")
        got = dict(self.load(self.path))
        assert same(got, dict(config)), (got, config)

    def check(self, config, updates, expected=None, again=True):
        """Update the file (holding config) and compare what is loaded with the model."""
        res = self.res
        want = dict(config)
        want.update(updates if expected is None else expected)
        res.evaluations += 1
        res.seen((repr(config), repr(updates)))
        if res.evaluations % 50 == 0:
            common.beat()
        kept = repr(updates)
        try:
            self.update(self.path, updates)
            got = dict(self.load(self.path))
        except Exception as e:
            res.violate("error", f"updating {short(config)} with {short(updates)}: {type(e).__name__}: {str(e)[:200]}")
            return None
        if repr(updates) != kept:
            res.violate("argument", f"updating {short(config)} with {kept} changes the given values")
            return None
        if not same(got, want):
            bad = [k for k in want if k not in got or not same(got[k], want[k])] + [k for k in got if k not in want]
            what = f"entries {bad}: {[(got.get(k, 'missing'), want.get(k, 'not there')) for k in bad][:3]}" if bad else f"order {list(got)}, not {list(want)}"
            res.violate("entry" if bad else "order", f"{short(config)} updated with {short(updates)} (is, should be) {what}")
            return None
        if again:
            with open(self.path, "rb") as f:
                a = f.read()
            if self.check(want, updates, expected, again=False) is None:
                return None
            with open(self.path, "rb") as f:
                if f.read() != a:
                    res.violate("again", f"updating {short(config)} twice with {short(updates)} changes the file the second time")
                    return None
        return want


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def flow(v):
    """YAML flow form that does not depend on the code under test (JSON with YAML's special floats)."""
    import json

    if isinstance(v, dict):
        return "{" + ", ".join(("? " if len(flow(k)) > 100 else "") + f"{flow(k)} : {flow(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(flow, v)) + "]"
    if isinstance(v, str):
        return '"' + "".join(c if " " <= c <= "~" and c not in '"\\' else f"\\U{ord(c):08x}" for c in v) + '"'
    if isinstance(v, float):
        if math.isnan(v):
            return ".nan"
        if math.isinf(v):
            return ".inf" if v > 0 else "-.inf"
        r = repr(v)
        return r if "." in r else r.replace("e", ".0e") if "e" in r else r + ".0"
    return json.dumps(v)


def k_role(case, ctx):
    vals = {"TEXTS": TEXTS, "NUMBERS": NUMBERS, "COLLECTIONS": COLLECTIONS}.get(case["what"])
    vals = [(v, v) for v in vals] if vals is not None else arrays()
    for v, read in vals[case["lo"]:case["hi"]]:
        base = {"a": 1, "k": read, "file_list": ["p.h5", "q.h5"], "z": "end"}
        for updates, exp in (({"z": 2.5}, None), ({"k": v}, {"k": read}), ({"a": v}, {"a": read}), ({"new": v}, {"new": read}), ({}, None)):
            ctx.write(base)
            if ctx.check(base, updates, exp) is None:
                return
        for fl in ([read], ["p.h5", read], read):
            b = {"a": 1, "file_list": fl, "z": 2}
            for updates in ({"a": 5}, {"new": 1}):
                ctx.write(b)
                if ctx.check(b, updates) is None:
                    return
        b = {"a": 1, "z": 2}
        ctx.write(b)
        if ctx.check(b, {"file_list": [v, "x"]}, {"file_list": [read, "x"]}) is None:
            return
        if type(v) is str:
            b = {"a": 1, v: "here", "z": 2}
            for updates in ({"z": 3}, {v: "there"}):
                ctx.write(b)
                if ctx.check(b, updates) is None:
                    return
        ctx.write({"only": read})
        if ctx.check({"only": read}, {"other": v}, {"other": read}) is None:
            return


def k_keys(case, ctx):
    for k, l in itertools.permutations(KEYS, 2):
        base = {k: 1, "m": "off", l: [1, 2]}
        for updates in ({k: 2}, {l: "x"}, {"new": 0.5}, {l: 3, k: 4}):
            ctx.write(base)
            if ctx.check(base, updates, again=False) is None:
                return
        base = {k: None}
        ctx.write(base)
        if ctx.check(base, {l: True}) is None:
            return


def pair_values(full):
    v = TEXTS + NUMBERS + COLLECTIONS
    return v if full else v[::5] + COLLECTIONS[::3]


def k_pairs(case, ctx):
    vals = pair_values(case["full"])
    for v, w in itertools.product(vals[case["lo"]:case["hi"]], vals):
        base = {"v": v, "m": [v, w], "w": w}
        for updates in ({"v": w}, {"w": v, "n": {"x": v, "y": w}}):
            ctx.write(base)
            if ctx.check(base, updates, again=False) is None:
                return


def k_arrays_pairs(case, ctx):
    vals = arrays()
    for (v, rv), (w, rw) in itertools.product(vals, repeat=2):
        base = {"a": "yes", "m": 1}
        ctx.write(base)
        if ctx.check(base, {"a": v, "n": w}, {"a": rv, "n": rw}, again=False) is None:
            return


UPDATES = [{"max_speed_x": 1.5}, {"max_speed_x": 15.0, "min_speed_x": -15.0}, {"min_speed_y": -0.0}, {"file_list": ["a b.h5", "c: d.h5"]}, {"file_list": []},
           {"name": "off"}, {"name": None}, {"ranges": [[0.1, 1], [2, 3]]}, {}, {"new": {"a": [1]}}, {"seed": "0"}, {"seed": 0}, {"zz": "a\nb"}]


def k_chain(case, ctx):
    first = {"seed": 0, "name": "yes", "file_list": ["x.h5", "~/y.h5"], "ranges": [[0.1, 1]], "max_speed_x": "missing"}

    def walk(model, depth, up):
        ctx.res.transitions += 1
        ctx.write(model)
        new = ctx.check(model, up, again=False)
        if new is None:
            return False
        return depth == 1 or all(walk(new, depth - 1, u) for u in UPDATES)

    walk(first, case["depth"], UPDATES[case["first"]])
    # the same without rewriting the file in between
    ctx.write(first)
    model = first
    for up in [UPDATES[case["first"]]] + UPDATES + UPDATES[::-1]:
        model = ctx.check(model, up, again=False)
        if model is None:
            return


LAYOUTS = [
    ("empty", ""), ("comment only", "# nothing here\n"), ("braces", "{}\n"), ("no newline", "a: 1"), ("document markers", "---\na: 1\nb: yes\n...\n"),
    ("comments", "# top\na: 1 # one\n\n# mid\nb: 'two' # 2\nfile_list: # files\n  - x.h5 # noqa\n  - y.h5\n"),
    ("anchors", "a: &r [1, 2]\nb: *r\nc: {x: *r}\nd: 1\n"), ("merge", "base: &m {x: 1, y: 2}\nc:\n  <<: *m\n  y: 3\nd: 4\n"),
    ("block text", "a: |\n  one\n  two\nb: >-\n  folded\n  text\nc: \"q \\\" \\n\"\nd: 2020-01-02\ne: 0x1F\nf: 0o17\ng: 1_000\nh: ~\n"),
]


def k_layouts(case, ctx):
    for name, text in LAYOUTS:
        for up in UPDATES:
            with open(ctx.path, "w", encoding="utf-8") as f:
                f.write(text)
            config = dict(ctx.load(ctx.path))
            if ctx.check(config, up) is None:
                return
        for nl in ("\r\n",):
            with open(ctx.path, "w", encoding="utf-8", newline="") as f:
                f.write(text.replace("\n", nl))
            config = dict(ctx.load(ctx.path))
            if ctx.check(config, {"q": 1}) is None:
                return


def k_repo(case, ctx):
    """The configuration files that come with the repository."""
    d = os.path.join(env.REPO, "config")
    speeds = {"min_speed_x": -1.25, "max_speed_x": 2.5, "min_speed_y": -0.125, "max_speed_y": 1e-7}
    for name in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not name.endswith((".yaml", ".yml")):
            continue
        with open(os.path.join(d, name), encoding="utf-8") as f:
            text = f.read()
        for up in [speeds] + [{k: v} for k, v in speeds.items()] + UPDATES:
            with open(ctx.path, "w", encoding="utf-8") as f:
                f.write(text)
            if ctx.check(dict(ctx.load(ctx.path)), up) is None:
                return
