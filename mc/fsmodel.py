"""Tiny real datasets and a reference model of the file schedulers (C01-C06).

A dataset is a list of file specs [kind, copies...]:
  ["f", k]   a readable file with k slices (k > 1 or 0 only in HDF5)
  ["bad", how]  a file that cannot be loaded: not a data file (default), "empty",
             "trunc"ated, "nokey" (a data file without the data), "gone" (removed
             after the construction), "img" (.npy: one of its images is broken)
  ["dup", j] the same path as entry j once more
Every slice carries the tag 100*(entry+1)+slice in a position pattern, so a
served row identifies its slice and every misplaced element shows.
"""
import collections
import copy
import itertools
import os
import types

import numpy as np

from . import common

H, W = 2, 3


def pattern(tag, h=H, w=W):
    p = np.arange(h * w * 2, dtype=np.float32).reshape(h, w, 2)
    return (p / 64.0 + tag).astype(np.float32)


def rgb(tag, which, h=8, w=16):
    a = np.zeros((h, w, 3), np.uint8)
    a[...] = (tag * 7 + which * 40) % 200 + 20
    a[: h // 2, :, 0] += 20
    return a


def gray(tag, which, h=H, w=W):
    return ((np.arange(h * w).reshape(h, w) * 3 + tag * 5 + which * 90) % 251).astype(np.uint8)


def write(fmt, path, tag, slices, images=False):
    if fmt == "h5":
        import h5py

        a = np.stack([pattern(tag + s) for s in range(slices)], axis=1) if slices else \
            np.zeros((H, 0, W, 2), np.float32)
        with h5py.File(path, "w") as f:
            f.create_dataset("flow", data=a)
    elif fmt == "npy":
        np.save(path, pattern(tag))
        if images:
            from PIL import Image

            d, b = os.path.split(path)
            t = int(b[5:-4])
            # consecutive flow files share an image: the one of index t
            Image.fromarray(rgb(t - 1, 0)).save(os.path.join(d, f"img_{t-1}.jpg"), quality=100)
            Image.fromarray(rgb(t, 0)).save(os.path.join(d, f"img_{t}.jpg"), quality=100)
    elif fmt == "mat":
        import scipy.io

        d = {"V": pattern(tag)}
        if images:
            d["I0"], d["I1"] = gray(tag, 0), gray(tag, 1)
        scipy.io.savemat(path, d)


def images_of(fmt, path, tag):
    """The image pair recorded with a flow field."""
    if fmt == "mat":
        return gray(tag, 0), gray(tag, 1)
    from PIL import Image

    d, b = os.path.split(path)
    t = int(b[5:-4])
    return tuple(np.array(Image.open(os.path.join(d, f"img_{k}.jpg")).convert("RGB")) for k in (t - 1, t))


class Dataset:
    def __init__(self, fmt, spec, images=False, root=None, dirs=False):
        """dirs: every file in a directory of its own, all with the same name; "link": and each a link to a file elsewhere."""
        self.fmt, self.spec, self.images = fmt, spec, images
        self.gone = []
        self.root = root or common.tmpdir()
        self.paths, self.slices, self.tags = [], {}, {}
        for i, s in enumerate(spec):
            if s[0] == "dup":
                self.paths.append(self.paths[s[1]])
                continue
            tag = 100 * (i + 1)
            name = {"npy": f"flow_{i+1}.npy", "h5": f"f{i}.h5", "mat": f"f{i}.mat"}[fmt]
            if dirs:
                name = os.path.join(f"d{i}", {"npy": "flow_1.npy", "h5": "f.h5", "mat": "f.mat"}[fmt])
                os.makedirs(os.path.join(self.root, f"d{i}"), exist_ok=True)
            p = os.path.join(self.root, name)
            n = s[1] if s[0] == "f" else 0
            if s[0] == "bad":
                if images and fmt == "npy":
                    write(fmt, p, tag, 1, images)
                self.spoil(p, tag, *s[1:])
            else:
                write(fmt, p, tag, n, images)
            if dirs == "link" and s[1:] != ["gone"]:
                real = os.path.join(self.root, "elsewhere", f"{9 - i}{os.path.splitext(p)[1]}")
                os.makedirs(os.path.dirname(real), exist_ok=True)
                os.rename(p, real)
                os.symlink(real, p)
            self.paths.append(p)
            self.slices[p] = n
            self.tags[p] = tag

    def spoil(self, p, tag, how="garbage"):
        if how in ("garbage", "empty", "gone"):
            with open(p, "wb") as f:
                f.write(b"not a data file" * (how != "empty"))
            if how == "gone":
                self.gone.append(p)
        elif how == "trunc":
            write(self.fmt, p, tag, 1)
            os.truncate(p, os.path.getsize(p) // 2)
        elif how == "img":
            with open(os.path.join(os.path.dirname(p), f"img_{tag // 100 % 2}.jpg"), "wb") as f:
                f.write(b"not an image")
            write(self.fmt, p, tag, 1)
        elif how == "nokey":
            if self.fmt == "h5":
                import h5py

                with h5py.File(p, "w") as f:
                    f.create_group("group")
            elif self.fmt == "mat":
                import scipy.io

                scipy.io.savemat(p, {"U": pattern(tag)})
            else:
                np.save(p, np.array([{"a": 1}], dtype=object), allow_pickle=True)

    def build(self, *args, **kw):
        for p in self.gone:
            open(p, "wb").close()
        s = self._build(*args, **kw)
        for p in self.gone:
            os.remove(p)
        return s

    def _build(self, randomize=False, loop=False, key=None, file_list=None, from_config=False):
        from synthpix import scheduler as S
        import jax

        cls = {"npy": S.NumpyFlowFieldScheduler, "h5": S.HDF5FlowFieldScheduler,
               "mat": S.MATFlowFieldScheduler}[self.fmt]
        kw = dict(file_list=list(self.paths) if file_list is None else file_list,
                  randomize=randomize, loop=loop)
        if key is not None:
            kw["key"] = jax.random.PRNGKey(key)
        if self.fmt != "h5" and self.images:
            kw["include_images"] = True
        if self.fmt == "mat":
            kw["output_shape"] = (H, W)
        return cls.from_config(kw) if from_config else cls(**kw)

    def slice_content(self, path, s):
        return pattern(self.tags[path] + s)


class Rec:
    """A scheduler under exploration, with the calls made of it so far.

    Clones are deep copies; where the object cannot be copied (say, it holds a
    generator or an open file) a clone is a new one on which the calls are repeated."""

    def __init__(self, factory, log=(), obj=None):
        self._factory, self._log = factory, list(log)
        self._obj = factory() if obj is None else obj

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self._obj, name)
        if not callable(v):
            return v

        def f(*a, **k):
            self._log.append((name, a, k))
            return v(*a, **k)

        return f

    def copy(self):
        try:
            return Rec(self._factory, self._log, copy.deepcopy(self._obj))
        except Exception:
            r = Rec(self._factory)
            for name, a, k in self._log:
                try:
                    getattr(r, name)(*a, **k)
                except Exception:
                    pass  # as it did the first time
            return r


def clone(s):
    return s.copy() if isinstance(s, Rec) else copy.deepcopy(s)


_unique = itertools.count()


def state_digest(o, depth=0):
    """Canonical form of an object's whole state, to recognise revisited states.

    What cannot be looked into (a generator, say) never equals anything."""
    if isinstance(o, Rec):
        return state_digest(o._obj)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return state_digest(o.tolist(), depth + 1)
        return ("nd", o.shape, str(o.dtype), hash(o.tobytes()))
    if hasattr(o, "__array__") and hasattr(o, "dtype"):
        try:
            return state_digest(np.asarray(o))
        except TypeError:
            import jax

            return ("key", state_digest(np.asarray(jax.random.key_data(o))))
    if depth > 14:
        return ("u", next(_unique))
    if isinstance(o, dict):
        return ("d",) + tuple((repr(k), state_digest(v, depth + 1)) for k, v in sorted(o.items(), key=lambda x: repr(x[0])))
    if isinstance(o, (list, tuple, collections.deque)):
        return ("l",) + tuple(state_digest(v, depth + 1) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("s",) + tuple(sorted(repr(v) for v in o))
    if isinstance(o, (int, float, str, bool, bytes, type(None), os.PathLike)):
        return str(o) if isinstance(o, os.PathLike) else o
    if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        return ("f", getattr(o, "__qualname__", None) or o.__name__)
    if isinstance(o, types.MethodType):
        return ("m", o.__name__)
    if hasattr(o, "__dataclass_fields__"):
        return ("dc",) + tuple(state_digest(getattr(o, f), depth + 1) for f in o.__dataclass_fields__)
    if hasattr(o, "__next__"):
        try:
            return ("i", state_digest(copy.copy(o).__reduce__(), depth + 1))
        except Exception:
            return ("u", next(_unique))
    slots = {k: getattr(o, k) for c in type(o).__mro__ for k in ([c.__slots__] if isinstance(getattr(c, "__slots__", ()), str)
             else getattr(c, "__slots__", ())) if not k.startswith("__") and hasattr(o, k)}
    if hasattr(o, "__dict__") or slots:
        return ("o", type(o).__name__, state_digest(dict(getattr(o, "__dict__", {}), **slots), depth + 1))
    try:
        return ("x", type(o).__name__, state_digest(o.__reduce__(), depth + 1))
    except Exception:
        return ("u", next(_unique))


class Pass:
    """What may be served next: the model state of one scheduler.

    Without shuffling the order is the list; with it, any order of the listed
    files, fixed by what is observed (and kept within a pass)."""

    def __init__(self, ds, randomize, loop):
        self.ds, self.randomize, self.loop = ds, randomize, loop
        self.start()
        self.empty = not any(ds.slices[p] for p in ds.paths)

    def start(self):
        self.left = [p for p in self.ds.paths if self.ds.slices[p]]
        self.cur = None  # (path, next slice)
        self.fresh = True

    def key(self):
        return (tuple(self.left), self.cur)

    def copy(self):
        c = copy.copy(self)
        c.left = list(self.left)
        return c

    def done(self):
        return self.cur is None and not self.left

    def expect(self):
        """The (path, slice) pairs admissible next; [] at the end of the data."""
        if self.empty:
            return []
        if self.cur is not None:
            return [self.cur]
        if not self.left:
            if not self.loop:
                return []
            self.start()
        return [(p, 0) for p in (dict.fromkeys(self.left) if self.randomize else self.left[:1])]

    def take(self, path, s):
        if self.cur is None:
            self.left.remove(path)
        self.cur = (path, s + 1) if s + 1 < self.ds.slices[path] else None


def call(s, b):
    """('batch', data) | ('end',) | ('exc', text)"""
    try:
        return ("batch", s.get_batch(b))
    except StopIteration:
        return ("end",)
    except Exception as e:
        return ("exc", f"{type(e).__name__}: {e}")


def rows_of(ds, data, b):
    """Valid row identities [(path, slice)] read from content; None entries unknown."""
    ff = np.asarray(data.flow_fields)
    out = []
    for r in ff:
        tag = int(np.floor(r.flat[0] + 1e-6)) if r.size else -1
        hit = None
        for p, t in ds.tags.items():
            if t <= tag < t + max(1, ds.slices[p]) and ds.slices[p]:
                hit = (p, tag - t)
        out.append(hit)
    return out


def judge(ds, model, b, got, aspects):
    """Advance the model over the outcome of get_batch(b); None or (sig, detail).

    aspects: 'stream' (which slices, in which order, and the end of the data),
    'form' (row count, mask, padding, names, contents)."""
    if got[0] == "exc":
        return ("exception", f"get_batch({b}) raised {got[1]}")
    if got[0] == "end":
        if model.expect():
            return ("early-end", f"end of data reported while {model.expect()} is due") if "end" in aspects else None
        return None
    data = got[1]
    ff = np.asarray(data.flow_fields)
    n = ff.shape[0]
    mask = None if data.mask is None else np.asarray(data.mask)
    ids = rows_of(ds, data, b)
    # how many rows the model can fill
    m = model
    served = 0
    if n != b:
        return ("rows", f"get_batch({b}) returned {n} rows")
    if mask is None or mask.shape != (b,) or mask.dtype != bool:
        return ("mask", f"mask {mask} for {b} rows")
    valid = int(mask.sum())
    if "form" in aspects:
        if not mask[:valid].all():
            return ("mask-order", f"valid rows do not come first: {mask.tolist()}")
        if valid == 0:
            return ("all-padding", "a batch of padding only was returned")
    for i in range(valid):
        exp = m.expect()
        if not exp:
            return ("extra", f"row {i} marked valid although the data has ended (content {ids[i]})")
        if ids[i] not in exp:
            if "stream" in aspects:
                return ("stream", f"row {i} holds {short(ids[i])}, due {[short(e) for e in exp]}")
            return ("desync", f"row {i} holds {short(ids[i])}")
        m.take(*ids[i])
    if valid < b and m.expect():
        if "stream" in aspects or "form" in aspects or "end" in aspects:
            return ("short", f"only {valid} of {b} rows valid although {m.expect()} is due")
    if "form" in aspects:
        return form(ds, data, ids, valid, b)
    return None


def short(x):
    return None if x is None else (os.path.join(*x[0].split(os.sep)[-2:]), x[1])


def form(ds, data, ids, valid, b):
    ff = np.asarray(data.flow_fields)
    files = data.files
    if files is None or len(files) != b:
        return ("files", f"file names {files} for {b} rows")
    for i in range(valid):
        p, s = ids[i]
        want = ds.slice_content(p, s)
        if ff[i].shape != want.shape or not np.array_equal(ff[i], want):
            return ("content", f"row {i} is not the stored slice {short(ids[i])}")
        if files[i] != p:
            return ("name", f"row {i} of {short(ids[i])} carries the name {files[i]!r}")
    if ff[valid:].any():
        return ("padding", "padding rows of the flow fields are not zero")
    if any(f != "" for f in files[valid:]):
        return ("pad-name", f"padding rows carry names {files[valid:]}")
    for which, im in ((0, data.images1), (1, data.images2)):
        if not ds.images:
            if im is not None:
                return ("images", "images delivered although not asked for")
            continue
        if im is None or im.shape[0] != b:
            return ("images", f"images {None if im is None else im.shape} for {b} rows")
        im = np.asarray(im)
        for i in range(valid):
            want = images_of(ds.fmt, ids[i][0], ds.tags[ids[i][0]])[which]
            if im[i].shape != want.shape or not np.array_equal(im[i], want):
                return ("image", f"image {which+1} of row {i} is not that of {short(ids[i])}")
        if im[valid:].any():
            return ("image-padding", "padding rows of the images are not zero")
    return None


def explore(ds, make, model0, ops, depth, res, aspects, max_states=4000, keep=0, stop_after_end=0):
    """All operation strings over `ops` to `depth`, on clones of the real scheduler.

    Revisited states (whole object state and model state equal) are explored
    once, at depths beyond `keep`.  ops: integers (get_batch sizes) and "R"
    (reset).  Returns on the first violation."""
    seen = set()
    stack = [(Rec(make), model0, (), 0)]
    while stack:
        if res.states >= max_states:
            res.capped += 1
            return
        s, m, hist, ends = stack.pop()
        res.states += 1
        if len(hist) >= depth:
            res.traces += 1
            continue
        for op in ops:
            s2, m2 = clone(s), m.copy()
            h2 = hist + (op,)
            res.transitions += 1
            res.evaluations += 1
            common.beat()
            if op == "R":
                try:
                    s2.reset()
                except Exception as e:
                    res.violate("exception", f"reset raised {e!r} after {h2}", hist=h2)
                    return
                m2.start()
                e2 = 0
                got = ("ok",)
            else:
                got = call(s2, op)
                bad = judge(ds, m2, op, got, aspects)
                if bad:
                    if bad[0] == "desync":
                        continue
                    res.violate(bad[0], f"{bad[1]}; operations {h2}; spec {ds.spec}", hist=h2)
                    return
                e2 = ends + 1 if got[0] == "end" else 0
            if stop_after_end and e2 >= stop_after_end:
                res.traces += 1
                continue
            if len(h2) > keep:
                k = common.digest((state_digest(s2), m2.key(), e2))
                if k in seen:
                    res.traces += 1
                    continue
                seen.add(k)
            res.seen((ds.fmt, tuple(map(tuple, ds.spec)), m2.key(), got[0], op))
            stack.append((s2, m2, h2, e2))
