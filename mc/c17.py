"""C17: samplers report episode ends exactly."""
import itertools
import os

import numpy as np

from . import common
from . import fsmodel as fm
from . import smmodel as sm

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive execution of all next / next_episode / reset strings to a depth on the real sampler, episodic and "
             "prefetching scheduler stack, against an episode model")
NOTE = ("Every operation string within the bounds is executed on a real stack over real files; done flags, episode ends and "
        "the frame shown by every row are compared with the model.")
RULE = "distinct = different (configuration, step, operation, outcome) observations"
BOUNDS = {
    "quick": "real and synthetic sampler; no prefetching or buffers of 1 and 3; episode length 1-3, 1-2 rows, 1-3 batches per "
             "flow batch, looping and shuffling or not; all strings of length 7 (6 with prefetching) over next / next_episode / reset / reset without the source with at "
             "most two that are not next; non-episodic stacks likewise",
    "thorough": "length 8 (7 with prefetching) with at most three that are not next, episode length up to 4",
}
ASSUMPTIONS = ["one device", "the producer thread of a prefetching stack runs freely (its schedules are explored in C09-C14)"]
XLA_CACHE = True
SHIM = False  # real threads: the producer is not under exploration here
CASE_LIMIT = {"quick": 90, "thorough": 300}


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for kind, buf, L, n in itertools.product(("real", "synth"), (0, 1, 3), (1, 2, 3) + ((4,) if T else ()), (1, 2)):
        for bpfb in ((1, 2, 3) if kind == "synth" else (1,)):
            if not T and bpfb == 3 and (buf == 1 or n == 2):
                continue
            i = L + n + bpfb + buf
            full = (8 if T else 7) if not buf else (7 if T else 6)
            prefixes = [(a,) for a in "nNRr"] if not T else [a for a in itertools.product("nNRr", repeat=2)]
            for first in prefixes:
                out.append(dict(k="ep", kind=kind, buf=buf, L=L, n=n, bpfb=bpfb, loop=bool(i % 2), rnd=i % 3 == 0,
                                first=list(first), depth=full, b=n if kind == "real" else n + i % 3, long=i % 2))
    for kind, buf, bpfb in itertools.product(("real", "synth"), (0, 1, 3), (1, 2)):
        out.append(dict(k="plain", kind=kind, buf=buf, bpfb=bpfb, n=2, b=2 if kind == "real" else 3, depth=7 if T else 6))
    return out


class Data:
    """Sequences of uniform flow fields; the frame behind a row is read from its label."""

    def __init__(self, dirs):
        import scipy.io

        self.root = common.tmpdir()
        self.tags, self.frames, self.len = {}, [], {}
        t = 0
        for q, k in enumerate(dirs):
            d = os.path.join(self.root, f"s{q}")
            os.makedirs(d)
            self.len[q] = k
            for f in range(k):
                v = np.zeros((4, 5, 2), np.float32)
                v[:] = sm.uv(t)
                p = os.path.join(d, f"{f:03d}.mat")
                scipy.io.savemat(p, {"V": v, "I0": fm.gray(t, 0, 4, 5), "I1": fm.gray(t, 1, 4, 5)})
                self.frames.append(p)
                self.tags[tuple(np.round(np.array(sm.uv(t)), 3))] = (q, f, p, t)
                t += 1

    def row(self, label):
        return self.tags.get(tuple(np.round(np.asarray(label, float)[0, 0], 3)))


def stack(data, case):
    from synthpix import scheduler as S
    import jax

    base = S.MATFlowFieldScheduler([data.root] if case["k"] == "ep" else list(data.frames), loop=case.get("loop", False),
                                   randomize=case.get("rnd", False), include_images=case["kind"] == "real",
                                   output_shape=(4, 5), key=jax.random.PRNGKey(2))
    if case["k"] == "ep":
        base = S.EpisodicFlowFieldScheduler(base, batch_size=case["n"], episode_length=case["L"], key=jax.random.PRNGKey(case["n"]))
    if case["buf"]:
        base = S.PrefetchingFlowFieldScheduler(base, batch_size=case["n"], buffer_size=case["buf"],
                                              startup_timeout=80.0, steady_state_timeout=80.0)
    return base


def template(data, case):
    from synthpix.sampler import RealImageSampler

    s = stack(data, case)
    if case["kind"] == "real":
        return lambda src: RealImageSampler(src, batch_size=case["n"])
    t = sm.build(s, bpfb=case["bpfb"], n=case["n"], spec=dict(batch_size=case["b"], image_shape=(12, 12)), size=(16.0, 16.0))
    s.shutdown()
    sm.nxt(sm.fresh(t, sm.Src(None)))  # compile
    return lambda src: sm.fresh(t, src)


def run_case(case, tier, res):
    L = case.get("L")
    data = Data((L + 2, L, L + 1) if case.get("long") else (L, L, L)) if case["k"] == "ep" else Data((5,))
    make = template(data, case)
    strings = ([tuple(case["first"]) + r for r in itertools.product("nNRr", repeat=case["depth"] - len(case["first"]))]
               if case["k"] == "ep" else list(itertools.product("nRr", repeat=case["depth"])))
    strings = [o for o in strings if sum(c != "n" for c in o) <= (3 if tier == "thorough" else 2)]
    done_prefix = set()
    for ops in strings:
        common.beat()
        s = make(stack(data, case))
        try:
            bad = (episode if case["k"] == "ep" else plain)(s, data, case, ops, res, done_prefix)
        finally:
            s.shutdown()
        res.traces += 1
        if bad:
            res.violate(bad[0], f"{bad[1]}; operations {' '.join(bad[2])}; {case}", hist=bad[2])
            return
    res.states += len(done_prefix)


def rows(data, case, batch):
    return [data.row(l) for l in np.asarray(batch.flow_fields)]


def episode(s, data, case, ops, res, seen):
    L, n, b = case["L"], case["n"], case["b"]
    t, cur = 0, None
    for k, op in enumerate(ops):
        h = ops[:k + 1]
        new = h not in seen
        if new:
            res.transitions += 1
            seen.add(h)
        if op == "N":
            s.next_episode()
            t, cur = 0, None
            continue
        if op in "Rr":
            s.reset(scheduler_reset=op == "R")
            if op == "R":
                t, cur = 0, None
            continue
        got = sm.nxt(s)
        res.evaluations += 1
        res.seen((case["kind"], case["buf"], L, n, case["bpfb"], t, got[0]))
        if t >= L:
            if got[0] != "episode-end":
                return ("no-end", f"{got[0]} {got[1] if got[0] == 'exc' else ''} after the last step instead of the episode end", h)
            continue
        if got[0] != "batch":
            return ("early-end", f"{got} at step {t} of {L}", h)
        t += 1
        bt = got[1]
        d = bt.done
        if d is None or np.asarray(d).shape != (b,) or np.asarray(d).dtype != bool:
            return ("done-form", f"done flags {d} for {b} rows", h)
        if np.asarray(d).tolist() != [t == L] * b:
            return ("done", f"done flags {np.asarray(d).tolist()} at step {t} of {L}", h)
        ids = rows(data, case, bt)
        if len(ids) != b:
            return ("rows", f"{len(ids)} rows for batch size {b}", h)
        for i, r in enumerate(ids):
            if r is None:
                return ("content", f"row {i} shows no recorded frame", h)
            if r[:2] != ids[i % n][:2]:
                return ("tiling", f"row {i} shows frame {r[:2]}, row {i % n} {ids[i % n][:2]}", h)
        if bt.files is None or list(bt.files) != [ids[i][2] for i in range(n)]:
            return ("files", f"file names {bt.files} with frames {[r[:2] for r in ids]}", h)
        if bt.mask is None or np.asarray(bt.mask).tolist() != [True] * n:
            return ("mask", f"mask {bt.mask}", h)
        if case["kind"] == "real":
            for i, r in enumerate(ids):
                if not (np.array_equal(np.asarray(bt.images1)[i], fm.gray(r[3], 0, 4, 5).astype(np.float32))
                        and np.array_equal(np.asarray(bt.images2)[i], fm.gray(r[3], 1, 4, 5).astype(np.float32))):
                    return ("images", f"the images of row {i} are not those of frame {r[:2]}", h)
        now = [r[:2] for r in ids[:n]]
        if t == 1:
            for q, f in now:
                if f + L > data.len[q]:
                    return ("start", f"a new episode starts at frame {f} of a sequence of {data.len[q]}", h)
        elif now != [(q, f + 1) for q, f in cur]:
            return ("frames", f"step {t} shows frames {now} after {cur}", h)
        cur = now
    return None


def plain(s, data, case, ops, res, seen):
    m = sm.Groups(sm.Src(3), case["bpfb"] if case["kind"] == "synth" else 1)
    m.ended = False
    for k, op in enumerate(ops):
        h = ops[:k + 1]
        if h not in seen:
            res.transitions += 1
            seen.add(h)
        if op in "Rr":
            s.reset(scheduler_reset=op == "R")
            m.reset(op == "R")
            if op == "R":
                m.ended = False
            continue
        want = m.next()
        if want is None and m.ended and case["buf"]:
            continue  # answered after a timeout only: explored with a controlled clock in C04
        m.ended = want is None
        got = sm.nxt(s)
        res.evaluations += 1
        res.seen((case["kind"], case["buf"], case["bpfb"], want, got[0]))
        if want is None:
            if got[0] != "end":
                return ("end", f"{got[0]} {got[1] if got[0] == 'exc' else ''} at the end of the data", h)
            continue
        if got[0] != "batch":
            return ("early-end", f"{got} while group {want} is due", h)
        if got[1].done is not None:
            return ("done", f"done flags {got[1].done} over a source without episodes", h)
        ids = rows(data, case, got[1])
        valid = [r[1] if r else None for r in ids[:2]]
        due = [2 * want, 2 * want + 1]
        due = [f if f < 5 else None for f in due]
        if [v for v, f in zip(valid, due) if f is not None] != [f for f in due if f is not None]:
            return ("stream", f"frames {valid} delivered, {due} due", h)
    if not case["buf"]:
        try:
            s.next_episode()
        except Exception:
            pass
        else:
            return ("no-error", "next_episode over a source without episodes is no error", ops)
    return None
