"""C07: every row of an episode plays consecutive frames of one sequence."""
import itertools

import numpy as np

from . import common
from . import epmodel, fsmodel as fm

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration of the real episodic scheduler over real files: all operation strings, all small "
             "datasets and options, against an episode model")
NOTE = "Every operation string within the bounds on the real classes and files; rows identified by content and by name."
RULE = "distinct = different (options, rows of the episode, step, outcome)"
BOUNDS = {
    "quick": "1-3 sequences of 1-4 frames, episodes of 1-3 steps, 1-3 rows, base shuffled or not, looping or not, with images or not, "
             "keys 0-3; strings over {step, next episode, reset, wrong size} to depth 5",
    "thorough": "keys 0-9, depth 7",
}
ASSUMPTIONS = ["all frames are readable (one unreadable frame: see the known finding corrupt-frame-shift)"]


# file names of several lengths and characters: a sequence is played in the order of its names
NAMES = [["a1", "a10", "a2", "b"], ["frame_1", "frame_10", "frame_100", "frame_2"], ["B", "a", "aa", "b c"], ["10", "9", "_", "a.b"], ["f-1", "f.1", "f0", "fé"]]


def names_of(case):
    return {"names": lambda k: NAMES[case["names"]][k] + ".mat"} if "names" in case else {}


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    sets = [{"a": 1}, {"a": 2}, {"a": 3}, {"a": 4}, {"a": 2, "b": 3}, {"a": 3, "b": 3}, {"x/b": 3, "x/a": 2, "c": 4}]
    for ds in sets:
        for L in (1, 2, 3):
            if L > min(ds.values()):
                continue
            for B in (1, 2, 3):
                for rnd, loop in itertools.product((False, True), repeat=2):
                    for key in range(10 if T else 4):
                        out.append(dict(dirs=ds, L=L, B=B, rnd=rnd, loop=loop, key=key, images=key % 2 == 1,
                                        depth=7 if T else 5, how=["root", "files", "dirs", "mixed"][key % 4]))
    for B in (1, 2, 3):
        for at in range(3):
            out.append(dict(corrupt=at, dirs={"a": 3}, L=3, B=B))
        for names in range(len(NAMES)):
            for ds in ({"a": 4}, {"a": 3, "b": 4}):
                for L in (2, 3):
                    out.append(dict(dirs=ds, L=L, B=B, rnd=names % 2 == 1, loop=B == 2, key=B, images=L == 2, depth=6 if T else 4,
                                    how=["root", "files", "dirs", "mixed"][(names + L) % 4], names=names))
    return out


def corrupt(case, res):
    """A frame that cannot be read must not make the rows play other frames."""
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler

    sq = epmodel.Sequences(case["dirs"])
    L, B = case["L"], case["B"]
    d = next(iter(sq.frames))
    with open(sq.frames[d][case["corrupt"]], "wb") as f:
        f.write(b"not a data file")
    epi = EpisodicFlowFieldScheduler(sq.base(), B, L, key=jax.random.PRNGKey(0))
    for t in range(L):
        res.evaluations += 1
        try:
            b = epi.get_batch(B)
        except Exception:
            return
        mask = np.asarray(b.mask)
        ids = sq.rows(b)
        bad = [(i, r) for i, r in enumerate(ids) if mask[i] and r != (d, t)]
        if bad:
            res.violate("corrupt-frame-shift", f"frame {case['corrupt']} of the only sequence is unreadable: at step {t} "
                                               f"rows {[(i, r and r[1]) for i, r in bad]} play other frames, marked valid (rows={B})")
            return


def run_case(case, tier, res):
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler
    from synthpix.scheduler.protocol import EpisodeEnd

    if "corrupt" in case:
        return corrupt(case, res)
    sq = epmodel.Sequences(case["dirs"], **names_of(case))
    L, B = case["L"], case["B"]

    def mk():
        base = sq.base(case["how"], randomize=case["rnd"], loop=case["loop"], include_images=case["images"],
                       key=jax.random.PRNGKey(case["key"] + 50))
        return EpisodicFlowFieldScheduler(base, B, L, key=jax.random.PRNGKey(case["key"]))

    epi = fm.Rec(mk)
    starts = sq.starts(L)
    stack = [(epi, 0, None, ())]
    while stack:
        s, t, rows, h = stack.pop()
        res.states += 1
        if len(h) >= case["depth"]:
            res.traces += 1
            continue
        for op in ("G", "N", "R", "X"):
            if op == "X" and (not h or h[-1] == "X"):
                continue
            s2 = fm.clone(s)
            h2 = h + (op,)
            res.transitions += 1
            res.evaluations += 1
            common.beat()
            t2, rows2 = t, rows
            where = f"after {''.join(h2)} (L={L}, rows={B}, {case['dirs']}, shuffled={case['rnd']}, loop={case['loop']})"
            if op == "X":
                try:
                    s2.get_batch(B + 1)
                except ValueError:
                    pass
                else:
                    res.violate("size", f"a batch of {B+1} was accepted {where}")
                    return
            elif op in "NR":
                (s2.next_episode if op == "N" else s2.reset)()
                t2, rows2 = 0, None
            else:
                try:
                    b = s2.get_batch(B)
                except EpisodeEnd:
                    if t < L:
                        res.violate("early-end", f"episode end after {t} steps {where}")
                        return
                    b = None
                except StopIteration:
                    res.violate("stop", f"end of data at step {t} {where}")
                    return
                if b is not None:
                    if t >= L:
                        res.violate("no-end", f"a batch after the last step {where}")
                        return
                    ids = sq.rows(b)
                    if len(ids) != B or None in ids or not np.asarray(b.mask).all():
                        res.violate("rows", f"rows {ids}, mask {b.mask} {where}")
                        return
                    if tuple(b.files) != tuple(sq.frames[d][k] for d, k in ids):
                        res.violate("names", f"file names {b.files} for rows {ids} {where}")
                        return
                    if t == 0:
                        rows2 = [(d, k) for d, k in ids]
                        bad = [r for r in rows2 if r not in starts]
                        if bad:
                            res.violate("start", f"episode starts at {bad} {where}")
                            return
                    else:
                        want = [(d, k + t) for d, k in rows]
                        if ids != want:
                            res.violate("misaligned", f"step {t} plays {ids}, expected {want} {where}")
                            return
                    if case["images"]:
                        for i, (d, k) in enumerate(ids):
                            tag = next(tg for tg, v in sq.tag.items() if v == (d, k))
                            if not (np.array_equal(b.images1[i], fm.gray(tag, 0)) and
                                    np.array_equal(b.images2[i], fm.gray(tag, 1))):
                                res.violate("images", f"images of row {i} are not those of its frame {where}")
                                return
                    elif b.images1 is not None or b.images2 is not None:
                        res.violate("images", f"unrequested images {where}")
                        return
                    t2 = t + 1
            if s2.steps_remaining() != L - t2:
                res.violate("remaining", f"{s2.steps_remaining()} steps remaining, {L-t2} left {where}")
                return
            res.seen((str(case["dirs"]), L, B, op, t2, str(rows2)))
            stack.append((s2, t2, rows2, h2))
    res.sample({"case": case, "states": res.states})
