"""C08: episode starts are exactly the admissible ones, reproducible from the key."""
import itertools
import json
import os
import subprocess
import sys

from . import common
from . import epmodel, fsmodel as fm

LEVEL = "exploration"
TECHNIQUE = ("exhaustive enumeration of small sequence datasets, directory names, construction orders, abandonment strings and "
             "process hash seeds on the real episodic scheduler")
NOTE = ("Starts drawn over chains of episodes and keys are compared with the admissible set; the chain of episodes is compared over every "
        "abandonment string and, in child processes, over hash seeds.")
RULE = "distinct = different episodes (rows) drawn per dataset"
BOUNDS = {
    "quick": "8 datasets of 1-4 sequences with up to 3 admissible starts each (7 at most in all), every directory name of a list of 12, "
             "episodes of 1-3 steps, 240 draws (41 starts: 2880); abandonment strings to depth 4; hash seeds 0-5",
    "thorough": "600 draws; abandonment to depth 6; hash seeds 0-15",
}
ASSUMPTIONS = ["hidden directories are not searched", "draws are (pseudo-)uniform: with at most 9 starts, 240 draws miss one with probability below 1e-11; with at most 43, 2880 below 1e-27"]

NAMES = ["a", "run[1]", "a*b", "w?t", "[!x]", "sp ace", ".hid", "d.mat", "ünï", "[", "{a,b}", "x.y"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    sets = [{"a": 2}, {"a": 3}, {"a": 4}, {"a": 3, "b": 4}, {"b": 3, "a": 3, "c": 3}, {"x/b": 3, "x/a": 4, "c": 3},
            {"b/x": 4, "a/x": 3, "c/y/z": 4}, {"s10": 3, "s2": 4, "s1": 3, "S1": 3}]
    for ds in sets:
        for L in (1, 2, 3):
            ok = min(ds.values()) >= L
            out.append(dict(k="starts" if ok else "short", dirs=ds, L=L, draws=600 if T else 240, how="root"))
            if ok:
                out.append(dict(k="starts", dirs=ds, L=L, draws=600 if T else 240, how="files"))
                out.append(dict(k="abandon", dirs=ds, L=L, B=2, depth=6 if T else 4, key=seed))
        # one sequence one frame too short, wherever it stands
        for d in ds:
            e = dict(ds)
            e[d] = 2
            out.append(dict(k="short", dirs=e, L=3, how="root"))
    # longer sequences, and many rows
    for ds in ({"a": 41}, {"b": 3, "a": 30, "c": 12}):
        for L in (1, 3):
            out.append(dict(k="starts", dirs=ds, L=L, draws=5760 if T else 2880, how="root", B=32))
    for n in NAMES:
        if not n.startswith("."):  # hidden directories are not searched
            out.append(dict(k="starts", dirs={n: 3, "zz": 2}, L=2, draws=120, how="root"))
        out.append(dict(k="starts", dirs={n: 3}, L=2, draws=60, how="dirs"))
    for ds in sets:
        if len(ds) > 1:
            out.append(dict(k="hash", dirs=ds, L=2, B=3, seeds=16 if T else 6))
    return out


def chain(epi, sq, B, n):
    """First-step rows of n episodes."""
    out = []
    for i in range(n):
        b = epi.get_batch(B)
        out.append(tuple(sq.rows(b)))
        epi.next_episode()
    return out


def run_case(case, tier, res):
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler as E

    L = case["L"]
    if case["k"] == "hash":
        root = common.tmpdir()
        epmodel.Sequences(case["dirs"], root=root)
        outs = {}
        for hs in range(case["seeds"]):
            env = dict(os.environ, PYTHONHASHSEED=str(hs))
            r = subprocess.run([sys.executable, "-m", "mc.c08", json.dumps(dict(case, root=root))], cwd=common.VERIF, env=env,
                               capture_output=True, text=True, timeout=120)
            if r.returncode != 0:
                raise RuntimeError("child failed: " + r.stderr[-2000:])
            outs[hs] = r.stdout.strip().splitlines()[-1]
            res.evaluations += 1
            res.traces += 1
            res.seen(outs[hs])
            common.beat()
        if len(set(outs.values())) > 1:
            a = outs[0]
            b = next(h for h, o in outs.items() if o != a)
            res.violate("hash-seed", f"hash seeds 0 and {b} give different episodes for the same key: {a} / {outs[b]}")
        return
    sq = epmodel.Sequences(case["dirs"], shallow="root" == case.get("how") and case["k"] == "starts"
                           and all(d not in (".",) for d in case["dirs"]))
    if case["k"] == "short":
        for how in ("root", "files", "rdirs"):
            res.evaluations += 1
            res.seen((str(case["dirs"]), how))
            try:
                E(sq.base(how), 2, L)
            except ValueError:
                continue
            res.violate("short-accepted", f"sequences {case['dirs']} accepted for episodes of {L} steps")
            return
        return
    if case["k"] == "starts":
        want = sq.starts(L)
        got = set()
        B = case.get("B", 4)
        for key in range(3):
            epi = E(sq.base(case["how"]), B, L, key=jax.random.PRNGKey(key))
            for rows in chain(epi, sq, B, case["draws"] // (3 * B)):
                got |= set(rows)
                res.evaluations += 1
                res.transitions += 1
                res.seen((str(case["dirs"]), L, rows))
        if got - want:
            res.violate("inadmissible", f"episodes of {L} steps start at {sorted(map(str, got - want))}; {case['dirs']}")
        elif want - got:
            res.violate("never-drawn", f"{len(want - got)} of {len(want)} admissible starts never drawn in {case['draws']} draws: "
                                       f"{sorted(map(str, want - got))[:4]}; {case['dirs']}")
        # the chain depends on the key
        if len(want) > 2:
            chains = {tuple(chain(E(sq.base(case["how"]), 2, L, key=jax.random.PRNGKey(k)), sq, 2, 6)) for k in range(6)}
            if len(chains) < 2:
                res.violate("key-ignored", f"6 keys give the same episodes; {case['dirs']}")
        return
    # abandonment
    B = case["B"]
    depth = case["depth"]
    mk = lambda: E(sq.base("root"), B, L, key=jax.random.PRNGKey(case["key"]))
    ref = chain(mk(), sq, B, depth + 1)
    stack = [(fm.Rec(mk), 0, 0, "")]
    while stack:
        s, e, t, h = stack.pop()
        res.states += 1
        if len(h) >= depth:
            res.traces += 1
            continue
        for op in "GN":
            if op == "G" and t >= L:
                continue
            s2 = fm.clone(s)
            res.transitions += 1
            res.evaluations += 1
            if op == "N":
                s2.next_episode()
                stack.append((s2, e + 1, 0, h + op))
                continue
            rows = tuple(sq.rows(s2.get_batch(B)))
            res.seen((str(case["dirs"]), L, rows, t))
            if t == 0 and rows != ref[e]:
                res.violate("abandon", f"episode {e} after {h + op} is {rows}, but {ref[e]} when none is played; {case['dirs']}")
                return
            stack.append((s2, e, t + 1, h + op))


if __name__ == "__main__":
    from . import env

    env.setup()
    c = json.loads(sys.argv[1])
    import jax
    from synthpix.scheduler import EpisodicFlowFieldScheduler

    sq = epmodel.Sequences.__new__(epmodel.Sequences)
    sq.root = c["root"]
    from synthpix import scheduler as S

    base = S.MATFlowFieldScheduler([c["root"]], output_shape=(fm.H, fm.W))
    epi = EpisodicFlowFieldScheduler(base, c["B"], c["L"], key=jax.random.PRNGKey(4))
    o = []
    for _ in range(6):
        o.append([os.path.relpath(f, c["root"]) for f in epi.get_batch(c["B"]).files])
        epi.next_episode()
    print(json.dumps(o))
