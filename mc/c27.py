"""C27: a crash while updating a configuration file never loses it."""
import json
import os
import subprocess
import sys
import tempfile

from . import common, env

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of crash points, torn writes, failing operations and their combinations on the real function, through "
             "an operation-level fault injector under the process")
NOTE = ("A preloaded library counts every operation of the process that can change a file in the directory (open for writing, write, rename, "
        "unlink, truncate, sync, close, ...); for each one the update is re-executed with the process ending before, after or (for every "
        "number of bytes) within it, with the operation failing, and with a second fault anywhere after a failure. The oracle loads the file.")
RULE = "distinct = different (update, fault combination)"
BOUNDS = {
    "quick": "14 updates of files up to 9 kB (direct, through a symbolic link, relative, from the missing-speeds dialogue), all single faults with "
             "all torn lengths up to 250 per write (30 spread ones for the longest file), all pairs whose first is a failure or short write",
    "thorough": "24 updates, torn lengths up to 4000 per write, triples of faults",
}
ASSUMPTIONS = ["operations take effect in the order issued (a process dies, the machine does not)", "files are changed through libc, as CPython does"]
XLA_CACHE = False
CASE_LIMIT = {"quick": 120, "thorough": 600}

BIG = "".join(f"key_{i}: value number {i}\n" for i in range(340))
MID = "seed: 0\nname: off\nranges: [[0.1, 1], [2, 3]]\nfile_list:\n" + "".join(f"  - /data/flows/part_{i}.h5\n" for i in range(60))
SMALL = "seed: 0\nname: 'no'\nfile_list:\n  - a.h5\n  - b.h5\nmax_speed_x: none\n"
SPEEDS = {"min_speed_x": -1.5, "max_speed_x": 2.25, "min_speed_y": -0.5, "max_speed_y": 1.0}


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for text, ups in ((SMALL, [SPEEDS, {}, {"name": "x"}, {"file_list": ["c.h5"]}, {"more": ["y" * 50] * 10}]), (MID, [SPEEDS, {"file_list": ["one.h5"]}]),
                      ("", [SPEEDS]), ("# only a comment\n", [{"a": 1}]), (BIG, [SPEEDS] + ([{"file_list": []}] if T else []))):
        for u in ups:
            out.append(dict(text=text, updates=u, via="path"))
    out += [dict(text=SMALL, updates=SPEEDS, via="symlink"), dict(text=SMALL, updates=SPEEDS, via="relative"), dict(text=None, updates=SPEEDS, via="panel"),
            dict(text="repo", updates=SPEEDS, via="path")]
    if T:
        out += [dict(text=t, updates=u, via=v) for t in (MID, SMALL) for u in (SPEEDS, {"name": "z" * 300}) for v in ("symlink", "relative")]
    for c in out:
        c["torn"], c["depth"] = (4000, 3) if T else (250, 2)
        if c["text"] == BIG:
            c["torn"] = 300 if T else 30
    return out


def explore(case, res, replay=None):
    import h5py
    import numpy as np

    d = tempfile.mkdtemp(dir=common.tmpdir())
    work = os.path.join(d, "work")
    os.makedirs(work)
    so = os.path.join(d, "fault.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(env.VERIF, "mc", "fault.c"), "-ldl"], check=True)
    text, updates = case["text"], case["updates"]
    if case["via"] == "panel":
        p = os.path.join(d, "data.h5")
        v = np.zeros((2, 2, 2, 2), np.float32)
        v[0, 0, 0], v[1, 1, 1] = (SPEEDS["min_speed_x"], SPEEDS["min_speed_y"]), (SPEEDS["max_speed_x"], SPEEDS["max_speed_y"])
        with h5py.File(p, "w") as f:
            f["flow"] = v
        text = f"seed: 1\nfile_list:\n  - {p}\nname: 'on'\n"
    elif text == "repo":
        with open(os.path.join(env.REPO, "config", "test_data.yaml"), encoding="utf-8") as f:
            text = f.read()
    spec = dict(dir=work, text=text, updates=updates, via=case["via"], torn=case["torn"], depth=case["depth"], replay=replay)
    e = dict(os.environ, LD_PRELOAD=so, JAX_PLATFORMS="cpu", VERIF_REPO=env.REPO, TMPDIR=d)
    with subprocess.Popen([sys.executable, "-m", "mc.crashchild"], cwd=env.VERIF, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True) as p:
        p.stdin.write(json.dumps(spec))
        p.stdin.close()
        done = None
        for line in p.stdout:
            common.beat()
            o = json.loads(line)
            if "bad" in o:
                sig, what, faults = o["bad"]
                res.violate(sig, f"({case['via']}) {what}", faults=faults)
            elif o.get("nothing"):
                raise RuntimeError("the fault injector sees no operation of the update: nothing was explored")
            elif "done" in o:
                done = o["done"]
    if done is None and not res.violations:
        raise RuntimeError(f"the exploring process ended with {p.returncode}")
    return done


def run_case(case, tier, res):
    done = explore(case, res)
    if done:
        res.evaluations += done["runs"]
        res.traces += done["runs"]
        res.states += done["runs"]
        res.transitions += done["ops"]
        for i in range(done["runs"]):
            res.seen((repr(case), i))
        res.sample(dict(via=case["via"], operations=done["log"][:300], executions=done["runs"], died=done["died"], raised=done["failed"]))
