"""Explores every fault of one configuration update (run under the injector of fault.c by mc.c27).

Prints one JSON line per event: {"beat": n}, {"bad": [signature, text, faults]} or {"done": {...}}.
"""
import builtins
import ctypes
import errno
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa: E402

NONE, BEFORE, AFTER, TORN, FAIL, SHORT = range(6)
NAMES = ["none", "process dies before", "process dies after", "process dies within, bytes written:", "fails with errno", "short write, bytes:"]


def main():
    spec = json.load(sys.stdin)
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    env.setup(devices=1, cache_dir=None, shim=True)
    from mc.c26 import same
    import synthpix.sanity as sanity
    from synthpix.utils import load_configuration

    lib = ctypes.CDLL(os.environ["LD_PRELOAD"])
    lib.fault_log.restype = ctypes.c_char_p
    lib.fault_add.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long]
    d, text, updates = spec["dir"], spec["text"], spec["updates"]
    real = os.path.join(d, "real", "config.yaml")
    os.makedirs(os.path.dirname(real))
    path = real
    if spec["via"] == "symlink":
        path = os.path.join(d, "link.yaml")
        os.symlink(real, path)
    elif spec["via"] == "relative":
        os.chdir(os.path.dirname(real))
        path = "config.yaml"

    def restore():
        for n in os.listdir(os.path.dirname(real)):
            os.remove(os.path.join(os.path.dirname(real), n))
        with open(real, "w", encoding="utf-8") as f:
            f.write(text)

    def act():
        if spec["via"] == "panel":
            answers = iter(["1", "y"])
            builtins.input = lambda *a: next(answers)
            sanity.missing_speeds_panel(path)
        else:
            sanity.update_config_file(path, updates)

    restore()
    old = dict(load_configuration(path))
    new = dict(old, **updates)
    stats = dict(runs=0, ops=0, died=0, failed=0, log="")

    def run(faults):
        """(outcome, number of operations, their log) of one update with faults."""
        restore()
        stats["runs"] += 1
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 0
            try:
                os.close(r)
                lib.fault_reset(d.encode())
                for f in faults:
                    lib.fault_add(*f)
                lib.fault_arm(1)
                try:
                    act()
                except BaseException as e:
                    code = 3
                lib.fault_arm(0)
                os.write(w, json.dumps([lib.fault_count(), lib.fault_log().decode()[-20000:]]).encode())
            finally:
                os._exit(code)
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        n, log = json.loads(buf) if buf else (None, "")
        return {0: "ok", 3: "raised", 77: "died"}.get(code, f"code {code}"), n, log

    def say(o):
        out.write(json.dumps(o) + "\n")
        out.flush()

    def describe(faults, log):
        ops = log.split()
        return "; ".join(f"at operation {k} ({ops[k - 1] if k <= len(ops) else '?'}): {NAMES[a]} {v}" for k, a, v in faults)

    def check(faults, log0):
        outcome, n, log = run(faults)
        if stats["runs"] % 20 == 0:
            say({"beat": stats["runs"]})
        stats["died"] += outcome == "died"
        stats["failed"] += outcome == "raised"
        what = describe(faults, log0)
        if outcome.startswith("code"):
            say({"bad": ["crash", f"update with {what}: the process ends with {outcome}", faults]})
            return None
        try:
            got = dict(load_configuration(path))
        except Exception as e:
            say({"bad": ["lost", f"update with {what}: the file cannot be loaded afterwards: {type(e).__name__}: {str(e)[:120]}", faults]})
            return None
        is_old, is_new = same(got, old), same(got, new)
        if not (is_old or is_new):
            say({"bad": ["partial", f"update with {what}: the file afterwards holds neither the old nor the new configuration: {str(got)[:300]}", faults]})
            return None
        if outcome == "ok" and not is_new:
            say({"bad": ["silent", f"update with {what}: returns normally although the file holds the old configuration", faults]})
            return None
        try:
            sanity.update_config_file(path, updates)
            got = dict(load_configuration(path))
        except Exception as e:
            say({"bad": ["again", f"update with {what}: updating again then fails: {type(e).__name__}: {str(e)[:120]}", faults]})
            return None
        if not same(got, new):
            say({"bad": ["again", f"update with {what}: updating again does not give the new configuration", faults]})
            return None
        return outcome, n, log

    if spec.get("replay") is not None:
        check([tuple(f) for f in spec["replay"]], "")
        say({"done": stats})
        return
    outcome, n, log = run([])
    if outcome != "ok":
        say({"bad": ["error", f"update without any fault {outcome}", []]})
        return
    stats["ops"], stats["log"] = n, log[:2000]
    ops = [(o.split(":")[0], int(o.split(":")[1])) for o in log.split()]
    if not ops:
        say({"nothing": True})
        return
    errs = {"open": [errno.EACCES, errno.ENOSPC], "rename": [errno.EXDEV, errno.EACCES]}
    singles = []
    for k, (name, size) in enumerate(ops, 1):
        singles += [(k, BEFORE, 0), (k, AFTER, 0)]
        singles += [(k, FAIL, e) for e in errs.get(name, [errno.ENOSPC, errno.EIO])]
        if name in ("write", "sendfile"):
            lengths = set(range(size)) if size <= spec["torn"] else set(range(0, size, size // spec["torn"] + 1)) | {1, size - 1, size // 2}
            singles += [(k, TORN, v) for v in sorted(lengths)] + [(k, SHORT, v) for v in sorted({1, size // 2, size - 1}) if 0 < v < size]
    for f in singles:
        r = check([f], log)
        if r is None:
            return
        # what follows a failed or short operation can be hit in turn
        if f[1] in (FAIL, SHORT) and r[1]:
            nxt = [(o.split(":")[0], int(o.split(":")[1])) for o in r[2].split()]
            for j in range(f[0] + 1, len(nxt) + 1):
                second = [(j, BEFORE, 0), (j, AFTER, 0), (j, FAIL, errno.EIO)]
                if nxt[j - 1][0] == "write" and nxt[j - 1][1] > 1:
                    second += [(j, TORN, nxt[j - 1][1] // 2)]
                for g in second:
                    r2 = check([f, g], r[2])
                    if r2 is None:
                        return
                    if spec["depth"] > 2 and g[1] == FAIL and r2[1]:
                        for m in range(j + 1, r2[1] + 1):
                            for a in (BEFORE, AFTER):
                                if check([f, g, (m, a, 0)], r2[2]) is None:
                                    return
    say({"done": stats})


main()
