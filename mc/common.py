"""Runner shared by all checks: case distribution, evidence, verdict lines."""
import argparse
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class CaseTimeout(BaseException):
    """A case did not terminate: the code under test hangs."""


class Res:
    """What exploring one case covered and found (picklable)."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.extra = {}
        self.capped = 0

    def seen(self, obj):
        """Count a distinct observation / state; True when new in this case."""
        h = digest(obj)
        if h in self.distinct:
            return False
        self.distinct.add(h)
        return True

    def sample(self, obj, limit=2):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violate(self, sig, detail, **data):
        """sig: stable short identification of what fails (for known findings)."""
        if len(self.violations) < 5:
            self.violations.append({"sig": sig, "detail": detail, **data})

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


# ---------------------------------------------------------------- workers
_mod = None
_tmp = None
T_END = None  # when this run's time budget ends (explorations stop and are counted as capped)


def tmpdir():
    """A fresh scratch directory inside this run's scratch area."""
    return tempfile.mkdtemp(dir=_tmp)


def _init(modname, devices, cache, tmp, t_end=None):
    global _mod, _tmp, T_END
    T_END = t_end
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    _tmp = tmp
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.unraisablehook = lambda *_: None
    # whatever the code under test prints is not part of the verdict
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    from . import env

    shim = getattr(importlib.import_module(modname), "SHIM", True)
    env.setup(devices=devices, cache_dir=cache, shim=shim)
    _mod = importlib.import_module(modname)
    if hasattr(_mod, "prepare"):
        _mod.prepare()


def _alarm(signum, frame):
    raise CaseTimeout()


_limit = 90


def beat():
    """One execution ended: restart the watchdog (it bounds single executions)."""
    signal.setitimer(signal.ITIMER_REAL, _limit, 5)


def run_one(mod, case, tier, limit):
    global _limit
    _limit = limit
    res = Res()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    try:
        mod.run_case(case, tier, res)
    except CaseTimeout:
        res.violate("hang", f"no result within {limit} s (a hang in the code under test)")
    except Exception as e:
        tb = traceback.format_exc()
        if "/synthpix/" in tb:
            # an exception out of the code under test that no oracle expected
            last = [l.strip() for l in tb.splitlines() if "/synthpix/" in l][-1]
            res.violate(f"exception:{type(e).__name__}",
                        f"unexpected {type(e).__name__}: {e} at {last}", traceback=tb[-3000:])
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    for v in res.violations:
        v.setdefault("case", case)
    return res


def _work(batch, tier, limit):
    out = []
    for case in batch:
        try:
            out.append(run_one(_mod, case, tier, limit))
        except BaseException as e:
            return ("error", case, traceback.format_exc())
    return ("ok", out)


# ---------------------------------------------------------------- findings
def known_findings(prop):
    """{sig: text} of the findings listed for this property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                if len(parts) >= 3 and parts[1] == f"property={prop}" and parts[2].startswith("sig="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


# ---------------------------------------------------------------- main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--case", type=int, help="run only this case, in this process")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.property
    modname = "mc." + prop.lower()
    mod = importlib.import_module(modname)
    devices = getattr(mod, "DEVICES", 1)
    if callable(devices):
        devices = devices(a.tier)
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        if a.replay:
            return replay(mod, modname, devices, tmp, a)
        cases = list(mod.cases(a.tier, seed))
        if a.list:
            for i, c in enumerate(cases):
                print(i, c)
            return 0
        if a.case is not None:
            return one(modname, devices, tmp, cases[a.case], a.tier)
        return check(mod, modname, devices, tmp, prop, a, seed, cases, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _inproc(modname, devices, tmp):
    global _mod, _tmp
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    _tmp = tmp
    from . import env

    sys.unraisablehook = lambda *_: None
    shim = getattr(importlib.import_module(modname), "SHIM", True)
    env.setup(devices=devices, cache_dir=None, shim=shim)
    _mod = importlib.import_module(modname)
    if hasattr(_mod, "prepare"):
        _mod.prepare()
    return _mod


def one(modname, devices, tmp, case, tier):
    mod = _inproc(modname, devices, tmp)
    t = time.time()
    r = run_one(mod, case, tier, 600)
    print(case, "states", r.states, "transitions", r.transitions, "traces", r.traces,
          "evals", r.evaluations, "distinct", len(r.distinct), "extra", r.extra,
          f"{time.time()-t:.2f}s")
    for s in r.samples:
        print("  sample", s)
    for v in r.violations:
        print("  VIOL", json.dumps(v, indent=1, default=str)[:3000])
    return 1 if r.violations else 0


def replay(mod, modname, devices, tmp, a):
    with open(a.replay) as f:
        v = json.load(f)
    m = _inproc(modname, devices, tmp)
    if hasattr(m, "replay"):
        return m.replay(v)
    r = run_one(m, v["case"], v.get("tier", a.tier), 600)
    for w in r.violations:
        print("reproduced:", w["sig"], w["detail"])
    if not r.violations:
        print("not reproduced")
    return 1 if r.violations else 0


def check(mod, modname, devices, tmp, prop, a, seed, cases, t0):
    tier = a.tier
    budget = getattr(mod, "BUDGET", {"quick": 300, "thorough": 780})[tier]
    limit = getattr(mod, "CASE_LIMIT", {"quick": 90, "thorough": 600})[tier]
    cache = os.path.join(tmp, "xla") if getattr(mod, "XLA_CACHE", False) else None
    if cache:
        os.makedirs(cache, exist_ok=True)
    jobs = max(1, min(a.jobs, len(cases)))
    per = getattr(mod, "BATCH", None) or max(1, len(cases) // (jobs * 12))
    batches = [cases[i:i + per] for i in range(0, len(cases), per)]
    results, crashed, done = [], [], 0
    known = known_findings(prop)
    stop = False
    since = None  # when the first violation came in
    grace = {"quick": 15, "thorough": 90}[tier]  # for further ones, then the verdict is given
    error = None
    ctx = mp.get_context("spawn")
    queue = list(range(len(batches)))

    def new_pool(n):
        return cf.ProcessPoolExecutor(
            n, mp_context=ctx, initializer=_init, initargs=(modname, devices, cache, tmp, t0 + budget - 15))

    pool = new_pool(jobs)
    skipped, pending = 0, ()
    try:
        futs = {pool.submit(_work, batches[i], tier, limit): i for i in queue}
        pending = set(futs)
        while pending and not stop:
            left = budget - (time.time() - t0)
            if left <= 0:
                break
            if since and time.time() - since > grace:
                stop = True
                break
            fin, pending = cf.wait(pending, timeout=min(left, 5),
                                   return_when=cf.FIRST_COMPLETED)
            for f in fin:
                try:
                    r = f.result()
                except cf.process.BrokenProcessPool:
                    crashed.append(futs[f])
                    continue
                if r[0] == "error":
                    error = r
                    stop = True
                    break
                results.extend(r[1])
                done += len(r[1])
                fresh = {v["sig"] for x in results for v in x.violations} - set(known)
                if fresh and not since:
                    since = time.time()
                if len(fresh) >= 3 or sum(len(x.violations) for x in results) > 200:
                    stop = True
        skipped = sum(len(batches[futs[f]]) for f in pending)
    finally:
        procs = list((pool._processes or {}).values())
        pool.shutdown(wait=not pending and not stop, cancel_futures=True)
        for p in procs:
            try:
                p.terminate()
            except Exception:
                pass
    # a worker process that died: run its cases one by one in fresh processes
    for bi in sorted(crashed):
        if stop or time.time() - t0 > budget:
            break
        for case in batches[bi]:
            died = 0
            for _ in range(2):
                p1 = new_pool(1)
                try:
                    r = p1.submit(_work, [case], tier, limit).result(
                        timeout=max(5, budget - (time.time() - t0)))
                    if r[0] == "error":
                        error = r
                    else:
                        results.extend(r[1])
                        done += 1
                    break
                except cf.process.BrokenProcessPool:
                    died += 1
                except cf.TimeoutError:
                    skipped += 1
                    break
                finally:
                    for p in list((p1._processes or {}).values()):
                        p.terminate()
                    p1.shutdown(wait=False, cancel_futures=True)
            if died == 2:
                x = Res()
                x.violate("process-died", "the process running this case died twice", case=case)
                results.append(x)
    viols = [v for x in results for v in x.violations]
    if error and not [v for v in viols if v["sig"] not in known]:
        print(f"ERROR in harness, case {error[1]}:\n{error[2]}", file=sys.stderr)
        return 2
    return verdict(mod, prop, tier, seed, cases, results, viols, known, done, skipped, t0, tmp,
                   stop)


def verdict(mod, prop, tier, seed, cases, results, viols, known, done, skipped, t0, tmp, stop):
    distinct = set()
    for x in results:
        distinct |= x.distinct
    samples = []
    for x in results[:: max(1, len(results) // 4)]:
        for s in x.samples[:1]:
            samples.append(s)
        if len(samples) >= 4:
            break
    if not samples:
        samples = [str(c) for c in cases[:2]]
    extra = {}
    for x in results:
        for k, v in x.extra.items():
            extra[k] = extra.get(k, 0) + v
    capped = sum(x.capped for x in results)
    cov = {
        "states": sum(x.states for x in results) or len(distinct),
        "transitions": sum(x.transitions or x.evaluations for x in results),
        "traces_validated_against_impl": sum(x.traces or x.evaluations for x in results),
        "evaluations": sum(x.evaluations for x in results) or sum(x.traces for x in results),
        "distinct_nontrivial": len(distinct),
        "rule": getattr(mod, "RULE", ""),
        "samples": samples,
        "cases": len(cases),
        "cases_completed": done,
        "cases_skipped_by_time_budget": skipped,
        "cases_capped": capped,
        "exhaustive": bool(not skipped and not capped and not stop and done == len(cases)),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
        **extra,
    }
    fresh = {}
    hit = {}
    for v in viols:
        if v["sig"] in known:
            hit.setdefault(v["sig"], v)
        else:
            fresh.setdefault(v["sig"], v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
    for sig, v in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={prop} {known[sig]} [sig={sig}]")
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (sig, v) in enumerate(sorted(fresh.items(), key=lambda kv: len(str(kv[1].get("case"))))):
            rp = os.path.join(rd, f"{prop}-{i}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, **v}, f, indent=1, default=str)
            print(f"  {sig}: {v['detail']}")
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"OK property={prop} tier={tier} cases={done}/{len(cases)} states={cov['states']} "
          f"transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} "
          f"distinct={len(distinct)} wall={ev['wall_s']}s")
    return 0
