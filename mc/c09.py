"""C09: prefetching delivers the wrapped scheduler's stream, whatever the schedule."""
from . import pfmodel as pm

LEVEL = "model_checking"
TECHNIQUE = 'stateless model checking of the real threads (controlled scheduler, virtual time, preemption bound)'
NOTE = "Every schedule of producer and consumer within the bounds is executed on the real class and its delivered stream compared with the wrapped model's stream."
RULE = ("executions of the real prefetching scheduler under the controlled scheduler; distinct = different "
        "observations (per-request outcome, waiting time, final thread states)")
BOUNDS = {
    "quick": "streams of 0-3 batches, buffers 1-3, <=1 long consumer pause, <=1 slow producer call; <=2 deviations "
             "(3 without pauses), <=1 with early timers, <=1 at every source line",
    "thorough": "streams of 0-4 batches, buffers 1-3, <=2 pauses, <=2 slow calls; <=4 deviations, 2 with early timers, "
                "2 at every source line",
}
ASSUMPTIONS = ["threads interleave at synchronisation operations and source lines (sequential consistency, as CPython gives)",
               "virtual time: timeouts expire only when every thread waits, or as an explored deviation"]


def gets(n, slow, extra=2):
    return n + extra + 4 * len(slow)


def cases(tier, seed):
    out = []
    thorough = tier == "thorough"
    N = range(0, 5 if thorough else 4)
    for n in N:
        for buf in (1, 2, 3):
            out.append(dict(n=n, buf=buf, ops=["G" * gets(n, ())], pb=4 if thorough else 3))
            # long pauses of the consumer before request i
            for i in range(0, n + 2):
                g = "G" * gets(n, ())
                out.append(dict(n=n, buf=buf, ops=[g[:i] + "P" + g[i:]], pb=3 if thorough else 2))
                if thorough:
                    for j in range(i, n + 2):
                        out.append(dict(n=n, buf=buf, pb=2,
                                        ops=[g[:i] + "P" + g[i:j] + "P" + g[j:]]))
            # slow calls of the producer
            for c in range(0, n + 1):
                st = 35.0 if c == 0 else 5.0
                g = "G" * gets(n, (c,))
                # slow, but within the timeout
                out.append(dict(n=n, buf=buf, ops=[g], slow=[c], slow_time=5.0 if c == 0 else 1.0,
                                pb=2 if thorough else 1))
                out.append(dict(n=n, buf=buf, ops=[g], slow=[c], slow_time=st, pb=2 if thorough else 1))
                for i in range(0, n + 1):
                    out.append(dict(n=n, buf=buf, ops=[g[:i] + "P" + g[i:]], slow=[c], slow_time=st,
                                    pb=2 if thorough else 1))
                if thorough:
                    for c2 in range(c + 1, n + 1):
                        out.append(dict(n=n, buf=buf, ops=["G" * gets(n, (c, c2))], slow=[c, c2],
                                        slow_time=5.0, pb=1))
            # timers landing first
            if n <= 2:
                out.append(dict(n=n, buf=buf, ops=["G" * (n + 4)], early=True, pb=2 if thorough else 1))
                out.append(dict(n=n, buf=buf, ops=["GP" + "G" * (n + 3)], early=True, pb=2 if thorough else 1))
    for n in (0, 1, 2):
        for buf in (1, 2):
            for ops in ("G" * (n + 1), "GP" + "G" * n):
                out.append(dict(n=n, buf=buf, ops=[ops], lines="synthpix/scheduler/",
                                pb=2 if thorough else 1))
    return out


def oracle(case, w):
    n = case["n"]
    got = 0
    may_wait = bool(case.get("slow")) or case.get("early")
    for i, r in enumerate(w.res):
        d, o, out, t0, t1, sr = r
        if out[0] == "batch":
            if out[1] != got:
                what = "lost" if out[1] > got else "repeated or reordered"
                return dict(sig="stream", detail=f"batch {out[1]} delivered where batch {got} was due ({what}); {pm.hist(w)}")
            got += 1
        elif out[0] == "stop":
            if got < n:
                if not (may_wait and pm.early_stop_ok(case, r, got == 0)):
                    return dict(sig="early-end", detail=f"end of data after {got} of {n} batches; {pm.hist(w)}")
        else:
            return dict(sig="outcome:" + out[0], detail=f"unexpected outcome {out}; {pm.hist(w)}")
    if got < n and not case.get("early"):
        return dict(sig="lost", detail=f"only {got} of {n} batches delivered; {pm.hist(w)}")
    if got < n and case.get("early") and len(w.res) - got > sum(c[0] > 0 for c in w.choices) + 2:
        return dict(sig="lost", detail=f"only {got} of {n} batches delivered; {pm.hist(w)}")
    if w.started_threads > 1:
        return dict(sig="threads", detail=f"{w.started_threads} producer threads were started for one stream")
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle)


replay = pm.replay_with(oracle)
