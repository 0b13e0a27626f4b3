"""C11: reset of the prefetching scheduler starts a clean stream."""
from . import pfmodel as pm

LEVEL = "model_checking"
TECHNIQUE = 'stateless model checking of the real threads (controlled scheduler, virtual time, preemption bound)'
NOTE = 'Every schedule within the bounds with resets at every position; stream and generation compared with the wrapped model.'
RULE = ("executions of the real prefetching scheduler under the controlled scheduler with resets at every position; "
        "distinct = different observations")
BOUNDS = {
    "quick": "streams of 0-3 batches, buffers 1-3, one or two resets at every position, after a pause or a shutdown; "
             "<=2 deviations, <=1 with slow producer or at every source line",
    "thorough": "as quick with <=4 (2 with slow producer or at every source line)",
}
ASSUMPTIONS = ["threads interleave at synchronisation operations and source lines", "virtual time"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for n in range(0, 4):
        tail = "G" * (n + 2)
        for buf in (1, 2, 3):
            for i in range(0, n + 2):
                pre = "G" * i
                for mid in ("R", "PR", "SR", "RR", "PSR"):
                    if i == 0 and mid[0] == "P":
                        continue
                    out.append(dict(n=n, buf=buf, ops=[pre + mid + tail], pb=4 if T and n < 3 else 3 if T else 2))
                if n in (1, 2):
                    for j in range(0, n + 1):
                        out.append(dict(n=n, buf=buf, ops=[pre + "R" + "G" * j + "R" + tail], pb=3 if T else 2))
                for c in range(0, min(n, 2) + 1):
                    if i:
                        out.append(dict(n=n, buf=buf, ops=[pre + "R" + tail], slow=[c],
                                        slow_time=35.0 if c == 0 else 5.0, pb=2 if T else 1))
    for n in (1, 2):
        for buf in (1, 2):
            # the first batch of a pass takes longer than the steady timeout
            for pre in ("", "G", "GG", "GP", "GS"):
                out.append(dict(n=n, buf=buf, ops=[pre + "R" + "G" * (n + 1)], slow_first=5.0, pb=2))
            for ops in ("GR" + "G" * n, "GPR" + "G" * n):
                out.append(dict(n=n, buf=buf, ops=[ops], lines="synthpix/scheduler/", pb=2 if T else 1))
    return out


def oracle(case, w):
    n = case["n"]
    gen, got = None, 0  # generation being delivered
    top = -1  # highest generation delivered before the last reset
    after_shutdown = False
    for r in w.res:
        d, o, out, t0, t1, sr = r
        if o in "RS":
            if out[0] == "exc":
                return dict(sig="exception-" + o, detail=f"{o} raised {out[1]}; {pm.hist(w)}")
            after_shutdown = o == "S"
            if o == "R":
                if gen is not None:
                    top = max(top, gen)
                gen, got = None, 0
            continue
        if after_shutdown:
            continue
        if out[0] == "batch":
            g, k = divmod(out[1], 1000)
            if gen is None:
                gen = g
                if g <= top:
                    return dict(sig="stale", detail=f"batch of an earlier pass delivered after reset; {pm.hist(w)}")
            if g != gen:
                return dict(sig="stale", detail=f"batches of two passes mixed; {pm.hist(w)}")
            if k != got:
                return dict(sig="stream", detail=f"batch {k} delivered where {got} was due; {pm.hist(w)}")
            got += 1
        elif out[0] == "stop":
            if got < n and not (case.get("slow") and pm.early_stop_ok(case, r, got == 0)):
                return dict(sig="early-end", detail=f"end of data after {got} of {n} batches; {pm.hist(w)}")
        else:
            return dict(sig="outcome", detail=f"unexpected outcome {out}; {pm.hist(w)}")
    bg = sorted(t.name for t in w.threads if t.name.startswith("bg") and not t.done)
    alive = [x for x in w.alive_at_end if x.startswith("bg")]
    if len(alive) > 1:
        return dict(sig="old-producer", detail=f"{len(alive)} producers alive at the end; {pm.hist(w)}")
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle)


replay = pm.replay_with(oracle)
