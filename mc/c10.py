"""C10: shutdown returns, ends the producer, releases a waiting consumer."""
from . import pfmodel as pm

LEVEL = "model_checking"
TECHNIQUE = 'stateless model checking of the real threads (controlled scheduler, virtual time, preemption bound)'
NOTE = 'Every schedule within the bounds in which shutdown happens at every position; deadlock, surviving producer and unreleased consumer are detected as states.'
RULE = ("executions of the real prefetching scheduler under the controlled scheduler with shutdown at every position; "
        "distinct = different observations (outcomes, waiting times, surviving threads)")
BOUNDS = {
    "quick": "streams of 0-3 batches, buffers 1-3, shutdown (once, twice) before/after 0-3 requests, with or without a pause, "
             "or from a second thread; <=3 deviations (2 with two controlling threads, 1 at every source line)",
    "thorough": "as quick with <=4 (3 with two controlling threads, 2 at every source line), slow producer calls",
}
ASSUMPTIONS = ["threads interleave at synchronisation operations and source lines",
               "virtual time: a wait with a timeout gives up only when nothing else can run"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for n in range(0, 4):
        for buf in (1, 2, 3):
            for i in range(0, n + 2):
                for tail in ("S", "PS", "SS", "SG", "PSG", "SGS"):
                    if i == 0 and tail[0] == "P":
                        continue
                    out.append(dict(n=n, buf=buf, ops=["G" * i + tail], pb=4 if T else 3))
                # a second thread shuts down
                if i and n <= 2 and buf <= 2:
                    out.append(dict(n=n, buf=buf, ops=["G" * i, "S"], pb=3 if T else 2))
                    out.append(dict(n=n, buf=buf, ops=["GP" + "G" * i, "S"], pb=2))
                # slow producer
                for c in range(0, min(n, 2) + 1):
                    for s in ("S", "SS"):
                        out.append(dict(n=n, buf=buf, ops=["G" * i + s], slow=[c], pb=2 if T else 1,
                                        slow_time=35.0 if c == 0 else 5.0))
    # consumer blocked on a slow producer, closer in another thread
    for buf in (1, 2):
        for c in (0, 1, 2):
            out.append(dict(n=3, buf=buf, ops=["G" * (c + 1), "S"], slow=[c], slow_time=500.0, pb=2, release=True,
                            max_steps=20000))
    # reset, then shutdown (a shutdown must end the producer of the new stream too)
    for n in (1, 2):
        for buf in (1, 2):
            for ops in ("GRS", "GRGS", "GRGPS", "SRGS", "SRGPS", "RS"):
                out.append(dict(n=n, buf=buf, ops=[ops], pb=3 if T else 2))
    # episodic
    for L in (1, 2):
        for buf in (1, 2):
            for ops in ("GS", "GNS", "GNGS", "GPS", "NS", "NPS"):
                out.append(dict(n=None, L=L, buf=buf, ops=[ops], pb=3 if T else 2))
    for n in (0, 1, 2):
        for buf in (1, 2):
            for ops in ("GS", "GPS", "S"):
                out.append(dict(n=n, buf=buf, ops=[ops], lines="synthpix/scheduler/", pb=2 if T else 1))
    return out


def oracle(case, w):
    slow = bool(case.get("slow"))
    shut = None
    for r in w.res:
        d, o, out, t0, t1, sr = r
        if o in "SRN" and out[0] == "exc":
            return dict(sig="exception-" + o, detail=f"{o} raised {out[1]}; {pm.hist(w)}")
        if o == "S":
            if shut is None:
                shut = t1
            if not slow and len(case["ops"]) == 1 and out[1]:
                return dict(sig="still-running", detail=f"producer still running after shutdown returned; {pm.hist(w)}")
            if t1 - t0 > 10:
                return dict(sig="slow-shutdown", detail=f"shutdown took {t1-t0} s; {pm.hist(w)}")
        if o == "G" and out[0] not in ("batch", "stop", "end"):
            return dict(sig="outcome", detail=f"request gave {out}; {pm.hist(w)}")
        if o == "R":
            shut = None
    if case.get("release"):
        si = [i for i, r in enumerate(w.res) if r[1] == "S"][0]
        s = w.res[si]
        for i, r in enumerate(w.res):
            if r[1] == "G" and w.opseq[i] < w.opseq[si] and r[4] > s[4] + 0.5:
                return dict(sig="not-released", detail=f"waiting consumer released only {r[4]-s[4]:.1f} s after shutdown; {pm.hist(w)}")
    bg = [(t.name, t.where) for t in w.threads if t.name in w.alive_at_end and t.name.startswith("bg")]
    last = [r for r in w.res if r[1] in "SR"]
    if bg and last and last[-1][1] == "S":
        return dict(sig="leaked-producer", detail=f"producer never terminates after shutdown: {bg}; {pm.hist(w)}")
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle)


replay = pm.replay_with(oracle)
