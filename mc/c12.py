"""C12: prefetching keeps episodes aligned."""
import itertools

from . import pfmodel as pm

LEVEL = "model_checking"
TECHNIQUE = 'stateless model checking: all operation strings x all schedules within bounds on the real class'
NOTE = 'All operation strings to the depth and all schedules within the bounds; each delivery compared with the episode model.'
RULE = ("executions of the real prefetching scheduler over an episodic model under the controlled scheduler, for every "
        "operation string over {step, next episode, reset}; distinct = different observations")
BOUNDS = {
    "quick": "episode lengths 1-3, buffers 1,2,4, every string of 4 operations at <=1 deviation, of 3 at <=2; "
             "strings of 4 steps with one slow producer call or one pause at <=1",
    "thorough": "strings of 5 operations at <=2 deviations, 4 at <=3; slow calls at <=2",
}
ASSUMPTIONS = ["threads interleave at synchronisation operations and source lines", "virtual time"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for L in (1, 2, 3):
        for buf in (1, 2, 4):
            for ops in itertools.product("GNR", repeat=5 if T else 4):
                out.append(dict(n=None, L=L, buf=buf, ops=["".join(ops)], pb=2 if T else 1))
            for ops in itertools.product("GNR", repeat=4 if T else 3):
                out.append(dict(n=None, L=L, buf=buf, ops=["".join(ops) + "G"], pb=3 if T else 2))
            for ops in ("GNGGN", "GNGNG", "NGGNG", "GGNGG", "GNNGG", "GRGNG", "NNGGG", "GGGNG"):
                for i in range(1, 5):
                    out.append(dict(n=None, L=L, buf=buf, ops=[ops[:i] + "P" + ops[i:]], pb=2 if T else 1))
            # a next_episode that gives up waiting, then a reset
            for ops in ("GNR", "GNRN", "GNGR", "GNNR"):
                for c in range(1, L + 1):
                    for st in (3.0, 5.0, 50.0):
                        out.append(dict(n=None, L=L, buf=buf, ops=[ops + "GGG"], slow=[c], slow_time=st, pb=1))
            for ops in ("GNGGN", "GNGNG", "NGGNG", "GGNGG", "GNNGG", "GRGNG", "NNGGG", "GGGNG"):
                for c in range(0, 5):
                    out.append(dict(n=None, L=L, buf=buf, ops=[ops + "GGG"], slow=[c],
                                    slow_time=35.0 if c == 0 else 5.0, pb=2 if T else 1))
    for L in (1, 2):
        for ops in ("GNG", "NGG", "GGG", "GNN"):
            out.append(dict(n=None, L=L, buf=1, ops=[ops], lines="synthpix/scheduler/", pb=2 if T else 1))
            if L == 2:
                out.append(dict(n=None, L=L, buf=1, ops=[ops], early=True, pb=2 if T else 1))
    return out


def oracle(case, w):
    L = case["L"]
    t, ep = 0, None
    top = -1
    may_wait = bool(case.get("slow")) or case.get("early")
    for r in w.res:
        d, o, out, t0, t1, sr = r
        if o in "NR":
            if out[0] == "exc":
                return dict(sig="exception-" + o, detail=f"{o} raised {out[1]}; {pm.hist(w)}")
            if ep is not None:
                top = max(top, ep)
            t, ep = 0, None
        elif o == "G":
            if out[0] == "batch":
                e, k = divmod(out[1], 1000)
                if t >= L:
                    return dict(sig="no-end", detail=f"batch delivered after the last step; {pm.hist(w)}")
                if ep is None:
                    if e <= top:
                        return dict(sig="stale", detail=f"batch of abandoned episode {e} delivered (last was {top}); {pm.hist(w)}")
                    ep = e
                if e != ep:
                    return dict(sig="stale" if e < ep else "mixed", detail=f"episodes {ep} and {e} mixed; {pm.hist(w)}")
                if k != t:
                    return dict(sig="misaligned", detail=f"step {k} delivered where step {t} was due; {pm.hist(w)}")
                t += 1
            elif out[0] == "end":
                if t < L:
                    return dict(sig="early-episode-end", detail=f"episode end after {t} of {L} steps; {pm.hist(w)}")
            elif out[0] == "stop":
                if t >= L:
                    return dict(sig="stop-for-end", detail=f"end of data instead of episode end; {pm.hist(w)}")
                if not (may_wait and pm.early_stop_ok(case, r, False)):
                    return dict(sig="early-stop", detail=f"end of data in an endless episodic stream; {pm.hist(w)}")
            else:
                return dict(sig="outcome", detail=f"unexpected outcome {out}; {pm.hist(w)}")
        if sr != L - t:
            return dict(sig="steps-remaining", detail=f"steps remaining {sr}, expected {L - t}; {pm.hist(w)}")
    alive = [x for x in w.alive_at_end if x.startswith("bg")]
    if len(alive) > 1:
        return dict(sig="old-producer", detail=f"{len(alive)} producers alive at the end; {pm.hist(w)}")
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle)


replay = pm.replay_with(oracle)
