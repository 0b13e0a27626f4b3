"""C13: an error in the producer reaches the consumer as an error."""
from . import pfmodel as pm

LEVEL = "fault_enumeration"
TECHNIQUE = 'fault enumeration: an error at every call x all schedules within bounds, on the real class'
NOTE = 'Every fault position and every schedule within the bounds.'
RULE = ("an error injected at every call made of the wrapped scheduler, every schedule within the bound; distinct = "
        "different observations")
BOUNDS = {
    "quick": "streams of 0-3 batches, buffers 1-3, fault at every call, then requests, shutdown or reset; <=2 deviations",
    "thorough": "as quick with <=4 deviations, 2 at every source line",
}
ASSUMPTIONS = ["threads interleave at synchronisation operations and source lines", "virtual time"]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    for n in range(0, 4):
        for buf in (1, 2, 3):
            for f in range(0, n + 1):
                g = "G" * (f + 1)
                for tail in ("", "GG", "S", "R" + "G" * (n + 1), "GS", "GR" + "G" * (n + 1)):
                    out.append(dict(n=n, buf=buf, ops=[g + tail], fail_at=f, pb=4 if T else 2))
                for i in range(0, f + 1):
                    out.append(dict(n=n, buf=buf, ops=[g[:i] + "P" + g[i:] + "S"], fail_at=f, pb=3 if T else 2))
                    out.append(dict(n=n, buf=buf, ops=[g[:i] + "S"], fail_at=f, pb=3 if T else 2))
    for L in (1, 2):
        for buf in (1, 2):
            for f in range(0, 3):
                # call L is the one that signals the episode end
                ops = ""
                c = 0
                k = 0
                while c < f:
                    if k == L:
                        ops += "N"
                        k = 0
                        c += 1
                    else:
                        ops += "G"
                        k += 1
                        c += 1
                if k == L:
                    ops += "N"
                out.append(dict(n=None, L=L, buf=buf, ops=[ops + "GS"], fail_at=f, pb=3 if T else 2, epi=True))
    # every kind of error
    for b in pm.BOOMS:
        for f in (0, 1, 2):
            for buf in (1, 2):
                out.append(dict(n=2, buf=buf, ops=["G" * (f + 2) + "S"], fail_at=f, boom=b, pb=1))
        # raised when the producer moves on to the next episode
        for L in (1, 2):
            for buf in (1, 2):
                for j in (0, 1):
                    ops = ("G" * L + "N") * (j + 1) + "G"
                    out.append(dict(n=None, L=L, buf=buf, ops=[ops + "S"], fail_next=j, fail_at=None, boom=b, pb=1,
                                    epi=True))
    for f in (0, 1):
        out.append(dict(n=2, buf=1, ops=["G" * (f + 1) + "S"], fail_at=f, lines="synthpix/scheduler/", pb=2 if T else 1))
    return out


def oracle(case, w):
    f = case["fail_at"]
    if case.get("fail_next") is not None:
        f = (case["fail_next"] + 1) * case["L"]
    n = case["n"]
    epi = case.get("L")
    got, failed, resets = 0, False, 0
    gen = None
    for r in w.res:
        d, o, out, t0, t1, sr = r
        if o in "SRN":
            if o == "N" and out[0] == "exc" and out[1].startswith("Boom"):
                failed = True
                continue
            if out[0] == "exc":
                return dict(sig="exception-" + o, detail=f"{o} raised {out[1]}; {pm.hist(w)}")
            if o == "R":
                resets += 1
                got, failed = 0, False
                gen = None
                f = None if f is not None else None
            if o == "S":
                break
            continue
        if out[0] == "batch":
            g, k = divmod(out[1], 1000)
            if failed:
                continue  # a retrying producer may go on
            if not epi:
                if k != got:
                    return dict(sig="stream", detail=f"batch {k} delivered where {got} was due; {pm.hist(w)}")
                got += 1
                if f is not None and got > f:
                    return dict(sig="stream", detail=f"a batch was delivered past the failure; {pm.hist(w)}")
        elif out[0] == "exc":
            if not out[1].startswith("Boom"):
                return dict(sig="other-error", detail=f"the consumer got {out[1]}, not the producer's error; {pm.hist(w)}")
            if f is None or (not epi and got != f):
                return dict(sig="early-error", detail=f"error after {got} batches, injected at {f}; {pm.hist(w)}")
            failed = True
        elif out[0] in ("stop", "end"):
            if failed and out[0] == "stop" and not w.m.ended:
                return dict(sig="masked", detail=f"a request after the failure was told the data had ended; {pm.hist(w)}")
            if failed:
                continue
            if out[0] == "end" and epi:
                continue
            if f is not None:
                return dict(sig="masked", detail=f"a producer failure was reported as the end of the data; {pm.hist(w)}")
            if got < n:
                return dict(sig="early-end", detail=f"end of data after {got} of {n} batches; {pm.hist(w)}")
        else:
            return dict(sig="outcome", detail=f"unexpected outcome {out}; {pm.hist(w)}")
    last = [r[1] for r in w.res if r[1] in "SR"]
    alive = [x for x in w.alive_at_end if x.startswith("bg")]
    if last and last[-1] == "S" and alive:
        return dict(sig="leaked-producer", detail=f"producer alive after shutdown; {pm.hist(w)}")
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle)


replay = pm.replay_with(oracle)
