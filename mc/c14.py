"""C14: concurrent consumers share one stream."""
from . import pfmodel as pm

LEVEL = "model_checking"
TECHNIQUE = 'stateless model checking of the real threads (controlled scheduler, preemption and delay bounds)'
NOTE = 'Every schedule of two or three real consumers within the bounds.'
RULE = ("executions of the real prefetching scheduler with two or three consumer threads under the controlled scheduler; "
        "distinct = different observations")
BOUNDS = {
    "quick": "2 consumers x 1-2 requests and 3 x 1, streams of 1-5 batches, buffers 1-2; 2x1: <=2 preemptions with "
             "every order at blocking points, the others <=2 delays; at every source line <=1",
    "thorough": "2x1: <=3 preemptions (2 at every source line); the others <=3 delays, <=1 preemption with every order "
                "at blocking points, also at every source line for streams of 4",
}
ASSUMPTIONS = ["threads interleave at synchronisation operations and between source lines (not inside one line)", "virtual time"]


def cases(tier, seed):
    T = tier == "thorough"
    L = "synthpix/scheduler/"
    out = []
    for buf in (1, 2):
        for n in (1, 2, 3):
            out += pm.split(dict(n=n, buf=buf, ops=["G", "G"], pb=3 if T else 2), 4 if T else 1)
            out += pm.split(dict(n=n, buf=buf, ops=["G", "G"], pb=2 if T else 1, lines=L), 16 if T else 1)
        for n in (3, 4, 5):
            for ops in (["GG", "GG"], ["GG", "G"], ["G", "G", "G"]):
                # delay-bounded: also the order after a block counts as a deviation
                out += pm.split(dict(n=n, buf=buf, ops=ops, pb=3 if T else 2, delay=True), 8 if T else 1)
                out.append(dict(n=n, buf=buf, ops=ops, pb=1, delay=True, lines=L))
                if T:
                    out += pm.split(dict(n=n, buf=buf, ops=ops, pb=1), 8)
                    if n == 4:
                        out += pm.split(dict(n=n, buf=buf, ops=ops, pb=1, lines=L), 8)
        # consumers arriving while the stream is already running
        out.append(dict(n=4, buf=buf, ops=["GPG", "PG", "PG"], pb=2 if T else 1))
    return out


def oracle(case, w):
    n = case["n"]
    total = sum(o.count("G") for o in case["ops"])
    tags = []
    per = {}
    stops = 0
    for d, o, out, t0, t1, sr in w.res:
        if out[0] == "batch":
            tags.append(out[1])
            if per.get(d, -1) >= out[1]:
                return dict(sig="order", detail=f"consumer {d} saw batches out of order; {pm.hist(w)}")
            per[d] = out[1]
        elif out[0] == "stop":
            stops += 1
        else:
            return dict(sig="failed", detail=f"a request failed with {out}; {pm.hist(w)}")
    want = list(range(min(n, total)))
    if len(set(tags)) != len(tags):
        return dict(sig="duplicate", detail=f"a batch was delivered twice: {tags}; {pm.hist(w)}")
    if sorted(tags) != want:
        return dict(sig="lost", detail=f"delivered {sorted(tags)}, expected {want}; {pm.hist(w)}")
    if w.started_threads != 1:
        return dict(sig="threads", detail=f"{w.started_threads} producers were started; {pm.hist(w)}")
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle)


replay = pm.replay_with(oracle)
