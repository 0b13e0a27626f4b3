"""C35: prefetching reads ahead as far as configured, and no further."""
from . import pfmodel as pm

LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real threads (controlled scheduler, virtual time, preemption bound)"
NOTE = ("Every schedule of producer and consumer within the bounds is executed on the real class; the bound is checked at every request of the "
        "producer, and the waiting time of every request that follows a pause is read off the virtual clock.")
RULE = ("executions of the real prefetching scheduler under the controlled scheduler; distinct = different "
        "observations (per-request outcome, waiting time, final thread states)")
BOUNDS = {
    "quick": "streams of 1, 4 and 7 batches and endless episodes of 1-3 steps, buffers 1-3 and 5, sources that answer at once or after a second; "
             "every string of request, reset, next episode of length 3 around a pause; <=2 deviations; two consumers: <=2",
    "thorough": "strings of length 4, <=3 deviations, 2 at every source line",
}
ASSUMPTIONS = ["one batch more than the buffer may be in the producer's hand",
               "virtual time: timeouts expire only when every thread waits"]


def strings(alpha, n):
    return [""] if n == 0 else [s + a for s in strings(alpha, n - 1) for a in alpha]


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    k = 4 if T else 3
    for buf in (1, 2, 3, 5):
        tail = "P" + "G" * (buf + 1)
        for slow in (0, 1):
            kw = dict(buf=buf, slow=range(60) if slow else (), slow_time=0.2)
            kw["slow"] = list(kw["slow"])
            for n in (1, 4, 7):
                for s in strings("GR", k - 1):
                    out.append(dict(n=n, ops=["G" + s + tail], pb=3 if T else 2, **kw))
                out.append(dict(n=n, ops=["GP" + "GP" * n], pb=2, **kw))
                out.append(dict(n=n, ops=["G" * buf + "P", "PG"], pb=2, **kw))
            for L in (1, 2, 3):
                for s in strings("GNR", k - 1):
                    out.append(dict(L=L, ops=["G" + s + "P" + "G" * min(L, buf + 1)], pb=2 if T or not slow else 1, **kw))
                out.append(dict(L=L, ops=["NPG"], pb=2, **kw))
                out.append(dict(L=L, ops=["GNPNPG"], pb=2, **kw))
        out.append(dict(n=4, ops=["GGP" + "G" * buf], buf=buf, pb=2 if T else 1, lines="synthpix/scheduler/"))
    return out


def counted(base):
    """The model, which on every request compares its lead with what the consumers have had."""

    class Counted(base):
        entered = 0
        lead = None

        def get_batch(self, batch_size):
            w, buf = self.w, self.case["buf"]
            had = w.taken + w.abandoned + w.busy
            # the end of an episode, or of the data, is no batch
            over = self.t >= self.L if hasattr(self, "L") else self.k >= self.n
            if not over:
                self.entered += 1
                if self.entered > had + buf + 1 and not self.lead:
                    self.lead = (f"batch {self.entered} is asked of the source while {w.taken} were delivered, {w.abandoned} given up and "
                                 f"{w.busy} requests are waiting (buffer {buf})")
            return super().get_batch(batch_size)

        def reset(self):
            self.entered = self.w.taken = self.w.abandoned = 0
            super().reset()

    return Counted


CLASSES = {}


def factory(w, case):
    base = pm.ModelEpisodic if case.get("L") else pm.ModelScheduler
    cls = CLASSES.setdefault(base, counted(base))
    kw = dict(batch_size=2, slow=case["slow"] if "slow" in case else (), slow_time=case.get("slow_time", 1.0))
    m = cls(w, case["L"], None, **kw) if case.get("L") else cls(w, case["n"], **kw)
    m.case = case
    return m


def make_world(case, prefix=()):
    return pm.make_world(case, prefix, factory=factory)


def oracle(case, w):
    if w.m.lead:
        return dict(sig="too-far", detail=f"{w.m.lead}; {pm.hist(w)}")
    if len(case["ops"]) > 1:
        return None
    # what a pause leaves ready
    L, n, buf = case.get("L"), case.get("n"), case["buf"]
    ready = t = k = 0
    running = False
    it = iter(w.res)
    for o in case["ops"][0]:
        if o == "P":
            ready = buf if running else 0
            continue
        d, o2, out, t0, t1, sr = next(it, (0, None, None, 0, 0, 0))
        if o2 is None:
            break
        if o == "R":
            t = k = ready = 0
            running = False
        elif o == "N":
            ready -= min(ready, L - t) if running else 0  # the rest of the episode is given up
            t = 0
            running = True
        else:
            due = t < L if L else k < n
            if not due:
                continue
            if out[0] != "batch":
                return dict(sig="outcome", detail=f"{out} where a batch was due; {pm.hist(w)}")
            if ready > 0 and t1 > t0:
                return dict(sig="not-ahead", detail=f"a request after a long pause waited {t1 - t0:.1f} s for the source although {ready} batches should "
                                                    f"have been ready (buffer {buf}); {pm.hist(w)}")
            running = True
            ready = max(0, ready - 1)
            t += 1
            k += 1
    return None


def run_case(case, tier, res):
    pm.explore_case(case, res, oracle, make_world=make_world)


replay = pm.replay_with(oracle, make_world)
