"""Sources, single-particle probes and builders for the sampler checks (C04, C15-C19, C32).

With exactly one particle of a known round Gaussian shape per image, the ratio of
neighbouring pixels gives the particle's position exactly, so the displacement
between the two images of a pair is measured, not estimated.
"""
import collections
import copy

import numpy as np

D = 2.0  # particle diameter in the probes: sigma 1, patch radius 3
R = 3


def uv(t):
    """Distinct displacement of flow field number t, within +-1.25."""
    return ((t * 7) % 25) / 10.0 - 1.2, ((t // 25 * 11 + t * 3) % 25) / 10.0 - 1.2


class Src:
    """A plain source: `groups` batches of uniform flow fields, then the end.

    Tags count up from 0 over the run; the last group may be short (padding rows
    are zero, masked, without a name).  `log` records every group drawn."""

    include_images = False

    def __init__(self, groups, shape=(4, 5), short=None, masks=True, names=True, base=0, ncomp=2):
        self.groups, self.shape, self.short = groups, shape, short
        self.masks, self.names, self.base, self.ncomp = masks, names, base, ncomp
        self.pos = 0
        self.drawn = 0
        self.sizes = []
        self._files = ["x"]

    @property
    def file_list(self):
        return self._files

    @file_list.setter
    def file_list(self, v):
        self._files = v

    def get_flow_fields_shape(self):
        return (*self.shape, self.ncomp)

    def shutdown(self):
        pass

    def reset(self):
        self.pos = 0

    def get_batch(self, batch_size):
        from synthpix.types import SchedulerData

        if self.groups is not None and self.pos >= self.groups:
            raise StopIteration
        k = self.pos
        self.pos += 1
        self.drawn += 1
        self.sizes.append(batch_size)
        return SchedulerData(**group(self, k, batch_size))


def group(src, k, n):
    valid = src.short if (src.short and src.groups is not None and k == src.groups - 1) else n
    ff = np.zeros((n, *src.shape, 2), np.float32)
    for i in range(valid):
        ff[i] = uv(src.base + k * n + i)
    mask = np.arange(n) < valid
    files = tuple(f"g{k}_{i}" if i < valid else "" for i in range(n))
    return dict(flow_fields=ff, mask=mask if src.masks else None, files=files if src.names else None)


def spec(**kw):
    from synthpix.types import ImageGenerationSpecification

    d = dict(batch_size=4, image_shape=(40, 44), img_offset=(2.0, 2.0), seeding_density_range=(0.0, 0.0),
             p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[(D, D)], diameter_var=0.0,
             intensity_ranges=[(100.0, 100.0)], intensity_var=0.0, rho_ranges=[(0.0, 0.0)], rho_var=0.0, dt=1.0)
    d.update(kw)
    return ImageGenerationSpecification(**d)


def one_particle(h, w):
    """A density range giving one particle in h x w pixels (and leaving room for rounding)."""
    return (1.5 / (h * w), 1.5 / (h * w))


def build(src, bpfb=1, n=2, size=(44.0, 48.0), res=1.0, vpp=1.0, seed=0, sp=2.0, units="pixels", device_ids=(0,),
          gs=None, particles=1, **kw):
    from synthpix.sampler import SyntheticImageSampler

    speeds = dict(max_speed_x=sp, max_speed_y=sp, min_speed_x=-sp, min_speed_y=-sp)
    speeds.update({k: kw.pop(k) for k in list(kw) if k in speeds})
    g = dict(kw.pop("spec", {}))
    if gs is None:
        ish = g.get("image_shape", (40, 44))
        dt = g.get("dt", 1.0)
        if "seeding_density_range" not in g:
            ph = ish[0] + res * dt * (max(0, speeds["max_speed_y"]) - min(0, speeds["min_speed_y"]))
            pw = ish[1] + res * dt * (max(0, speeds["max_speed_x"]) - min(0, speeds["min_speed_x"]))
            q = (particles + 0.5) / (ph * pw)
            g["seeding_density_range"] = (q, q)
        gs = spec(**g)
    return SyntheticImageSampler(scheduler=src, batches_per_flow_batch=bpfb, flow_fields_per_batch=n,
                                 flow_field_size=size, resolution=res, velocities_per_pixel=vpp, seed=seed,
                                 output_units=units, device_ids=None if device_ids is None else list(device_ids),
                                 generation_specification=gs, **speeds, **kw)


def _private(s):
    """A copy of a sampler that shares its compiled functions but no mutable state."""
    c = copy.copy(s)
    for k, v in list(vars(c).items()):
        own = type(v).__module__.startswith("synthpix") and k != "scheduler"
        if own or isinstance(v, (dict, list, set, collections.deque)) or hasattr(v, "__next__"):
            try:
                setattr(c, k, copy.deepcopy(v))
            except Exception:
                if own or hasattr(v, "__next__"):
                    raise NotCopyable(k) from None
    return c


class NotCopyable(Exception):
    pass


def fresh(template, src):
    """A sampler like `template` (sharing its compiled functions) over another source."""
    s = _private(template)
    s.scheduler = src
    s.reset(scheduler_reset=False)
    return s


def clone(s):
    c = _private(s)
    c.scheduler = copy.deepcopy(s.scheduler)
    return c


def locate(img, sigma=D / 2):
    """Exact (row, column) of the only spot of an image, None when it is not measurable."""
    img = np.asarray(img, float)
    i, j = np.unravel_index(int(img.argmax()), img.shape)
    h, w = img.shape
    if img[i, j] < 20 or not (R <= i < h - R and R <= j < w - R):
        return None
    a = img[i + 1, j] / img[i, j]
    b = img[i, j + 1] / img[i, j]
    if a <= 0 or b <= 0:
        return None
    y, x = i + 0.5 + sigma**2 * np.log(a), j + 0.5 + sigma**2 * np.log(b)
    if not (R + 0.5 <= y < h - R - 0.5 and R + 0.5 <= x < w - R - 0.5):
        return None
    return y, x


def motions(batch):
    """Per row: the measured (dx, dy) of the particle, or None."""
    out = []
    for a, b in zip(np.asarray(batch.images1), np.asarray(batch.images2)):
        p, q = locate(a), locate(b)
        out.append(None if p is None or q is None else (q[1] - p[1], q[0] - p[0]))
    return out


def nxt(s):
    """('batch', b) | ('end',) | ('episode-end',) | ('exc', text)"""
    from synthpix.scheduler.protocol import EpisodeEnd

    try:
        return ("batch", next(s))
    except StopIteration:
        return ("end",)
    except EpisodeEnd:
        return ("episode-end",)
    except Exception as e:
        return ("exc", f"{type(e).__name__}: {e}")


def state(s):
    """Canonical form of a sampler's own and its source's state (compiled parts left out)."""
    from . import fsmodel as fm

    out = []
    for k, v in sorted(vars(s).items()):
        if callable(v) or k in ("mesh", "sharding", "scheduler"):
            continue
        out.append((k, fm.state_digest(v)))
    return repr((out, fm.state_digest(s.scheduler)))


class Groups:
    """The model: which group of flow fields the next batch uses (non-episodic source)."""

    def __init__(self, src, bpfb):
        self.n_groups, self.bpfb = src.groups, bpfb
        self.pos, self.cur, self.used, self.idx = 0, None, 0, 0

    def copy(self):
        return copy.copy(self)

    def key(self):
        return (self.pos, self.cur, self.used, self.idx)

    def next(self):
        """The group of the next batch, None at the end of the data."""
        if self.cur is None or self.used >= self.bpfb:
            if self.n_groups is not None and self.pos >= self.n_groups:
                return None
            self.cur, self.pos, self.used = self.pos, self.pos + 1, 0
        self.used += 1
        self.idx += 1
        return self.cur

    def reset(self, source):
        self.cur, self.used, self.idx = None, 0, 0
        if source:
            self.pos = 0


def explore(sampler, model, ops, depth, judge, res, max_states=400):
    """Breadth-first over all operation strings: n (next), R / r (reset with / without the source)."""
    from . import common

    todo, seen = [(sampler, model, ())], set()
    while todo:
        s, m, h = todo.pop(0)
        if len(h) >= depth:
            res.traces += 1
            continue
        if res.states >= max_states:
            res.capped += 1
            return
        res.states += 1
        for op in ops:
            s2, m2, h2 = clone(s), m.copy(), h + (op,)
            res.transitions += 1
            common.beat()
            if op == "n":
                got = nxt(s2)
                want = m2.next()
                res.evaluations += 1
                bad = judge(s2, got, want, m2, h2)
                if bad:
                    res.violate(bad[0], f"{bad[1]}; operations {' '.join(h2)}", hist=h2)
                    return
            else:
                s2.reset(scheduler_reset=op == "R")
                m2.reset(op == "R")
            k = common.digest((state(s2), m2.key()))
            if k in seen:
                res.traces += 1
                continue
            seen.add(k)
            todo.append((s2, m2, h2))
