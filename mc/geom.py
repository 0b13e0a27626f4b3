"""Sampler geometries and affine flow fields (C18, C19)."""
import itertools

import numpy as np

from . import smmodel as sm


class Affine(sm.Src):
    """Every flow field is affine in the grid coordinates: bilinear interpolation is exact on it."""

    def __init__(self, coef, shape, n):
        super().__init__(None, shape=shape)
        self.coef = coef  # per flow field i: ((a, b, c), (a, b, c)) with u = a + b * gx + c * gy

    def get_batch(self, batch_size):
        from synthpix.types import SchedulerData

        self.drawn += 1
        h, w = self.shape
        gy, gx = np.mgrid[0:h, 0:w].astype(float)
        ff = np.stack([np.stack([a + b * gx + c * gy for a, b, c in self.coef[i % len(self.coef)]], -1)
                       for i in range(batch_size)]).astype(np.float32)
        return SchedulerData(flow_fields=ff, mask=np.ones(batch_size, bool), files=("f",) * batch_size)


def value(coef, gy, gx):
    return np.array([a + b * gx + c * gy for a, b, c in coef])


class Geometry:
    """One configuration: what the sampler is told, and what follows from it (exact where it matters)."""

    def __init__(self, img, res, dt, sp, off, size, grid, vpp=1.0, hide=0.0, diam=sm.D, particles=1):
        (self.img, self.res, self.dt, self.sp, self.off, self.size, self.grid, self.vpp, self.hide, self.diam,
         self.particles) = (tuple(img), res, dt, tuple(sp), tuple(off), tuple(size), tuple(grid), vpp, hide, diam, particles)

    # sp = (min_x, max_x, min_y, max_y)
    def travel(self):
        """Distance particles can travel, per axis: (towards the start, towards the end), y first."""
        x0, x1, y0, y1 = self.sp
        return ((max(0, y1) * self.dt, -min(0, y0) * self.dt), (max(0, x1) * self.dt, -min(0, x0) * self.dt))

    def fits(self):
        """(certainly fits, certainly does not)"""
        worst = np.inf
        for k in (0, 1):
            a, b = self.travel()[k]
            worst = min(worst, self.off[k] - a, self.size[k] - (self.off[k] + self.img[k] / self.res + b))
        return worst > 1e-9, worst < -1e-9

    def build(self, src, n, batch, seed=0, units="measure units per second", **g):
        t = self.travel()
        # hidden particles extend the area in which particles are placed
        e = [max(0.0, 2 * int(1.5 * self.diam) + 1 - t[k][0] * self.res) if self.hide else 0.0 for k in (0, 1)]
        q = (self.particles + 0.5) / np.prod([self.img[k] + sum(t[k]) * self.res + e[k] for k in (0, 1)])
        gs = sm.spec(batch_size=batch, image_shape=self.img, img_offset=self.off, dt=self.dt, p_hide_img1=self.hide,
                     p_hide_img2=0.0, diameter_ranges=[(self.diam, self.diam)],
                     seeding_density_range=g.pop("seeding_density_range", (q, q)), **g)
        x0, x1, y0, y1 = self.sp
        return sm.build(src, n=n, size=self.size, res=self.res, vpp=self.vpp, seed=seed, units=units, gs=gs,
                        min_speed_x=x0, max_speed_x=x1, min_speed_y=y0, max_speed_y=y1)


def lattice(imgs, ress, dts, sps, offs, slacks, grids):
    """offs, slacks: margins beyond the tightest accepted placement, in length units (negative: refused)."""
    for img, res, dt, sp, (oy, ox), (ey, ex), grid in itertools.product(imgs, ress, dts, sps, offs, slacks, grids):
        g = Geometry(img, res, dt, sp, (0, 0), (1, 1), grid)
        (ay, by), (ax, bx) = g.travel()
        g.off = (max(0.0, ay + oy), max(0.0, ax + ox))
        if ay + oy < 0 or ax + ox < 0:
            continue
        g.size = (g.off[0] + img[0] / res + by + ey, g.off[1] + img[1] / res + bx + ex)
        if min(g.size) <= 0:
            continue
        yield g
