"""Independent float64 definitions of the numeric kernels (oracles of C20-C25)."""
import numpy as np


def clamp(v, lo, hi):
    return min(max(v, lo), hi)


def interp(grid, pos):
    """Multilinear interpolation of `grid` at `pos` (one coordinate per axis), edges extended."""
    grid = np.asarray(grid, np.float64)
    for p in pos:  # contract axis 0 at each step
        n = grid.shape[0]
        p = clamp(float(p), 0.0, n - 1.0)
        i = min(int(np.floor(p)), n - 1)
        j = min(i + 1, n - 1)
        w = p - i
        grid = (1 - w) * grid[i] + w * grid[j]
    return float(grid)


def bilinear_map(h, w, ys, xs):
    """Matrix M (len(ys), h*w): M @ grid.ravel() interpolates the grid at the points (ys, xs)."""
    m = np.zeros((len(ys), h, w))
    for k, (y, x) in enumerate(zip(ys, xs)):
        y, x = clamp(float(y), 0.0, h - 1.0), clamp(float(x), 0.0, w - 1.0)
        i, j = min(int(np.floor(y)), h - 1), min(int(np.floor(x)), w - 1)
        a, b = y - i, x - j
        i1, j1 = min(i + 1, h - 1), min(j + 1, w - 1)
        m[k, i, j] += (1 - a) * (1 - b)
        m[k, i, j1] += (1 - a) * b
        m[k, i1, j] += a * (1 - b)
        m[k, i1, j1] += a * b
    return m.reshape(len(ys), h * w)


def trilinear_map(d, h, w, zs, ys, xs):
    m = np.zeros((len(zs), d, h, w))
    for k, p in enumerate(zip(zs, ys, xs)):
        idx = []
        for v, n in zip(p, (d, h, w)):
            v = clamp(float(v), 0.0, n - 1.0)
            i = min(int(np.floor(v)), n - 1)
            idx.append(((i, 1 - (v - i)), (min(i + 1, n - 1), v - i)))
        for (i, a) in idx[0]:
            for (j, b) in idx[1]:
                for (l, c) in idx[2]:
                    m[k, i, j, l] += a * b * c
    return m.reshape(len(zs), d * h * w)


def splat(img, flow, dt):
    """Forward warping: every pixel deposited bilinearly at its displaced position."""
    h, w = img.shape
    out = np.zeros((h, w))
    for i in range(h):
        for j in range(w):
            x, y = j + float(flow[i, j, 0]) * dt, i + float(flow[i, j, 1]) * dt
            x0, y0 = int(np.floor(x)), int(np.floor(y))
            for dx, dy in ((0, 0), (1, 0), (0, 1), (1, 1)):
                xi, yi = x0 + dx, y0 + dy
                if 0 <= xi < w and 0 <= yi < h:
                    out[yi, xi] += img[i, j] * (1 - abs(x - xi)) * (1 - abs(y - yi))
    return out


def sample_back(img, flow, dt):
    h, w = img.shape
    return np.array([[interp(img, (i - float(flow[i, j, 1]) * dt, j - float(flow[i, j, 0]) * dt)) for j in range(w)]
                     for i in range(h)])


def spot_image(shape, r, positions, dx, dy, inten, rho, clip=True):
    """Sum of Gaussian spots, each within the (2r+1)^2 patch around its pixel.

    A position is first moved to the nearest one at which the patch fits."""
    h, w = shape
    out = np.zeros((h, w))
    for (y, x), a, b, amp, p in zip(positions, dx, dy, inten, rho):
        y, x = clamp(y, r, h - r - 1e-6), clamp(x, r, w - r - 1e-6)
        i0, j0 = int(np.floor(y)) - r, int(np.floor(x)) - r
        sx, sy = a / 2, b / 2
        for i in range(i0, i0 + 2 * r + 1):
            for j in range(j0, j0 + 2 * r + 1):
                if 0 <= i < h and 0 <= j < w:
                    u, v = j - x, i - y
                    z = u * u / sx**2 + v * v / sy**2 - 2 * p * u * v / (sx * sy)
                    out[i, j] += amp * np.exp(-z / (2 * (1 - p * p)))
    return np.clip(out, 0, 255) if clip else out


def match_hist(img, target):
    """Each level to the lowest level whose target cumulative count reaches its own (equal totals)."""
    flat = np.floor(np.asarray(img, np.float64)).astype(int).ravel()
    flat = np.clip(flat, 0, 255)
    s = np.cumsum(np.bincount(flat, minlength=256))
    t = np.cumsum(np.asarray(target, np.int64))
    return np.array([int(np.argmax(t >= s[v])) for v in flat]).reshape(np.shape(img))


def bilinear_points(h, w, ys, xs):
    """bilinear_map at the points of a separable grid, vectorised: (len(ys), len(xs), h, w)."""
    def axis(n, v):
        v = np.clip(np.asarray(v, np.float64), 0, n - 1)
        i = np.minimum(np.floor(v).astype(int), n - 1)
        j = np.minimum(i + 1, n - 1)
        m = np.zeros((len(v), n))
        k = np.arange(len(v))
        np.add.at(m, (k, i), 1 - (v - i))
        np.add.at(m, (k, j), v - i)
        return m
    return np.einsum("ya,xb->yxab", axis(h, ys), axis(w, xs))


def adapt(flows, new, shape, off, res, rx, ry, pb, pbo, units, dt, pad):
    """Labels and particle windows of flow_field_adapter for flows (N, h, w, 2), from its definition."""
    flows = np.asarray(flows, np.float64)
    flows = np.pad(flows, ((0, 0), (pad[0], 0), (pad[1], 0), (0, 0)), mode="edge")
    y0, x0 = (pbo[0] + off[0] / res) * ry, (pbo[1] + off[1] / res) * rx
    ys = np.linspace(y0, y0 + shape[0] / res * ry - 1, new[0])
    xs = np.linspace(x0, x0 + shape[1] / res * rx - 1, new[1])
    h, w = flows.shape[1:3]

    def at(ys, xs):
        return np.einsum("yxab,nabc->nyxc", bilinear_points(h, w, ys, xs), flows)

    lab = at(ys, xs)
    if units == "pixels":
        lab = lab * (res * dt)
    ey, ex = pb[0] / res * ry, pb[1] / res * rx
    ny, nx = max(1, int(ey + 1e-9)), max(1, int(ex + 1e-9))
    win = at(pbo[0] * ry + np.arange(ny) * (ey / ny), pbo[1] * rx + np.arange(nx) * (ex / nx))
    return lab, win
