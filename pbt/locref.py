"""NumPy references for the location estimators applied to a marginalised coalescence map."""
import numpy as np
from scipy.spatial.distance import cdist


def normalise(m):
    m = np.asarray(m, dtype=float)
    return m / m.max()


def xyz(lut, ijk):
    """Geographic coordinates of a (fractional) grid index."""
    g = np.asarray(lut.ll_corner, float) + np.asarray(ijk, float) * np.asarray(lut.node_spacing, float)
    return np.asarray(lut.coord2grid([list(g)], inverse=True), float)[0]


def index(lut, loc):
    """Fractional grid index of a geographic location."""
    g = np.asarray(lut.coord2grid([list(loc)]), float)[0]
    return (g - np.asarray(lut.ll_corner, float)) / np.asarray(lut.node_spacing, float)


def covariance(m, lut, thresh=0.9):
    """(index of the weighted mean, one sigma in grid units, True if the flagged set is clear)."""
    w = np.where(m > thresh, m, 0.0)
    ix = np.stack(np.meshgrid(*[np.arange(n) for n in m.shape], indexing="ij"), -1)
    mean = np.array([(w * ix[..., k]).sum() for k in range(3)]) / w.sum()
    var = np.array([(w * (ix[..., k] - mean[k]) ** 2).sum() for k in range(3)]) / w.sum()
    return mean, np.sqrt(np.maximum(var, 0)) * np.asarray(lut.node_spacing, float), \
        not np.any(np.abs(m - thresh) < 1e-9)


class Spline:
    """Cubic radial-basis interpolation of the nodes within two of the maximum."""

    def __init__(self, m, top=None):
        self.top = np.array(np.unravel_index(np.argmax(m), m.shape) if top is None else top)
        self.lo = np.maximum(self.top - 2, 0)
        self.hi = np.minimum(self.top + 3, m.shape)
        self.cubic = len(set(self.hi - self.lo)) == 1
        self.unique = np.sum(m >= m.max() * (1 - 1e-12)) == 1
        if not self.cubic:
            return
        sub = m[tuple(slice(a, b) for a, b in zip(self.lo, self.hi))]
        self.pts = np.array(list(np.ndindex(*sub.shape)), float)
        self.w = np.linalg.solve(cdist(self.pts, self.pts) ** 3, sub.flatten()) if len(self.pts) > 1 else None
        self.max = sub.max()

    def value(self, ijk):
        p = np.atleast_2d(np.asarray(ijk, float) - self.lo)
        if self.w is None:
            return np.full(len(p), self.max)
        return (cdist(p, self.pts) ** 3) @ self.w

    def best(self, step=10):
        n = (self.hi[0] - self.lo[0] - 1) * step + 1
        a = np.arange(n) / step
        g = np.stack(np.meshgrid(a, a, a, indexing="ij"), -1).reshape(-1, 3)
        v = np.concatenate([self.value(g[k:k + 20000] + self.lo) for k in range(0, len(g), 20000)])
        k = int(np.argmax(v))
        return g[k] + self.lo, v[k]


def smooth(m, sgm=0.8):
    """Convolution with a Gaussian twice, zero outside the map (separable direct sums)."""
    out = np.asarray(m, float)
    for ax, n in enumerate(m.shape):
        x = np.arange(n) - (n - 1) / 2
        f = np.exp(-x ** 2 / (2 * sgm ** 2))
        out = np.moveaxis(out, ax, 0)
        flat = out.reshape(n, -1)
        for _ in range(2):
            a = (n - 1) // 2
            flat = np.stack([np.convolve(c, f, "full")[a:a + n] for c in flat.T], -1)[::-1]
        out = np.moveaxis(flat.reshape(out.shape), 0, ax)
    return out / out.max()


def gaussian(m, win=7):
    """Index of the stationary point of the log-quadratic fit around the smoothed maximum, and the
    conditioning of the fit."""
    s = smooth(m)
    top = np.array(np.unravel_index(np.argmax(s), s.shape))
    near = np.stack(np.meshgrid(*[np.arange(n) for n in s.shape], indexing="ij"), -1).reshape(-1, 3) - top
    keep = (np.abs(near) <= (win - 1) // 2).all(1) & (s.reshape(-1) > 0)
    d = (s - s.mean()).reshape(-1)[keep]
    p = near[keep].astype(float)
    x, y, z = p.T
    A = np.stack([x * x, y * y, z * z, x * y, x * z, y * z, x, y, z, np.ones(len(x))], -1)
    P, _, rank, _ = np.linalg.lstsq(A, -np.log(np.clip(d, 1e-300, None)), rcond=None)
    H = np.array([[2 * P[0], P[3], P[4]], [P[3], 2 * P[1], P[5]], [P[4], P[5], 2 * P[2]]])
    srt = np.sort(s.reshape(-1))
    gap = srt[-1] - srt[-2] if len(srt) > 1 else 1.0
    good = rank == 10 and np.linalg.cond(H) < 1e6 and np.all(np.abs(d) > 1e-9) and gap > 1e-9
    if not good:
        return None, None
    return top - np.linalg.solve(H, P[6:9]), H
