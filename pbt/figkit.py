"""Look into the matplotlib figures a run makes: capture them when they are saved and list what is drawn."""
import contextlib
import pathlib

import matplotlib.dates as mdates
import numpy as np
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.figure import Figure
from matplotlib.patches import Ellipse, Polygon, Rectangle


@contextlib.contextmanager
def captured():
    """{file name: figure} of every figure saved inside the block (an empty file is written instead of the drawing)."""
    made = {}
    original = Figure.savefig

    def savefig(self, fname, *a, **k):
        made[str(fname)] = self
        pathlib.Path(str(fname)).write_bytes(b"")

    Figure.savefig = savefig
    try:
        yield made
    finally:
        Figure.savefig = original


def num(t):
    return mdates.date2num(t.datetime)


def lines(ax):
    out = []
    for ln in ax.get_lines():
        x, y = (np.asarray(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)) for v in (ln.get_xdata(orig=False), ln.get_ydata(orig=False)))
        out.append((np.atleast_1d(x), np.atleast_1d(y), ln))
    return out


def curves(ax):
    """Lines that are neither vertical nor horizontal rules."""
    return [(x, y) for x, y, ln in lines(ax) if ln.get_transform() == ax.transData]


def vrules(ax):
    return sorted(float(x[0]) for x, y, ln in lines(ax) if ln.get_transform() != ax.transData and len(set(x)) == 1
                  and list(y) in ([0, 1], [1, 0]))


def hrules(ax):
    return sorted(float(y[0]) for x, y, ln in lines(ax) if ln.get_transform() != ax.transData and len(set(y)) == 1
                  and list(x) in ([0, 1], [1, 0]))


def scatters(ax):
    return [np.asarray(np.ma.filled(c.get_offsets(), np.nan), float).reshape(-1, 2) for c in ax.collections if isinstance(c, PathCollection)]


def scatter_artists(ax):
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def meshes(ax):
    return [c for c in ax.collections if isinstance(c, QuadMesh)]


def segments(ax):
    return [np.asarray(s, float) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]


def spans(ax):
    """(x0, x1) of the vertical bands."""
    out = []
    for p in ax.patches:
        if isinstance(p, Rectangle) and p.get_y() == 0 and p.get_height() == 1:
            x0, x1 = p.get_x(), p.get_x() + p.get_width()
        elif isinstance(p, Polygon) and set(np.asarray(p.get_xy())[:, 1]) == {0.0, 1.0}:
            x = np.asarray(p.get_xy(), float)[:, 0]
            x0, x1 = x.min(), x.max()
        else:
            continue
        x0, x1 = (float(v) if np.isscalar(v) else float(v) for v in (x0, x1))
        out.append((min(x0, x1), max(x0, x1)))
    return sorted(out)


def ellipses(ax):
    return [p for p in ax.patches if isinstance(p, Ellipse)]


def texts(fig):
    out = [t.get_text() for t in fig.texts]
    for ax in fig.axes:
        out += [t.get_text() for t in ax.texts] + [ax.get_title()]
    return [t for t in out if t]


def contains(values, x, tol):
    return len(values) > 0 and np.min(np.abs(np.asarray(values, float) - x)) <= tol


def same_points(a, b, rtol=1e-9, atol=1e-9):
    """The same points, in any order."""
    a, b = np.asarray(a, float).reshape(-1, 2), np.asarray(b, float).reshape(-1, 2)
    if len(a) != len(b):
        return False
    left = list(range(len(b)))
    for p in a:
        k = next((i for i in left if np.all(np.abs(b[i] - p) <= atol + rtol * np.abs(p))), None)
        if k is None:
            return False
        left.remove(k)
    return True
