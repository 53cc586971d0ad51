"""Looking at the figures the package draws."""
import contextlib
from unittest import mock
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.figure
from mc.core import Mismatch, require


@contextlib.contextmanager
def recording(look, real=False):
    """Calls look(figure) when a figure is saved or shown; with real=False a saved file holds only a marker."""
    save = matplotlib.figure.Figure.savefig
    calls = []

    def savefig(fig, name, *a, **k):
        calls.append(name)
        look(fig)
        if real:
            return save(fig, name, *a, **k)
        with open(name, "wb") as f:
            f.write(b"figure")

    def show(*a, **k):
        calls.append(None)
        for n in plt.get_fignums():
            look(plt.figure(n))
    plt.close("all")
    try:
        with mock.patch.object(matplotlib.figure.Figure, "savefig", savefig), mock.patch.object(plt, "show", show):
            yield calls
    finally:
        plt.close("all")


def errorbars(ax):
    """[(x, y, error)] of the error-bar series of an axes."""
    res = []
    for c in ax.containers:
        line, _, bars = c.lines
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        require(len(bars) == 1, "%d kinds of error bar", len(bars))
        seg = bars[0].get_segments()
        require(len(seg) == len(x), "%d error bars for %d points", len(seg), len(x))
        lo = np.array([s[0] for s in seg]).reshape(-1, 2)
        hi = np.array([s[1] for s in seg]).reshape(-1, 2)
        res.append((x, y, lo, hi))
    return res


def is_series(ax, want, n=0):
    """The n-th error-bar series of ax shows the (x, y, error) rows of want."""
    es = errorbars(ax)
    require(len(es) > n, "the panel has %d error-bar series", len(es))
    x, y, lo, hi = es[n]
    want = np.asarray(want, float).reshape(-1, 3)
    require(len(x) == len(want), "%d points drawn of %d", len(x), len(want))
    same(x, want[:, 0], "x values")
    same(y, want[:, 1], "y values")
    same(lo, np.stack([want[:, 0], want[:, 1] - want[:, 2]], 1), "lower ends of the error bars")
    same(hi, np.stack([want[:, 0], want[:, 1] + want[:, 2]], 1), "upper ends of the error bars")


def same(got, want, what, tol=1e-12):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    if got.size:
        d = np.abs(got - want)
        ok = (d <= tol * max(1e-300, np.nanmax(np.abs(want)) if np.any(np.isfinite(want)) else 1)) | (np.isnan(got) & np.isnan(want))
        if not np.all(ok):
            i = np.unravel_index(np.argmin(ok), ok.shape)
            raise Mismatch("%s differ: %r drawn, %r expected, at %s" % (what, got[i], want[i], i))
