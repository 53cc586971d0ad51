"""C21: what every magnetogram plot draws, cell by cell, for all plot types and options over a set of magnetograms.

The oracle never asks the package for a field: the values drawn are compared with the reference field at the centres of the
cells as drawn, so position, quantity, label and value are judged together.
"""
import contextlib, io, itertools, logging, math, re
import numpy as np
from matplotlib.collections import QuadMesh, LineCollection
from matplotlib.colors import SymLogNorm
from matplotlib.contour import ContourSet
from scipy.interpolate import RegularGridInterpolator
from mc.core import Mismatch, require, bound, scratch
from mc import cli, figs, files, ref
from mc.figs import plt
from mc.checks import c04, c06, c08
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import plot_pfss, plot_zdi, plots, zdi_magnetogram as Z
from starwinds_magnetogram.geometry import ZdiGeometry
from starwinds_magnetogram.bin import plot_magnetogram as command

LEVEL = "model_checking"
SHARDS = 8
NAMES = {"radial": "B_r", "polar": r"B_\theta", "azimuthal": r"B_\phi", "strength": "|B|"}
COMPONENTS = ("radial", "polar", "azimuthal")


# ---------------------------------------------------------------- what is expected
def with_strength(f):
    f = dict(zip(COMPONENTS, f))
    f["strength"] = np.sqrt(sum(v ** 2 for v in f.values()))
    return f


def zdi_source(cs, term=None):
    """(theta, phi) -> {quantity: value} for ZDI coefficients, with the reference harmonics."""
    def f(t, p):
        parts = ref.zdi_parts(cs, t, p)
        if term is None:
            return with_strength([parts[c + "-poloidal"] + parts[c + "-toroidal"] for c in COMPONENTS])
        return with_strength([parts["%s-%s" % (c, term)] for c in COMPONENTS])
    return f


def pfss_source(cs, r, rs, rss):
    return lambda t, p: with_strength(ref.pfss_field(cs, np.full(np.shape(t), float(r)), t, p, rs, rss))


# ---------------------------------------------------------------- what is drawn
def mesh(ax):
    m = [c for c in ax.collections if isinstance(c, QuadMesh)]
    require(len(m) == 1, "%d coloured meshes in a panel", len(m))
    m = m[0]
    xy = np.asarray(m.get_coordinates(), float)
    v = np.ma.filled(np.ma.asarray(m.get_array(), float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    c = (xy[1:, 1:] + xy[:-1, 1:] + xy[1:, :-1] + xy[:-1, :-1]) / 4
    return m, xy, c, v


def corners_cover(xy, box=(0, 360, 0, 180)):
    lo, hi = xy.reshape(-1, 2).min(0), xy.reshape(-1, 2).max(0)
    require(np.allclose([lo[0], hi[0], lo[1], hi[1]], box, atol=1e-9), "the mesh covers %s to %s", lo, hi)


def values(ax, source, quantity, tol, box=(0, 360, 0, 180), scale=None):
    m, xy, c, v = mesh(ax)
    if box is not None:
        corners_cover(xy, box)
    th, ph = np.deg2rad(c[..., 1]), np.deg2rad(c[..., 0])
    e = source(th, ph)
    s = scale or max(np.max(np.abs(x)) for x in e.values()) or 1e-300
    require(np.all(np.isfinite(v)), "%d cells of %s have no value", np.sum(~np.isfinite(v)), quantity)
    d = np.abs(v - e[quantity])
    if not np.max(d) <= tol * s:
        i = np.unravel_index(np.argmax(d), d.shape)
        raise Mismatch("the cell at azimuth %.2f and polar angle %.2f shows %r, but %s is %r there" % (*c[i], v[i], quantity, e[quantity][i]))
    return m, c, v


def printed(text):
    """The number printed in a label, and half a unit of its last digit."""
    m = re.fullmatch(r"\s*([+-]?)(\d+(?:\.\d*)?|\.\d+)(?:\s*\\times 10\^\{(-?\d+)\}|[eE]([+-]?\d+))?\s*", text)
    require(m, "the number %r cannot be read", text)
    e = int(m[3] or m[4] or 0)
    digits = m[2].replace(".", "").lstrip("0")
    frac = len(m[2].split(".")[1]) if "." in m[2] else 0
    # %g drops trailing zeros, so a short number still stands for three digits
    num = float(m[1] + m[2]) * 10.0 ** e
    unit = 10.0 ** (math.floor(math.log10(abs(num))) - 2) if num else 0.0
    return num, 0.5000001 * unit


def extrema(ax, c, v, quantity):
    """The marked extrema: position, number and name."""
    found = {}
    for line in ax.get_lines():
        m = re.fullmatch(r"(Max|Min) \$(.*)=(.*)\$ G", str(line.get_label()))
        if m:
            require(m[1] not in found, "two markers of the %s", m[1])
            found[m[1]] = (m[2], m[3], float(np.ravel(line.get_xdata())[0]), float(np.ravel(line.get_ydata())[0]))
    require(set(found) == {"Max", "Min"}, "marked extrema: %s", sorted(found))
    s = np.max(np.abs(v)) or 1e-300
    for k, best in (("Max", np.max(v)), ("Min", np.min(v))):
        name, number, x, y = found[k]
        require(name == NAMES[quantity], "%s of %s is labelled %s", k, quantity, name)
        val, unit = printed(number)
        require(abs(val - best) <= unit + 1e-12 * s, "%s is labelled %s, the drawn %s is %r", k, number, k, best)
        d = np.hypot(c[..., 0] - x, c[..., 1] - y)
        i = np.unravel_index(np.argmin(d), d.shape)
        require(d[i] < 1e-6, "%s is marked at %s, which is no cell centre", k, (x, y))
        require(abs(v[i] - best) <= 1e-12 * s, "%s is marked at %s where the value is %r instead of %r", k, (x, y), v[i], best)
    lg = ax.get_legend()
    require(lg is not None, "no legend")
    t = [x.get_text() for x in lg.get_texts()]
    for k in found:
        require(any(x.startswith(k + " $") for x in t), "the legend %s lacks the %s", t, k)


def colours(panels, fig, allv, marked=True):
    """All panels use one colour scale, that of the colour bar beside them, and the bar marks the extrema of the panels."""
    ms = [mesh(ax)[0] for ax in panels]
    bars = [a for a in fig.axes if a not in panels]
    require(len(bars) == 1, "%d axes beside the panels", len(bars))
    cb = [m.colorbar for m in ms if m.colorbar is not None]
    require(len(cb) == 1, "%d colour bars", len(cb))
    zero = max(np.max(np.abs(v)) for v in allv) == 0
    if not zero:
        for m in ms:
            require(m.get_cmap().name == cb[0].cmap.name, "a panel is drawn in %s, its colour bar in %s", m.get_cmap().name, cb[0].cmap.name)
            require(np.allclose(m.get_clim(), (cb[0].vmin, cb[0].vmax), rtol=1e-9, atol=0), "a panel's colours span %s, its colour bar %s", m.get_clim(), (cb[0].vmin, cb[0].vmax))
            require(type(m.norm) is type(cb[0].norm), "norm %s, %s", m.norm, cb[0].norm)
        lo, hi = min(np.min(v) for v in allv), max(np.max(v) for v in allv)
        s = max(abs(lo), abs(hi))
        vmin, vmax = ms[0].get_clim()
        require(vmin <= lo + 1e-9 * s and vmax >= hi - 1e-9 * s, "values %s to %s lie outside of the colours %s to %s", lo, hi, vmin, vmax)
    if marked:
        y = [float(np.ravel(l.get_ydata())[0]) for l in bars[0].get_lines() if len(np.ravel(l.get_ydata())) == 1]
        want = [f(v) for v in allv for f in (np.max, np.min)]
        require(len(y) == len(want), "%d marks beside the colour bar", len(y))
        s = max(np.max(np.abs(v)) for v in allv) or 1e-300
        require(np.allclose(sorted(y), sorted(want), rtol=0, atol=1e-12 * s), "marks at %s, expected %s", y, want)


def components(axs, fig, source, tol, box=(0, 360, 0, 180), zero=True):
    require(len(axs) == 3, "%d panels", len(axs))
    allv = []
    for ax, q in zip(axs, COMPONENTS):
        m, c, v = values(ax, source, q, tol, box)
        extrema(ax, c, v, q)
        t = ax.get_title()
        require(q in t.lower() and NAMES[q] in t, "the %s panel is titled %r", q, t)
        require("zimuth" in ax.get_xlabel(), "x label %r", ax.get_xlabel())
        contours(ax, c, v, dashed=mesh(axs[-1])[0].colorbar.get_ticks() if mesh(axs[-1])[0].colorbar else None, zero=zero)
        allv.append(v)
    require("olar" in axs[0].get_ylabel(), "y label %r", axs[0].get_ylabel())
    colours(list(axs), fig, allv)


def contours(ax, c, v, dashed=None, zero=True):
    """Every contour line runs where the drawn values have its level; the solid ones are at zero, the dashed ones at the given levels."""
    if np.ptp(c[:, 0, 0]) > np.ptp(c[0, :, 0]):
        c, v = np.swapaxes(c, 0, 1), v.T
    if c[0, 0, 0] > c[0, -1, 0]:
        c, v = c[:, ::-1], v[:, ::-1]
    if c[0, 0, 1] > c[-1, 0, 1]:
        c, v = c[::-1], v[::-1]
    x, y = c[0, :, 0], c[:, 0, 1]
    f = RegularGridInterpolator((y, x), v, bounds_error=False, fill_value=None)
    s = np.max(np.abs(v)) or 1e-300
    lo, hi = np.min(v), np.max(v)
    solid, other = [], []
    for cs in ax.collections:
        if not isinstance(cs, ContourSet):
            continue
        styles = list(cs.get_linestyles()) or [(0, None)]
        for i, (level, path) in enumerate(zip(cs.levels, cs.get_paths())):
            pts = np.asarray(path.vertices, float)
            if len(pts) == 0:
                continue
            d = np.abs(f(pts[:, ::-1]) - level)
            require(np.max(d) <= 1e-6 * s, "a contour of %r runs through points of value %r", level, level + np.max(d))
            (solid if styles[i % len(styles)][1] is None else other).append(float(level))
    require(all(abs(l) <= 1e-9 * s for l in solid), "solid contours are drawn at %s", solid)
    if zero and lo < -1e-6 * s and hi > 1e-6 * s:
        require(solid, "no zero contour is drawn for values from %r to %r", lo, hi)
    if dashed is not None:
        for l in dashed:
            if lo + 1e-6 * s < l < hi - 1e-6 * s:
                require(any(abs(l - k) <= 1e-9 * s for k in other), "no contour at %r, which the colour bar marks; contours: %s", l, other)
        require(all(any(abs(l - k) <= 1e-9 * s for l in dashed) for k in other), "contours at %s, marks of the colour bar: %s", other, dashed)


def thickness(ax, f, legend):
    """The streamlines are as thick as the tangential field at them, and the legend says so."""
    m, xy, c, v = mesh(ax)
    b = f(np.deg2rad(c[..., 1]), np.deg2rad(c[..., 0]))
    t = np.hypot(b["polar"], b["azimuthal"])
    top = np.max(t)
    if top <= 1e-9 * np.max(b["strength"]):
        return
    for col in ax.collections:
        if isinstance(col, LineCollection) and len(col.get_segments()):
            p = np.array([np.mean(q, 0) for q in col.get_segments()])
            lw = np.ravel(col.get_linewidths())
            if len(lw) != len(p):
                continue
            b = f(np.deg2rad(p[:, 1]), np.deg2rad(p[:, 0]))
            d = np.abs(lw / 3 - np.hypot(b["polar"], b["azimuthal"]) / top)
            require(np.mean(d) <= .1, "streamlines are drawn with thickness %s for field strengths of %s of the largest", lw[np.argmax(d)], np.hypot(b["polar"], b["azimuthal"])[np.argmax(d)] / top)
    if legend:
        lg = ax.get_legend()
        seen = 0
        for h, x in zip(lg.get_lines(), lg.get_texts()):
            q = re.fullmatch(r"\$B_\\perp=(.*)\$", x.get_text())
            if q:
                val, unit = printed(q[1])
                seen += 1
                require(abs(h.get_linewidth() / 3 * top - val) <= 2 * unit, "the legend shows %s with the thickness of %r", x.get_text(), h.get_linewidth() / 3 * top)
        require(seen > 1, "the legend names %d thicknesses", seen)


def single(ax, fig, source, quantity, tol, box=(0, 360, 0, 180), zero=True):
    m, c, v = values(ax, source, quantity, tol, box)
    extrema(ax, c, v, quantity)
    colours([ax], fig, [v])
    contours(ax, c, v, dashed=m.colorbar.get_ticks(), zero=zero)
    require("zimuth" in ax.get_xlabel() and "olar" in ax.get_ylabel(), "labels %r, %r", ax.get_xlabel(), ax.get_ylabel())
    xy = mesh(ax)[1]
    # area-weighted mean of the absolute value, printed in a corner
    th, ph = np.deg2rad(xy[..., 1]), np.deg2rad(xy[..., 0])
    if np.ptp(th[:, 0]) < np.ptp(th[0]):     # the polar angle runs along the second axis
        th, ph, va = th.T, ph.T, v.T
    else:
        va = v
    da = np.abs(np.diff(np.cos(th[:, 0])))[:, None] * np.abs(np.diff(ph[0]))
    mean = np.sum(np.abs(va) * da) / np.sum(da)
    t = [x.get_text() for x in ax.texts if "mean" in x.get_text()]
    require(len(t) == 1, "texts %s", t)
    m = re.search(r"mean:\s*(\S+)\s*G", t[0])
    val, unit = printed(m[1])
    require(abs(val - mean) <= unit + 1e-9 * mean, "the mean is printed as %s, it is %r", m[1], mean)


def matrix(ax, cs, kind, negative, fig):
    im = ax.get_images()
    require(len(im) == 1, "%d images", len(im))
    a = np.ma.filled(np.ma.asarray(im[0].get_array(), float), np.nan)
    L = max(c[0] for c in cs)
    e = np.zeros((L + 1, 2 * L + 1))
    for c in cs:
        er, eb, et = c08.parseval(c)
        e[c[0], c[1] + L] = {"radial": er, "poloidal": er + eb, "toroidal": et, "total": er + eb + et}[kind]
    shift = L if negative else 0
    if not negative:
        e = e[:, L:]
    require(a.shape == e.shape, "matrix of shape %s, expected %s", a.shape, e.shape)
    d = np.abs(a - e)
    require(np.all(d <= 1e-9 * np.max(e)), "the %s energy matrix deviates by %s at %s", kind, np.max(d), np.unravel_index(np.argmax(d), d.shape))
    x0, x1, y0, y1 = im[0].get_extent()
    require((x0, x1) == (-0.5, a.shape[1] - 0.5), "the orders lie at %s", (x0, x1))
    require((y0, y1) == ((a.shape[0] - 0.5, -0.5) if im[0].origin == "upper" else (-0.5, a.shape[0] - 0.5)), "the degrees lie at %s", (y0, y1))
    require("rder" in ax.get_xlabel() and "egree" in ax.get_ylabel(), "labels %r, %r", ax.get_xlabel(), ax.get_ylabel())
    require(kind in ax.get_title(), "the %s matrix is titled %r", kind, ax.get_title())
    if negative:
        fig.canvas.draw()       # the ticks depend on the layout
    for axis, off in ((ax.xaxis, shift), (ax.yaxis, 0)):
        for x, t in zip(axis.get_majorticklocs(), axis.get_majorticklabels()):
            s = t.get_text().replace("$", "").replace(r"\mathdefault{", "").replace("}", "").replace("−", "-")
            if s:
                require(abs(float(s) - (x - off)) < 1e-9, "the tick at %r is labelled %r", x - off, t.get_text())
    if np.max(e) > 0:
        pos = e[e > 0]
        lo, hi = im[0].get_clim()
        require(lo <= pos.min() * (1 + 1e-9) and hi >= pos.max() * (1 - 1e-9), "energies %s to %s, colours %s to %s", pos.min(), pos.max(), lo, hi)
        require(pos.min() == pos.max() or lo >= pos.min() * (1 - 1e-6) and hi <= pos.max() * (1 + 1e-6), "colours from %s to %s for %s to %s", lo, hi, pos.min(), pos.max())
    require(im[0].colorbar is not None, "no colour bar")


def by_degree(ax, cs, scaled=True):
    L = max(c[0] for c in cs)
    e = {k: np.zeros(L + 1) for k in ("Total", "Poloidal", "Toroidal")}
    for c in cs:
        er, eb, et = c08.parseval(c)
        for k, x in (("Total", er + eb + et), ("Poloidal", er + eb), ("Toroidal", et)):
            e[k][c[0]] += x
    total = math.fsum(e["Total"])
    if scaled:
        e = {k: v / total for k, v in e.items()}
    top = np.sum(e["Total"])
    lines = [l for l in ax.get_lines() if len(l.get_xdata())or L == 0]
    named = {l.get_label(): l for l in lines if not str(l.get_label()).startswith("_")}
    require(set(named) == set(e), "lines %s", sorted(named))
    require(len(lines) == 6, "%d lines", len(lines))
    for k, l in named.items():
        other = [x for x in lines if x is not l and x.get_color() == l.get_color()]
        require(len(other) == 1, "%d lines in the colour of %s", len(other), k)
        for line, want in ((l, e[k]), (other[0], np.cumsum(e[k]))):
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            require(np.array_equal(x, np.arange(1, L + 1)), "degrees %s", x)
            require(np.all(np.abs(y - want[1:]) <= 1e-9 * top), "%s energies %s, expected %s", k, y, want[1:])
    lg = ax.get_legend()
    require({t.get_text() for t in lg.get_texts()} == set(e), "legend")
    require("egree" in ax.get_xlabel(), "x label")


def share(f):
    n, d = f
    return n / d if d else 0.0


def summary(axs, cs):
    F, _ = c08.fractions(cs)
    f = lambda k: share(F["magnetogram." + k])
    tor = f("toroidal.energy.fraction")
    want = [("Total", {"poloidal": f("poloidal.energy.fraction"), "toroidal": tor, "radial": f("radial.energy.fraction"),
                       "axisymmetric": f("total.energy.axisymmetric.fraction")}, 0),
            ("Poloidal", {k: f("total.energy.%s.fraction" % k) for k in ("dipole", "quadrupole", "octopole")}, 1)]
    want[1][1]["axisymmetric"] = f("total.energy.poloidal.axisymmetric.fraction")
    w = {"l%d" % k: f("total.energy.toroidal.l%d.fraction" % k) for k in (1, 2, 3)}
    w["axisymmetric"] = f("total.energy.toroidal.axisymmetric.fraction")
    if tor:
        want.append(("Toroidal", w, 1))
    for ax, (title, shares, digits) in zip(axs, want):
        require(title in ax.get_title(), "the %s panel is titled %r", title, ax.get_title())
        lg = ax.get_legend()
        require(lg is not None, "no legend")
        names = [t.get_text().replace("$", "") for t in lg.get_texts()]
        require(sorted(names) == sorted(shares), "legend %s", names)
        wedges = [p for p in ax.patches if hasattr(p, "theta1")]
        require(len(wedges) == len(shares), "%d wedges for %s", len(wedges), sorted(shares))
        # A legend entry and its wedge have the same colour; the wedges of one colour are told apart by their size.
        left = list(wedges)
        for h, n in zip(lg.legend_handles, names):
            col = tuple(np.round(h.get_facecolor(), 6))
            mine = [p for p in left if tuple(np.round(p.get_facecolor(), 6)) == col and abs((p.theta2 - p.theta1) / 360 - shares[n]) < 1e-6]
            require(mine, "no wedge of %s spans %.6f of the circle; wedges span %s", n, shares[n],
                    [(p.theta2 - p.theta1) / 360 for p in left])
            left.remove(mine[0])
        texts = sorted(float(t.get_text()[:-1]) for t in ax.texts if t.get_text().endswith("%"))
        # the percentages are rounded to whole or tenth percents
        exp = sorted(100 * s for s in shares.values())
        require(len(texts) == len(exp), "percentages %s", texts)
        for a, b in zip(texts, exp):
            require(abs(a - b) <= 0.5 + 1e-4, "percentages %s, expected %s", texts, exp)


MEASURE = None


def follows(ax, direction, what):
    """The streamlines of ax run along direction(x, y) -> (u, v)."""
    segs = [np.asarray(s, float) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
    require(len(segs) > 20, "%d pieces of streamlines of %s", len(segs), what)
    a = np.concatenate([s[:-1] for s in segs])
    b = np.concatenate([s[1:] for s in segs])
    d, mid = b - a, (a + b) / 2
    u, v = direction(mid[:, 0], mid[:, 1])
    n = np.hypot(u, v)
    ok = (np.hypot(*d.T) > 0) & (n > 0.02 * np.max(n))
    cos = (d[:, 0] * u + d[:, 1] * v)[ok] / (np.hypot(*d.T) * n)[ok]
    require(np.sum(ok) > 20, "too few pieces")
    w = np.hypot(*d.T)[ok]
    good = np.sum(w * (cos > 0.9)) / np.sum(w)      # by length: lines jitter in short pieces where the field vanishes
    require(good > 0.8, "only %.0f%% of the streamlines run along %s", 100 * good, what)
    if MEASURE is not None:
        MEASURE.append(good)


# ---------------------------------------------------------------- magnetograms
def magnetograms():
    """{name: three columns of {(l, m): value}}"""
    def val(i, l, m):
        return complex(math.sin(3 * l + 5 * m + 7 * i) * 10 / l, 0.0 if m == 0 else math.cos(2 * l + 3 * m + i) * 8 / l)

    def full(L, s=1.0, keep=(1, 1, 1)):
        keys = [(l, m) for l in range(1, L + 1) for m in range(l + 1)]
        return [{k: val(i, *k) * s * keep[i] for k in keys} for i in range(3)]
    yield "full4", full(4)
    yield "weak", full(3, 1e-7)
    yield "strong", full(3, 1e7)
    yield "dipole", [{(1, 0): 3 + 0j}, {(1, 0): 2 + 0j}, {(1, 0): 0j}]
    yield "negative-dipole", [{(1, 0): -3 + 0j}, {(1, 0): -1 + 0j}, {(1, 0): 0j}]
    yield "toroidal", [{(1, 0): 0j, (2, 0): 0j}, {(1, 0): 0j, (2, 0): 0j}, {(1, 0): 5 + 0j, (2, 0): -2 + 0j}]
    yield "toroidal-dipole", [{(1, 0): 0j}, {(1, 0): 0j}, {(1, 0): 4 + 0j}]
    yield "no-axisymmetric", [{(1, 1): 1 + 2j, (3, 2): 4j}, {(1, 1): 0j, (3, 2): 1j}, {(1, 1): 2 + 0j, (3, 2): 0j}]
    yield "no-radial", full(2, 1.0, (0, 1, 1))
    yield "radial-only", full(3, 1.0, (1, 0, 0))
    yield "sparse", [{(2, 1): 1 - 1j, (5, 0): 2 + 0j}, {(2, 1): 0j, (5, 0): 0j}, {(2, 1): .5j, (5, 0): 1 + 0j}]
    yield "tiny-and-huge", [{(1, 0): 1e-4 + 0j, (4, 3): 1e4 + 1e4j}, {(1, 0): 1 + 0j, (4, 3): 0j}, {(1, 0): 0j, (4, 3): 3 + 0j}]
    yield "degree-18", [{(18, 7): 1 + 1j, (1, 0): 2 + 0j}, {(18, 7): 2j, (1, 0): 0j}, {(18, 7): 1 + 0j, (1, 0): 1 + 0j}]
    yield "nearly-dipole", [{(1, 0): 9 + 0j, (1, 1): 3 - 4j, (5, 2): .5j, (4, 0): .3 + 0j}, {(1, 0): 5 + 0j, (1, 1): 2j, (5, 2): .2 + 0j, (4, 0): 0j}, {(1, 0): 4 + 0j, (1, 1): 3j, (5, 2): .3j, (4, 0): .2 + 0j}]
    yield "l0", [{(0, 0): 1 + 0j, (1, 1): 1j}, {(0, 0): 0j, (1, 1): 1j}, {(0, 0): 0j, (1, 1): 0j}]
    yield "l0-toroidal", [{(0, 0): 3 + 0j, (1, 1): 1j, (2, 1): 2 + 0j}, {(0, 0): 0j, (1, 1): 1j, (2, 1): 0j}, {(0, 0): 0j, (1, 1): 2 + 1j, (2, 1): -1j}]
    if bound(0, 1):
        yield "full8", full(8)
        yield "full15", full(15)


def triples(cols):
    return [(l, m, *v) for (l, m), v in sorted(cols.items())]


def reference_coefficients(sets, kind):
    """ZDI coefficients of the file, as (l, m, alpha, beta, gamma)."""
    cols = files.columns(sets)
    if kind == "pfss":
        out = c04.expected(cols, 1, "back")
        return [(l, m, *(0j if x is None else x for x in v)) for (l, m), v in sorted(out.items())]
    return [(l, m, *(tuple(v) + (0j,) * (3 - len(v)))) for (l, m), v in sorted(cols.items())]


TYPES = ("map", "radial", "polar", "azimuthal", "azimuth", "strength", "energy-by-degree", "energy-matrix", "energy-summary")


def judge_figure(fig, ptype, cs, tol=1e-8):
    axs = list(fig.axes)
    if ptype == "map":
        components(axs[:3], fig, zdi_source(cs), tol)
    elif ptype in ("radial", "polar", "azimuthal", "azimuth", "strength"):
        q = "azimuthal" if ptype == "azimuth" else ptype
        single(axs[0], fig, zdi_source(cs), q, tol)
        t = axs[0].get_title()
        require(q in t and "field" in t, "the %s plot is titled %r", q, t)
    elif ptype == "energy-by-degree":
        require(len(axs) == 1, "%d axes", len(axs))
        by_degree(axs[0], cs)
    elif ptype == "energy-matrix":
        matrix(axs[0], cs, "total", False, fig)
    else:
        summary(axs, cs)


def run_command(sets, kind, ptype, out, style, real, flags=()):
    cs = reference_coefficients(sets, kind)
    if not any(any(c[2:]) for c in cs):
        return
    name = "field_star-1.dat"
    seen = []
    with scratch():
        with open(name, "w") as f:
            f.write(files.render(sets))
        before = cli.snapshot()
        opt = [[], ["-p", ptype] if style % 2 else ["--plot_type", ptype]][ptype != "map" or style % 3 > 0]
        opt = opt + ([] if kind == "zdi" and style % 2 else ["-y", kind] if style % 4 < 2 else ["--type", kind])
        args = [name] + ([out] if out else [])
        args = args + opt + list(flags) if style % 2 else list(flags) + opt + args

        def look(fig):
            judge_figure(fig, ptype, cs)
            if ptype in ("radial", "polar", "azimuthal", "azimuth", "strength"):
                require("star-1" in fig.axes[0].get_title(), "title %r", fig.axes[0].get_title())
            seen.append(1)
        with figs.recording(look, real) as calls:
            r = cli.call(command.main, args)
        require(r.ok, "%s ends with %s", args, r.error)
        require(calls == [out], "%s saves %s", args, calls)
        require(len(seen) >= 1, "no figure drawn")
        after = cli.snapshot()
        require(after[name] == before[name], "the input was changed")
        require(set(after) == {name} | ({out} if out else set()), "files %s", sorted(after))
        if out and real:
            magic = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[out[-3:].lower()]
            require(after[out].startswith(magic), "%s starts with %r", out, after[out][:8])


def information(flag, sets):
    """Asking for help or the version draws and writes nothing, whatever else is given."""
    with scratch():
        with open("in.dat", "w") as f:
            f.write(files.render(sets))
        with figs.recording(lambda fig: None) as calls:
            for args in ([flag], ["in.dat", "o.png", flag], [flag, "in.dat", "o.png", "-p", "radial"]):
                r = cli.call(command.main, args)
                require(r.ok and r.out.strip(), "%s ends with %s and prints %r", args, r.error, r.out)
        require(calls == [] and set(cli.snapshot()) == {"in.dat"}, "%s writes %s", flag, sorted(cli.snapshot()))


def refused(argv, sets):
    with scratch():
        with open("in.dat", "w") as f:
            f.write(files.render(sets))
        with figs.recording(lambda fig: None) as calls:
            r = cli.call(command.main, argv)
        require(not r.ok, "%s ends normally", argv)
        require(calls == [] and set(cli.snapshot()) == {"in.dat"}, "%s writes %s", argv, sorted(cli.snapshot()))


# ---------------------------------------------------------------- library
@contextlib.contextmanager
def clean():
    plt.close("all")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        plt.close("all")


def geometries():
    yield "default", lambda: None, (0, 360, 0, 180)
    yield "17x33", lambda: ZdiGeometry(17, 33), (0, 360, 0, 180)
    yield "9", lambda: ZdiGeometry(9), (0, 360, 0, 180)
    if bound(0, 1):
        yield "6x5", lambda: ZdiGeometry(6, 5), (0, 360, 0, 180)
        yield "40x21", lambda: ZdiGeometry(40, 21), (0, 360, 0, 180)


def chosen(m, kw, lo, hi):
    """The colour map and the symmetry of the colour scale are as asked for."""
    sym = kw.get("symmetric")
    if sym is None:
        sym = lo < 0 < hi
    a, b = m.get_clim()
    if max(abs(lo), abs(hi)) > 0 and kw:
        require(abs(a + b) <= 1e-12 * abs(b) if sym else abs(a - lo) <= 1e-9 * max(abs(lo), abs(hi)), "symmetric=%s, but the colours span %s for values from %s to %s", kw.get("symmetric"), (a, b), lo, hi)
    if "cmap" in kw:
        require(m.get_cmap().name == kw["cmap"], "colour map %s instead of %s", m.get_cmap().name, kw["cmap"])


def lib_components(cs, geo, box, term, radius, own_axes, kw={}):
    with clean():
        z = c06.make(cs)
        axs = None
        if own_axes:
            _, axs = plt.subplots(1, 3)
        g = geo()
        r = plot_zdi.plot_zdi_components(z, radius=radius, axs=axs, zg=g, term=term, **kw)
        fig = r[0].figure
        if own_axes:
            require(list(r) == list(axs), "other axes are used")
        components(fig.axes[:3], fig, zdi_source(cs, term), 1e-8, box, kw.get("symmetric") is not False)
        v = [mesh(ax)[3] for ax in fig.axes[:3]]
        for ax in fig.axes[:3]:
            chosen(mesh(ax)[0], kw, np.min(v), np.max(v))
            require("%2.1f" % radius in ax.get_title(), "title %r for radius %s", ax.get_title(), radius)


def lib_field(cs, geo, box, q, own_axes, kw={}):
    with clean():
        z = c06.make(cs)
        ax = plt.subplots()[1] if own_axes else None
        f = {"radial": z.get_radial_field, "polar": z.get_polar_field, "azimuthal": z.get_azimuthal_field, "strength": z.get_field_strength}[q]
        fig, r = plot_zdi.plot_zdi_field(f, ax=ax, zg=geo(), legend_str=NAMES[q], **kw)
        require(ax is None or r is ax, "other axes are used")
        single(r, fig, zdi_source(cs), q, 1e-8, box, kw.get("symmetric") is not False)
        chosen(mesh(r)[0], kw, np.min(mesh(r)[3]), np.max(mesh(r)[3]))


def lib_matrix(cs, types, negative, own_axes):
    with clean():
        z = c06.make(cs)
        tt = (types,) if isinstance(types, str) else types
        axs = np.atleast_1d(plt.subplots(1, len(tt))[1]) if own_axes else None
        fig, r = plot_zdi.plot_energy_matrix(z, types=types, negative_orders=negative, axs=axs)
        require(len(r) == len(tt), "%d panels", len(r))
        for ax, t in zip(r, tt):
            matrix(ax, cs, t, negative, fig)


def lib_degree(cs, scaled, own_axes):
    with clean():
        z = c06.make(cs)
        ax = plt.subplots()[1] if own_axes else None
        fig, r = plot_zdi.plot_energy_by_degree(z, ax=ax, scaled=scaled)
        require(ax is None or r is ax, "other axes are used")
        by_degree(r, cs, scaled)


def lib_summary(cs):
    with clean():
        fig, axs = plot_zdi.plot_energy_summary(c06.make(cs))
        summary(list(axs), cs)


def lib_traces(cs, geo, box, own_axes):
    with clean():
        ax = plt.subplots()[1] if own_axes else None
        r = plot_zdi.plot_streamtraces(c06.make(cs), geometry=geo(), ax=ax)
        require(ax is None or r is ax, "other axes are used")
        src = zdi_source(cs)
        values(r, src, "strength", 1e-8, box)
        e = [a.get_ylabel() for a in r.figure.axes if a is not r]
        require(any("strength" in s for s in e), "the colour bar is labelled %s", e)

        def direction(x, y):
            f = src(np.deg2rad(y), np.deg2rad(x))
            return f["azimuthal"], f["polar"]
        f = src(*np.meshgrid(np.linspace(0.1, 3, 9), np.linspace(0, 6, 9)))
        if max(np.max(np.abs(f["polar"])), np.max(np.abs(f["azimuthal"]))) > 1e-9 * np.max(f["strength"]):
            follows(r, direction, "the tangential field")
            thickness(r, src, True)


def shc1(cs):
    c = C.Coefficients()
    for l, m, v in cs:
        c.append(l, m, v)
    return c


def lib_pfss(cs, geo, box, radius, rss, own_axes):
    with clean():
        axs = plt.subplots(1, 3)[1] if own_axes else None
        kw = {}
        if radius is not None:
            kw["radius"] = radius
        if rss is not None:
            kw["radius_source_surface"] = rss
        if geo() is not None:
            kw["geometry"] = geo()
        fig, r = plot_pfss.plot_components(shc1(cs), axs=axs, **kw)
        components(fig.axes[:3], fig, pfss_source(cs, radius or 1, 1.0, rss or 2.5), 1e-8, box)
        for ax in fig.axes[:3]:
            require("%2.1f" % (radius or 1) in ax.get_title(), "title %r for radius %s", ax.get_title(), radius)


def lib_slice(cs, normal, rmax, rs, rss):
    with clean():
        kw = {}
        if rs is not None:
            kw["radius_star"] = rs
        if rss is not None:
            kw["radius_source_surface"] = rss
        if rmax is not None:
            kw["rmax"] = rmax
        fig, ax = plot_pfss.plot_slice(shc1(cs), normal, **kw) if normal else plot_pfss.plot_slice(shc1(cs), **kw)
        normal = normal or "x"
        rs, rss, rmax = rs or 1.0, rss or 2.5, rmax or 5
        names = [re.match(r"Distance \$([xyz])/", s)[1] for s in (ax.get_xlabel(), ax.get_ylabel())]
        require(sorted(names + [normal]) == ["x", "y", "z"], "axes %s of the slice normal to %s", names, normal)

        def at(p1, p2):
            q = {normal: np.zeros_like(p1), names[0]: p1, names[1]: p2}
            x, y, z = q["x"], q["y"], q["z"]
            r = np.sqrt(x * x + y * y + z * z)
            t, p = np.arctan2(np.hypot(x, y), z), np.arctan2(y, x)
            return r, t, p, ref.pfss_field(cs, r, t, p, rs, rss)
        m, xy, c, v = mesh(ax)
        lo, hi = c.reshape(-1, 2).min(0), c.reshape(-1, 2).max(0)
        require(np.allclose([*lo, *hi], [-rmax, -rmax, rmax, rmax], rtol=1e-9), "the slice shows %s to %s", lo, hi)
        r, t, p, e = at(c[..., 0], c[..., 1])
        clear = np.abs(r / rs - 1) > 1e-6
        s = max(np.max(np.abs(x)) for x in e)
        d = np.abs(v - e[0])[clear]
        require(np.all(d <= 1e-8 * s), "the slice deviates by %.3g of %.3g", np.max(d), s)
        far = clear & (r > rs)
        require(np.all(np.abs(v - e[0])[far] <= 1e-7 * np.maximum(np.max(np.abs(np.stack(e)), 0), 1e-4 * s)[far]), "the outer field of the slice deviates")
        # the star and the source surface are drawn as circles
        seen = {}
        for cont in (a for a in ax.collections if isinstance(a, ContourSet)):
            for path in cont.get_paths():
                q = np.hypot(*np.asarray(path.vertices, float).T)
                if len(q):
                    seen[float(np.mean(q))] = float(np.ptp(q))
        for want in (rs, rss):
            if want < .98 * rmax:
                require(any(abs(k - want) <= .01 * rmax and w <= .02 * rmax for k, w in seen.items()), "no circle of radius %r is drawn; drawn: %s", want, seen)
        require(all(any(abs(k - want) <= .01 * rmax for want in (rs, rss)) for k in seen), "circles %s, expected %s", sorted(seen), (rs, rss))
        require(any("adial" in a.get_ylabel() for a in fig.axes if a is not ax), "the colour bar is not labelled radial")

        def direction(x, y):
            r, t, p, e = at(x, y)
            xyz = dict(zip("xyz", np.moveaxis(ref.cartesian(*e, t, p), -1, 0)))
            u, w = xyz[names[0]], xyz[names[1]]
            n = np.hypot(u, w) + 1e-300
            # pieces that cross the surface of the star, where the field jumps, are not judged
            k = (r > 1.05 * rs) * 1.0
            return u / n * k, w / n * k
        if any(abs(x).max() > 0 for x in direction(c[..., 0].ravel(), c[..., 1].ravel())):
            follows(ax, direction, "the field in the plane")


def lib_pfss_traces(cs, geo):
    with clean():
        g = geo()
        fig, ax = plot_pfss.plot_streamtraces(shc1(cs), g) if g is not None else plot_pfss.plot_streamtraces(shc1(cs))
        src = pfss_source(cs, 1, 1.0, 2.5)
        m, c, v = values(ax, src, "radial", 1e-8)
        top = np.max(np.abs(v))
        require(np.allclose(m.get_clim(), (-top, top), rtol=1e-12), "colours %s for values up to %s", m.get_clim(), top)

        def direction(x, y):
            f = src(np.deg2rad(y), np.deg2rad(x))
            return f["azimuthal"], f["polar"]
        follows(ax, direction, "the tangential field")
        thickness(ax, src, True)


def partial():
    """Geometries that cover a part of the sphere, and their extents in degrees."""
    for n, (a, b, c, d) in enumerate(((0, 180, 0, 360), (30, 120, 45, 300), (90, 180, 0, 90), (10, 50, 200, 360), (180, 0, 360, 0), (20, 170, 300, 10), (0, 180, -180, 180), (40, 170, -100, 20))):
        for k, m in ((5, 7), (8, 4))[n % 2:n % 2 + bound(1, 2)] or ((5, 7),):
            yield "%d-%d,%d-%d %dx%d" % (a, b, c, d, k, m), lambda: ZdiGeometry(np.deg2rad(np.linspace(a, b, k)), np.deg2rad(np.linspace(c, d, m))), (*sorted((c, d)), *sorted((a, b)))


def lib_equirect(source, q, geo, box, kw, sign):
    with clean():
        g, ax = geo(), plt.subplots()[1]
        v = source(*g.centers())[q]
        v = {"both": v, "positive": np.abs(v) + 1e-3 * np.max(np.abs(v)), "negative": -np.abs(v) - 1e-3 * np.max(np.abs(v))}[sign]
        keep = v.copy()
        opts = {}
        top = np.max(np.abs(v))
        if "vmin" in kw:
            opts["vmin"] = -2 * top
        if "vmax" in kw:
            opts["vmax"] = 3 * top
        if "cmap" in kw:
            opts["cmap"] = "magma"
        if "norm" in kw:
            opts["norm"] = SymLogNorm(linthresh=.1 * top, vmin=-top, vmax=top)
        img = plots.plot_equirectangular(g, v, ax, **opts)
        require(np.array_equal(v, keep), "the values were changed")
        m, xy, c, drawn = mesh(ax)
        require(m is img, "another artist is returned")
        corners_cover(xy, box)
        pc, ac = g.centers()
        # each value at its own cell
        for i in np.ndindex(pc.shape):
            d = np.hypot(c[..., 0] - np.rad2deg(ac[i]), c[..., 1] - np.rad2deg(pc[i]))
            j = np.unravel_index(np.argmin(d), d.shape)
            require(d[j] < 1e-6 and drawn[j] == v[i], "the value at %s is drawn as %r instead of %r", c[j], drawn[j], v[i])
        e = (-top, top) if "norm" in kw else (-2 * top if "vmin" in kw else np.min(v), 3 * top if "vmax" in kw else np.max(v))
        require(np.allclose(m.get_clim(), e, rtol=1e-12, atol=0), "colours span %s, expected %s", m.get_clim(), e)
        require(m.get_cmap().name == ("magma" if "cmap" in kw else "RdBu_r"), "colour map %s", m.get_cmap().name)
        require("norm" not in kw or m.norm is opts["norm"], "norm %s", m.norm)
        if min(v.shape) > 1:
            contours(ax, c, drawn, dashed=[])
        y0, y1 = ax.get_ylim()
        require(y0 > y1, "polar angles run upwards")
        xt, yt = ax.get_xticks(), ax.get_yticks()
        require(np.allclose([min(xt), max(xt), min(yt), max(yt)], box, atol=1e-9) and np.allclose(np.diff(xt), xt[1] - xt[0]) and np.allclose(np.diff(yt), yt[1] - yt[0]), "ticks at %s and %s", xt, yt)
        require("zimuth" in ax.get_xlabel() and "olar" in ax.get_ylabel(), "labels %r, %r", ax.get_xlabel(), ax.get_ylabel())


def lib_magnetic(source, q, geo, box, kw, sign):
    with clean():
        g, ax = geo(), plt.subplots()[1]
        pc, ac = g.centers()
        v = source(pc, ac)[q]
        v = {"both": v, "positive": np.abs(v) + 1e-3 * np.max(np.abs(v)), "negative": -np.abs(v) - 1e-3 * np.max(np.abs(v))}[sign]
        top = np.max(np.abs(v))
        opts = {}
        if "corners" in kw:
            opts["polar_corners"], opts["azimuth_corners"] = g.corners()
        if "symmetric" in kw:
            opts["symmetric"] = True
        if "asymmetric" in kw:
            opts["symmetric"] = False
        if "cmap" in kw:
            opts["cmap"] = "magma"
        if "abs_max" in kw:
            opts["abs_max"] = 4 * top
        if "norm" in kw:
            opts["norm"] = SymLogNorm(linthresh=.1 * top, vmin=-top, vmax=top)
        if "nozero" in kw:
            opts["zero_contour"] = False
        img, zero = plots.plot_magnetic_field(ax, pc, ac, v, **opts)
        m, xy, c, drawn = mesh(ax)
        require(m is img, "another artist is returned")
        if "corners" in kw:
            corners_cover(xy, box)
        for i in np.ndindex(pc.shape):
            d = np.hypot(c[..., 0] - np.rad2deg(ac[i]), c[..., 1] - np.rad2deg(pc[i]))
            j = np.unravel_index(np.argmin(d), d.shape)
            require(d[j] < 1e-6 and drawn[j] == v[i], "the value at %s is drawn as %r instead of %r", c[j], drawn[j], v[i])
        both = np.min(v) < 0 < np.max(v)
        symmetric = "symmetric" in kw or ("asymmetric" not in kw and both)
        lo, hi = m.get_clim()
        require(lo <= np.min(v) + 1e-12 * top and hi >= np.max(v) - 1e-12 * top, "colours span %s, values %s", (lo, hi), (np.min(v), np.max(v)))
        if symmetric:
            require(abs(lo + hi) <= 1e-12 * hi, "the colours span %s, which is not symmetric", (lo, hi))
        if "abs_max" in kw:
            require(abs(hi - 4 * top) <= 1e-12 * top, "the colours end at %r instead of %r", hi, 4 * top)
        require(m.get_cmap().name == ("magma" if "cmap" in kw else "RdBu_r" if symmetric else "viridis"), "colour map %s", m.get_cmap().name)
        require("norm" not in kw or m.norm is opts["norm"], "norm %s", m.norm)
        n = sum(len(p.vertices) for a in ax.collections if isinstance(a, ContourSet) for p in a.get_paths())
        require((n > 0) == bool(symmetric and both and "nozero" not in kw), "%d points of contours", n)
        require(bool(zero) == (n > 0), "returned contours %s", zero)
        if n:
            contours(ax, c, drawn, dashed=[])
        require(ax.get_ylim()[0] > ax.get_ylim()[1], "polar angles run upwards")


def lib_extrema(source, q, geo, sign):
    with clean():
        g, ax = geo(), plt.subplots()[1]
        pc, ac = g.centers()
        v = source(pc, ac)[q]
        v = {"both": v, "positive": np.abs(v), "negative": -np.abs(v)}[sign]
        lo, hi = plots.add_extrema(pc, ac, v, ax, legend_str=NAMES[q], markers="ox", color="r")
        require((lo, hi) == (np.min(v), np.max(v)), "extrema %s returned, values %s", (lo, hi), (np.min(v), np.max(v)))
        ax.legend()
        extrema(ax, np.stack([np.rad2deg(ac), np.rad2deg(pc)], -1), v, q)
        require([l.get_marker() for l in ax.get_lines()] == ["o", "x"] and {l.get_color() for l in ax.get_lines()} == {"r"}, "markers")


def run(ck):
    logging.disable(logging.CRITICAL)
    ck.rule = ("command: all plot types x magnetogram types x magnetograms; library: all plotting functions x terms, components, energy kinds, "
               "normals, geometries and radii x magnetograms; a state is one figure drawn and compared cell by cell with the reference")
    mags = dict(magnetograms())
    n = 0
    for name, sets in mags.items():
        for kind, ptype in itertools.product(("zdi", "pfss"), TYPES):
            s = sets if kind == "zdi" else [next((x for x in sets if any(x.values())), sets[0])]
            n += 1
            ck.step()
            ck.state("command", name, kind, ptype)
            ck.case("command/%s/%s/%s" % (name, kind, ptype), run_command, s, kind, ptype, "figure.png", n, False)
    one = [mags["full4"][0]]
    for ptype in TYPES:
        ck.step()
        ck.state("one-column", ptype)
        ck.case("command/one-column/zdi/%s" % ptype, run_command, one, "zdi", ptype, "figure.png", n, False)
    for ptype, out in itertools.product(("map", "strength", "energy-matrix", "energy-summary", "energy-by-degree"), ("Star V1.PNG", "f.pdf", None) if bound(0, 1) else ("Star V1.PNG", None)):
        n += 1
        ck.step()
        ck.state("save", ptype, out)
        ck.case("save/%s/%s" % (ptype, out), run_command, mags["full4"], "zdi", ptype, out, n, True)
    for flags, ptype, kind, style in itertools.product((["-q"], ["-v"], ["--quiet"], ["--verbose"], ["-v", "-q"]), ("map", "polar", "energy-matrix"), ("zdi", "pfss"), (0, 1)):
        ck.step()
        ck.state("flags", *flags, ptype, kind, style)
        sets = mags["full4"][:1] if kind == "pfss" else mags["full4"]
        ck.case("flags/%s/%s/%s/%d" % (flags, ptype, kind, style), run_command, sets, kind, ptype, "figure.png", style, False, flags)
    for flag in ("--version", "-h", "--help"):
        ck.step()
        ck.state("information", flag)
        ck.case("information/%s" % flag, information, flag, mags["full4"])
    for argv in (["in.dat", "o.png", "-p", "nothing"], ["in.dat", "o.png", "-p", "Map"], ["in.dat", "o.png", "-y", "wso"], ["in.dat", "o.png", "-y", ""],
                 ["in.dat", "o.png", "-p", ""], ["none.dat", "o.png"], [], ["in.dat", "o.png", "-p", "energy"], ["in.dat", "o.png", "-y", "ZDI2", "-p", "radial"]):
        ck.step()
        ck.state("refused", *argv)
        ck.case("refused/%s" % " ".join(argv), refused, argv, mags["full4"])

    geos = list(geometries())
    quick = ("full4", "dipole", "toroidal", "no-axisymmetric", "weak")
    for name, sets in mags.items():
        cs = triples(files.columns(sets))
        gs = geos if name in quick[:1] or bound(0, 1) else geos[1:2]
        for (gname, geo, box), term, (radius, own) in itertools.product(gs, (None, "poloidal", "toroidal"), ((1, False), (2.5, True))):
            if own and name not in quick and not bound(0, 1):
                continue
            ck.step()
            ck.state("components", name, gname, term, own)
            ck.case("components/%s/%s/%s/%s" % (name, gname, term, own), lib_components, cs, geo, box, term, radius, own)
        for (gname, geo, box), q in itertools.product(gs[-1:] if not bound(0, 1) else gs, NAMES):
            ck.step()
            ck.state("field", name, gname, q)
            ck.case("field/%s/%s/%s" % (name, gname, q), lib_field, cs, geo, box, q, True)
        neg = cs + [(2, -1, 1 + 1j, 2j, 0j), (3, -3, 1j, 0j, 1 + 0j)] if name in ("full4", "dipole", "degree-18") else []
        kinds = ["total", "radial", "poloidal", "toroidal", ("radial", "toroidal"), ("total", "radial", "poloidal", "toroidal")]
        for types, own in itertools.product(kinds, (False, True)):
            ck.step()
            ck.state("matrix", name, types, own)
            ck.case("matrix/%s/%s/%s" % (name, types, own), lib_matrix, cs, types, False, own)
            if neg:
                ck.case("matrix-negative/%s/%s/%s" % (name, types, own), lib_matrix, neg, types, True, own)
        for scaled, own in itertools.product((True, False), repeat=2):
            ck.step()
            ck.state("degree", name, scaled, own)
            ck.case("degree/%s/%s/%s" % (name, scaled, own), lib_degree, cs, scaled, own)
        ck.step()
        ck.state("summary", name)
        ck.case("summary/%s" % name, lib_summary, cs)
        if name != "degree-18":
            ck.step()
            ck.state("traces", name)
            ck.case("traces/%s" % name, lib_traces, cs, geos[1][1], geos[1][2], True)
    # every highest degree: labels of the orders
    for L in range(1, bound(17, 31)):
        cs = [(l, m, 1 + 1j * (m != 0), .5 + 0j, .25 + 0j) for l in range(1, L + 1) for m in range(-l, l + 1)]
        ck.step()
        ck.state("orders", L)
        ck.case("matrix-orders/%d" % L, lib_matrix, cs, "total", True, L % 2)
        ck.case("matrix-orders-nonnegative/%d" % L, lib_matrix, [c for c in cs if c[1] >= 0], "total", False, L % 2)
    pf = [[(1, 0, 2 + 0j), (1, 1, 1 - 1j), (2, 1, .5j), (3, 2, .3 + .2j)], [(1, 0, 1 + 0j)], [(2, 2, 1e-6 + 2e-6j)]]
    if bound(0, 1):
        pf += [[(5, 3, 1e5 + 1e5j), (1, 0, 1 + 0j)], [(1, 1, 1j)]]
    for k, cs in enumerate(pf):
        for (radius, rss), (gname, geo, box) in itertools.product(((None, None), (1.7, None), (2.5, None), (4, None), (1, 5.0), (3.0, 5.0), (1, 1.25), (2, 1.5)), geos[:bound(2, 5)]):
            if gname == "default" and (k, radius) != (0, None) and not bound(0, 1):
                continue
            ck.step()
            ck.state("pfss", k, radius, rss, gname)
            ck.case("pfss/%d/%s/%s/%s" % (k, radius, rss, gname), lib_pfss, cs, geo, box, radius, rss, radius != 1.7)
        for normal, (rmax, rs, rss) in itertools.product((None, "x", "y", "z"), ((None, None, None), (3, None, None), (8, 2.0, 6.0), (1.5, .5, 1.1), (90, 20.0, 60.0))):
            if normal is None and rmax or (k and rmax in (8, 1.5, 90) and not bound(0, 1)):
                continue
            ck.step()
            ck.state("slice", k, normal, rmax, rs, rss)
            ck.case("slice/%d/%s/%s/%s/%s" % (k, normal, rmax, rs, rss), lib_slice, cs, normal, rmax, rs, rss)
        for gname, geo, box in geos[:2]:
            for sign in (1, -1):
                ck.step()
                ck.state("pfss-traces", k, gname, sign)
                ck.case("pfss-traces/%d/%s/%+d" % (k, gname, sign), lib_pfss_traces, [(l, m, sign * v) for l, m, v in cs], geo)
    full = triples(files.columns(mags["full4"]))
    src = zdi_source(full)
    options = [dict(zip(("symmetric", "cmap"), v)) for v in itertools.product((True, False), ("magma", "RdBu_r"))] + [dict(cmap="jet"), dict(symmetric=True), dict(symmetric=False)]
    for n, kw in enumerate(options):
        for term in (None, "poloidal", "toroidal"):
            ck.step()
            ck.state("component options", n, term)
            ck.case("component options/%s/%s" % (kw, term), lib_components, full, *geos[n % 2][1:], term, 1, n % 2, kw)
        for q in NAMES:
            ck.step()
            ck.state("field options", n, q)
            ck.case("field options/%s/%s" % (kw, q), lib_field, full, *geos[n % 2][1:], q, n % 2, kw)
    for gname, geo, box in partial():
        for q in NAMES:
            ck.step()
            ck.state("partial field", gname, q)
            ck.case("partial field/%s/%s" % (gname, q), lib_field, full, geo, box, q, True)
        ck.step()
        ck.state("partial components", gname)
        ck.case("partial components/%s" % gname, lib_components, full, geo, box, None, 1, True)
        for kw in itertools.chain([()], *(itertools.combinations(("vmin", "vmax", "cmap"), k) for k in (1, 2, 3)), [("norm",), ("norm", "cmap")]):
            for sign in ("both", "positive", "negative"):
                ck.step()
                ck.state("equirectangular", gname, kw, sign)
                ck.case("equirectangular/%s/%s/%s" % (gname, ",".join(kw), sign), lib_equirect, src, "radial", geo, box, kw, sign)
        for sym, cor, rest in itertools.product(((), ("symmetric",), ("asymmetric",)), ((), ("corners",)),
                                                ((), ("cmap",), ("abs_max",), ("nozero",), ("cmap", "abs_max")) + ((("norm",),) if bound(0, 1) else ())):
            for sign in ("both", "positive", "negative"):
                if "norm" in rest and sym == ("asymmetric",):
                    continue
                ck.step()
                ck.state("field-panel", gname, sym, cor, rest, sign)
                ck.case("field-panel/%s/%s/%s" % (gname, ",".join(sym + cor + rest), sign), lib_magnetic, src, "polar", geo, box, sym + cor + rest, sign)
        for q, sign in itertools.product(NAMES, ("both", "positive", "negative")):
            ck.step()
            ck.state("extrema", gname, q, sign)
            ck.case("extrema/%s/%s/%s" % (gname, q, sign), lib_extrema, src, q, geo, sign)
    ck.sample(dict(case="command/full4/pfss/azimuthal"))
    ck.sample(dict(case="slice/0/y/3/None/None"))
