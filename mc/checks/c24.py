"""C24: tick values and labels over all exponent ranges and steps, shifts of labels, number formats over mantissas and exponents."""
import itertools, math, re
import numpy as np
from decimal import Decimal
from mc.core import Mismatch, require, bound
from starwinds_magnetogram import colorbar_manual_tickmarks as T
from starwinds_magnetogram import plots

LEVEL = "model_checking"
SHARDS = 8


def power(e):
    return float(Decimal(10) ** e)


def read_label(s):
    """The number a tick label names."""
    if s.strip("$") == "0":
        return 0.0
    m = re.fullmatch(r"\$(-?)10\^\{(-?\d+)\}\$", s)
    require(m, "label %r is not a power of ten", s)
    return (-1 if m[1] else 1) * power(int(m[2]))


def near(a, b):
    return abs(a - b) <= 1e-12 * abs(b)


def major(lo, hi, step):
    v, l = T.generate_major(lo, hi, step)
    exps = list(range(lo, hi + 1, step))
    exp = [-power(e) for e in exps[::-1]] + [0.0] + [power(e) for e in exps]
    require(len(v) == len(exp) == len(l), "%d values and %d labels, expected %d", len(v), len(l), len(exp))
    for a, b, s in zip(v, exp, l):
        require(near(a, b), "value %r, expected %r", a, b)
        require(near(read_label(s), b), "label %r of the value %r", s, b)
    require(all(x < y for x, y in zip(v, v[1:])), "values not increasing: %s", v)


def minor(lo, hi, step):
    v = [float(x) for x in T.generate_minor(lo, hi, step)]
    require(all(x < y for x, y in zip(v, v[1:])), "values not increasing")
    allowed = {0.0} | {s * k * power(e) for s in (-1, 1) for k in range(1, 10) for e in range(lo - 1, hi + 1)}
    al = np.array(sorted(allowed))
    for x in v:
        i = np.argmin(np.abs(al - x))
        require(near(x, al[i]), "minor value %r is not a multiple of a power of ten of the range", x)
    arr = np.array(v)
    for x in allowed:
        if power(lo) <= abs(x) <= power(hi):
            require(np.min(np.abs(arr - x)) <= 1e-12 * abs(x), "minor value %r is missing", x)


def shift(sign, e, k, template):
    s = template % (sign, e)
    r = T.tesla_to_gauss(s) if k is None else T.tesla_to_gauss(s, k)
    require(r == template % (sign, e + (4 if k is None else k)), "%r becomes %r", s, r)


def latex(x, pattern=None):
    s = plots.latex_float(x) if pattern is None else plots.latex_float(x, pattern)
    m = re.fullmatch(r"([+-]?)(\d+(?:\.\d+)?)(?: \\times 10\^\{(-?\d+)\})?", s)
    require(m, "%r is written %r", x, s)
    val = Decimal(m[1] + m[2]) * Decimal(10) ** int(m[3] or 0)
    digits = {None: 3, "{0:.5g}": 5, "{0:+.2e}": 3, "{0:.0e}": 1, "{0:+.1f}": None}[pattern]
    exact = Decimal(float(x))
    if digits is None:
        require(abs(val - exact) <= Decimal("0.0500001"), "%r is written %r", x, s)
    elif x == 0:
        require(val == 0, "0 is written %r", s)
    else:
        unit = Decimal(10) ** (exact.adjusted() - digits + 1)
        require(abs(val - exact) <= unit * Decimal("0.50001"), "%r is written %r, which reads %s", x, s, val)
    if pattern is None or "+" in pattern:
        require(m[1] == ("-" if math.copysign(1, x) < 0 else "+"), "sign of %r in %r", x, s)


def colorbar(norm_name, orientation, lo, hi, how):
    import matplotlib.pyplot as plt
    import matplotlib.colors as mc
    norm = {"symlog": lambda: mc.SymLogNorm(linthresh=power(lo), vmin=-power(hi), vmax=power(hi), base=10),
            "linear": lambda: mc.Normalize(-power(hi), power(hi)),
            "wider": lambda: mc.SymLogNorm(linthresh=power(lo), vmin=-3 * power(hi), vmax=3 * power(hi), base=10),
            "lopsided": lambda: mc.SymLogNorm(linthresh=power(lo), vmin=-power(hi), vmax=power(hi - 1), base=10),
            "other way": lambda: mc.SymLogNorm(linthresh=power(lo), vmin=-power(hi - 1), vmax=power(hi), base=10),
            "natural": lambda: mc.SymLogNorm(linthresh=power(lo), vmin=-power(hi), vmax=power(hi), linscale=.5, base=np.e)}[norm_name]()
    try:
        fig, ax = plt.subplots()
        img = ax.pcolormesh(np.linspace(-power(hi), power(hi), 16).reshape(4, 4), norm=norm)
        cb = fig.colorbar(img, orientation=orientation)
        axis = cb.ax.xaxis if orientation == "horizontal" else cb.ax.yaxis
        v, l = T.generate_major(lo, hi - (norm_name in ("lopsided", "other way")), 1)
        mn = T.generate_minor(lo, hi, 1)
        if how == "manual":
            T.fully_manual_tickmarks(axis, norm, v, l, mn)
        else:
            T.auto_symlog_tickmarks(cb, axis="x" if orientation == "horizontal" else "y")
        fig.canvas.draw()
        a, b = axis.get_view_interval()
        tr = axis.get_transform()
        ta, tb = tr.transform(np.array([a, b], float))
        fraction = lambda x: (tr.transform(np.array([x], float))[0] - ta) / (tb - ta)
        locs, labels = axis.get_majorticklocs(), [t.get_text() for t in axis.get_ticklabels()]
        require(labels == l, "labels %s, expected %s", labels, l)
        require(len(locs) == len(v), "%d ticks, expected %d", len(locs), len(v))
        for p, x in zip(locs, v):
            require(abs(fraction(p) - float(norm(x))) <= 1e-6, "the tick of %g lies at %.6f of the bar, the value at %.6f", x, fraction(p), float(norm(x)))
        got = sorted(float(norm(x)) for x in mn if -1e-9 <= float(norm(x)) <= 1 + 1e-9)
        locs = sorted(fraction(p) for p in axis.get_minorticklocs())
        for p in locs:
            require(min(abs(p - q) for q in got) <= 1e-6, "a minor tick lies at %.6f of the bar, where none of the values is", p)
        for q in got:
            # the ends, and ticks that coincide with a major one, may be left out
            if 1e-6 < q < 1 - 1e-6 and min(abs(q - float(norm(x))) for x in v) > 1e-6:
                require(min(abs(p - q) for p in locs) <= 1e-6, "no minor tick lies at %.6f of the bar", q)
        require(a <= b and abs(fraction(a)) < 1e-9, "limits")
    finally:
        plt.close("all")


def automatic(thresh, top, orientation, step):
    """Automatic ticks of a bar whose ends are no powers of ten: each is labelled with its value and lies where that is."""
    import matplotlib.pyplot as plt
    import matplotlib.colors as mc
    norm = mc.SymLogNorm(linthresh=thresh, vmin=-top, vmax=top, base=10)
    try:
        fig, ax = plt.subplots()
        img = ax.pcolormesh(np.linspace(-top, top, 16).reshape(4, 4), norm=norm)
        cb = fig.colorbar(img, orientation=orientation)
        axis = cb.ax.xaxis if orientation == "horizontal" else cb.ax.yaxis
        T.auto_symlog_tickmarks(cb, axis="x" if orientation == "horizontal" else "y", major_tick_step=step)
        fig.canvas.draw()
        tr = axis.get_transform()
        ta, tb = tr.transform(np.array(axis.get_view_interval(), float))
        fraction = lambda x: (tr.transform(np.array([x], float))[0] - ta) / (tb - ta)
        locs, values = axis.get_majorticklocs(), [read_label(t.get_text()) for t in axis.get_ticklabels()]
        require(len(locs) == len(values), "%d ticks, %d labels", len(locs), len(values))
        for p, x in zip(locs, values):
            require(abs(fraction(p) - float(norm(x))) <= 1e-6, "the tick labelled %g lies at %.6f of the bar, the value at %.6f", x, fraction(p), float(norm(x)))
        if step == 1:
            for e in range(-12, 12):
                if thresh <= power(e) <= top:
                    require(all(any(near(x, s * power(e)) for x in values) for s in (1, -1)), "no tick at 1e%d; ticks %s", e, values)
            minor = [fraction(p) for p in axis.get_minorticklocs()]
            for e in range(-12, 12):
                for k in range(2, 10):
                    x = k * power(e)
                    if thresh <= power(e) and x < .999 * top:
                        require(all(min(abs(p - float(norm(s * x))) for p in minor) <= 1e-6 for s in (1, -1)), "no minor tick at %g", x)
        require(0.0 in values, "zero is not marked")
    finally:
        plt.close("all")


def run(ck):
    ck.rule = "a state is one argument combination of one of the functions, or one drawn colour bar with its ticks"
    R = bound(12, 40)
    for lo in range(-R, R + 1):
        for hi in range(lo, min(lo + bound(14, 60), R + 13)):
            for step in (1, 2, 3, 5):
                ck.step(2)
                ck.state("range", lo, hi, step)
                ck.case("major %d %d %d" % (lo, hi, step), major, lo, hi, step)
                if step < 3:
                    ck.case("minor %d %d %d" % (lo, hi, step), minor, lo, hi, step)
    for lo, n, step in itertools.product(tuple(range(-bound(24, 60), -R)) + tuple(range(R + 1, bound(25, 60))), (0, 1, 3, 8), (1, 2, 3)):
        ck.step(2)
        ck.state("range", lo, lo + n, step)
        ck.case("major %d %d %d" % (lo, lo + n, step), major, lo, lo + n, step)
        ck.case("minor %d %d %d" % (lo, lo + n, step), minor, lo, lo + n, step)
    for template in ("$%s10^{%d}$", "%s10^{%d}", "$%s2 \\times 10^{%d}$ T"):
        for sign in ("", "-"):
            for e in range(-30, 31):
                for k in (None, 0, 1, -4, 4, 10, -30, 100):
                    ck.step()
                    ck.state("shift", template, sign, e, k)
                    ck.case("shift %s by %s" % (template % (sign, e), k), shift, sign, e, k, template)

    def unchanged(s):
        for k in (4, 0, -7):
            require(T.tesla_to_gauss(s, k) == s, "%r becomes %r", s, T.tesla_to_gauss(s, k))
    for s in ("0", "", "$0$", "1.5", "-3"):
        ck.state("unchanged", s)
        ck.case("unchanged %r" % s, unchanged, s)

    def of_major(lo, hi, k):
        v, l = T.generate_major(lo, hi, 1)
        for x, s in zip(v, l):
            require(near(read_label(T.tesla_to_gauss(s, k)), x * power(k)), "label %r shifted by %d", s, k)
    for lo in range(-6, 3):
        for k in (-4, 4, 7):
            ck.state("of major", lo, k)
            ck.case("labels from %d shifted by %d" % (lo, k), of_major, lo, lo + 5, k)
    mant = [1, 1.5, 9.99, 9.994, 9.995001, 9.996, 2.345, 2.355, 1.0049, 5, 7.77777, 3.14159265]
    for pattern in (None, "{0:.5g}", "{0:+.2e}", "{0:.0e}", "{0:+.1f}"):
        for e in range(-20, 21) if pattern != "{0:+.1f}" else range(-3, 6):
            for m in mant:
                for s in (1, -1):
                    ck.step()
                    ck.state("latex", pattern, e, m, s)
                    ck.case("latex %g %s" % (s * m * 10.0 ** e, pattern), latex, s * m * 10.0 ** e, pattern)
        for x in (0.0, 0, -1, 7, 1000, 123456, np.float64(3.5e7), np.float32(2.5), np.int64(40), 1e-300, -1.7e308)[:None if pattern != "{0:+.1f}" else 8]:
            ck.state("latex", pattern, repr(x))
            ck.case("latex %r %s" % (x, pattern), latex, x, pattern)
    for norm, ori, (lo, hi) in itertools.product(("symlog", "linear", "wider", "natural", "lopsided", "other way"), ("horizontal", "vertical"), bound([(0, 3), (-2, 1)], [(0, 3), (-2, 1), (-4, 4), (1, 2)])):
        for how in ("manual", "auto"):
            if how == "auto" and norm in ("linear", "lopsided", "other way"):
                continue
            ck.step()
            ck.state("bar", norm, ori, lo, hi, how)
            ck.case("colour bar %s %s %d %d %s" % (norm, ori, lo, hi, how), colorbar, norm, ori, lo, hi, how)
    for thresh, top, ori, step in itertools.product((1.0, .03, 5.0, 2e-4), (7.0, 60.0, 999.0, .5, 30000.0), ("horizontal", "vertical"), (1, 2)):
        if thresh < top:
            ck.step()
            ck.state("automatic", thresh, top, ori, step)
            ck.case("automatic ticks %g %g %s %d" % (thresh, top, ori, step), automatic, thresh, top, ori, step)
    ck.sample(dict(label="$-10^{-3}$", shift=4, becomes="$-10^{1}$"))
