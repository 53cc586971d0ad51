"""C26: the basis functions and constants that the fields are built from, as functions of their own, against closed forms.

Legendre functions, normalisations, and the radial, polar and azimuthal functions of the PFSS potential, for every degree and
order up to a bound, every layout of the degree, order and point arrays, and every plane.
"""
import itertools, math
from fractions import Fraction
import numpy as np
from mc.core import require, bound
from mc import ref
from starwinds_magnetogram import associated_legendre as AL
from starwinds_magnetogram import pfss_magnetogram as P
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"
THETA = np.array([1.2, 0.05, np.pi / 2, 2.4, 0.3, 3.1, 0.77, 1.9, 2.9, 1e-2])
POLES = np.array([0.0, np.pi, 1e-9, np.pi - 1e-9])


def ratio(l, m):
    """(l - m)! / (l + m)! exactly."""
    return Fraction(math.factorial(l - m), math.factorial(l + m))


def root(q):
    """Square root of a fraction that may be too large or small for a float."""
    n, d = q.numerator, q.denominator
    e = (n.bit_length() - d.bit_length()) // 2 * 2
    q = q / Fraction(2) ** e
    return math.sqrt(q) * 2.0 ** (e // 2)


def norm(l, m):
    return root(ratio(l, m) * (2 * l + 1)) / math.sqrt(4 * math.pi)


def legendre(L, theta):
    """{(l, m): (P, dP/dtheta)} with Condon-Shortley phase, negative orders included."""
    h = ref.Harmonics(L, theta, np.zeros_like(theta))
    r = {}
    for l in range(L + 1):
        for m in range(-l, l + 1):
            r[l, m] = (h.p(l, m) / norm(l, m), h.dp(l, m) / norm(l, m))
    return r


def near(got, want, tol, what, *a):
    got, want = np.asarray(got), np.asarray(want)
    require(got.shape == want.shape, what + ": shape %s, expected %s", *a, got.shape, want.shape)
    s = np.max(np.abs(want), initial=0)
    require(np.all(np.isfinite(got)), what + ": not finite", *a)
    d = np.max(np.abs(got - want), initial=0)
    require(d <= tol * s, what + ": deviates by %.3g of %.3g", *a, d, s)


def lpmn(ls, ms, theta, table, tol=1e-9):
    a, b = AL.calculate_lpmn(ls, ms, theta)
    la, ma = np.ravel(ls), np.ravel(ms)
    shape = np.shape(theta) + np.shape(ls)
    for got, k, name in ((a, 0, "value"), (b, 1, "derivative")):
        require(np.shape(got) == shape, "the %ss have shape %s, expected %s", name, np.shape(got), shape)
        g = np.reshape(got, np.shape(theta) + (len(la),))
        for i, (l, m) in enumerate(zip(la, ma)):
            near(g[..., i], table(int(l), int(m))[k], tol, "%s of P(%d, %d)", name, l, m)


def legendre_functions(ck):
    L = bound(12, 40)
    t = np.concatenate([THETA, POLES])
    tab = legendre(L, t)
    keys = [(l, m) for l in range(L + 1) for m in range(-l, l + 1)]
    high = [(l, m) for l in bound((20, 45, 70, 85), range(45, 86, 5)) for m in sorted({0, 1, l // 2, l - 1, l})]
    tab.update({k: v for k, v in legendre(85, t).items() if k in high})
    for l, m in keys + high:
        ck.step(2)
        ck.state("legendre", l, m)
        # the cosine loses the last digits of the angle next to the poles
        ck.case("legendre l=%d m=%d" % (l, m), lpmn, np.array([l]), np.array([m]), t, lambda l, m: tab[l, m], 1e-7 if l <= 12 else 1e-8 * l * (l + 1))
    # every pair: the arrays that are filled depend on the largest degree and order asked for
    pairs = [k for k in keys if k[0] <= bound(3, 5)]
    for a, b in itertools.product(pairs, repeat=2):
        ck.step()
        ck.state("pair", a, b)
        ck.case("legendre pair %s %s" % (a, b), lpmn, np.array([a[0], b[0]]), np.array([a[1], b[1]]), t, lambda l, m: tab[l, m], 1e-7)
    for shape in ((14,), (14, 1), (1, 14), (7, 2), (2, 7), (1, 7, 2)):
        for n in (*range(bound(5, 9)), 31, 50, len(keys)):
            ks = keys[:n] if n else [(2, 1)]
            for form in ("array", "list", "tuple", "int32", "reversed"):
                ls, ms = [k[0] for k in ks], [k[1] for k in ks]
                if form == "array":
                    ls, ms = np.array(ls), np.array(ms)
                elif form == "int32":
                    ls, ms = np.array(ls, dtype="i4"), np.array(ms, dtype="i4")
                elif form == "tuple":
                    ls, ms = tuple(ls), tuple(ms)
                elif form == "reversed":
                    ls, ms = np.array(ls)[::-1], np.array(ms)[::-1]
                ck.step()
                ck.state("layout", shape, n, form)

                def one():
                    for _ in range(2):
                        lpmn(ls, ms, t.reshape(shape), lambda l, m: [x.reshape(shape) for x in tab[l, m]], 1e-7)
                        order = slice(None, None, -1) if form == "reversed" else slice(None)
                        require(list(zip(ls, ms)) == ks[order], "the degrees and orders that were passed have changed")
                ck.case("legendre layout %s %d %s" % (shape, n, form), one)


def constants(ck):
    L = bound(85, 100)
    keys = [(l, m) for l in range(L + 1) for m in range(-l, l + 1)]
    for method in (None, "low_order", "high_order"):
        kw = {} if method is None else {"method": method}
        for l in range(L + 1):
            def one():
                ms = np.arange(-l, l + 1)
                got = Z.get_c_lm(np.full(len(ms), l), ms, **kw)
                require(np.shape(got) == ms.shape, "shape %s", np.shape(got))
                for m, g in zip(ms, got):
                    e = norm(l, int(m))
                    require(abs(g - e) <= 1e-9 * e, "c(%d, %d) is %r, expected %r", l, m, g, e)
                    s = Z.get_c_lm(l, int(m), **kw)
                    require(abs(s - e) <= 1e-9 * e, "c(%d, %d) alone is %r, expected %r", l, m, s, e)
            ck.step(2 * l + 1)
            ck.state("constants", method, l)
            ck.case("normalisation %s l=%d" % (method, l), one)

        def mixed():
            for step in (1, 3, 7):
                ks = keys[::step][::-1]
                got = Z.get_c_lm([k[0] for k in ks], [k[1] for k in ks], **kw)
                e = np.array([norm(*k) for k in ks])
                require(np.all(np.abs(got - e) <= 1e-9 * e), "mixed degrees")
        ck.step(3)
        ck.state("constants", method, "mixed")
        ck.case("normalisation %s of mixed degrees" % method, mixed)


def theta(l, m, tab):
    """Schmidt quasi-normalised functions without the Condon-Shortley phase."""
    f = (-1) ** (m % 2) * root(ratio(l, m)) * math.sqrt(1 if m == 0 else 2)
    return f * tab[l, m][0], f * tab[l, m][1]


def polar(ck):
    L = bound(12, 30)
    tab = legendre(L, THETA)
    fine = legendre(L, np.linspace(0, np.pi, 400))
    high = [(l, m) for l in bound((20, 45, 70, 85), range(35, 86, 5)) for m in sorted({0, 1, l // 2, l - 1, l})]
    tab.update({k: v for k, v in legendre(85, THETA).items() if k in high})
    fine.update({k: v for k, v in legendre(85, np.linspace(0, np.pi, 400)).items() if k in high})
    for l, m in [(l, m) for l in range(L + 1) for m in range(l + 1)] + high:
        for shape in ((10,), (5, 2)):
            def one():
                e, d = theta(l, m, tab)
                v, dv = P.theta_lm(l, m, THETA.reshape(shape))
                near(v, e.reshape(shape), 1e-9, "Theta(%d, %d)", l, m)
                # a one-sided difference over 0.01 rad: half a step times the largest second derivative, doubled,
                # and only where the step is small beside the distance from a pole
                k = (THETA > .25) & (THETA < 2.85)
                require(np.shape(dv) == shape, "shape of the derivative %s", np.shape(dv))
                curv = l * (l + 1) * np.max(np.abs(theta(l, m, fine)[0])) * 6
                dd = np.abs(np.reshape(dv, -1) - d)[k]
                require(np.all(dd <= .01 * curv + 1e-9), "the derivative of Theta(%d, %d) deviates by %.3g, with second derivatives below %.3g", l, m, np.max(dd), curv)
            ck.step()
            ck.state("theta", l, m, shape)
            ck.case("polar function l=%d m=%d %s" % (l, m, shape), one)
    keys = [(l, m) for l in range(7) for m in range(l + 1)]
    for n, (order, shape) in enumerate(itertools.product((1, -1), ((10,), (5, 2), (2, 5, 1)))):
        for exact in (None, True, False):
            def everything():
                ks = keys[::order]
                kw = {} if exact is None else {"scipy": exact}
                v, d = P.calculate_all_theta([k[0] for k in ks], np.array([k[1] for k in ks]), THETA.reshape(shape), **kw)
                require(np.shape(v) == shape + (len(ks),) == np.shape(d), "shapes %s, %s", np.shape(v), np.shape(d))
                for i, (l, m) in enumerate(ks):
                    e, ed = theta(l, m, tab)
                    near(v[..., i], e.reshape(shape), 1e-9, "Theta(%d, %d)", l, m)
                    if exact is not False:
                        near(d[..., i], ed.reshape(shape), 1e-9, "derivative of Theta(%d, %d)", l, m) if l else require(not np.any(np.abs(d[..., i]) > 1e-12), "derivative of a constant")
            ck.step()
            ck.state("all theta", order, shape, exact)
            ck.case("all polar functions %s %s %s" % (order, shape, exact), everything)


def radial(ck):
    """R and dR/dr from the defining equation: R = r (rs/r)^(l+2) (1 - (r/rss)^(2l+1)) / (l + 1 + l (rs/rss)^(2l+1))."""
    L = bound(85, 120)
    for l in range(L + 1):
        for rs, rss in ((1, 2.5), (1.0, 1.1), (2.0, 20.0), (.5, 3), (7e10, 1.75e11), (Fraction(1), Fraction(5, 2))):
            def one():
                q = [Fraction(rs) + (Fraction(rss) - Fraction(rs)) * Fraction(k, 7) for k in range(8)]
                f0, f1 = Fraction(rs), Fraction(rss)
                den = l + 1 + l * (f0 / f1) ** (2 * l + 1)
                v = [float(r * (f0 / r) ** (l + 2) * (1 - (r / f1) ** (2 * l + 1)) / den) for r in q]
                d = [float(-(f0 / r) ** (l + 2) * (l + 1 + l * (r / f1) ** (2 * l + 1)) / den) for r in q]
                a, b = float(rs), float(rss)
                rr = np.array([float(x) for x in q])
                got = P.r_l(l, rr, a, b)
                require(len(got) == 2, "%d results", len(got))
                tops = np.maximum.accumulate(np.abs(v[::-1]))[::-1]
                for i, (gv, gd, ev, ed) in enumerate(zip(*got, v, d)):
                    # 1 - (r/rss)^(2l+1) loses digits close to the source surface
                    require(abs(gv - ev) <= 1e-12 * abs(ev) + 1e-14 * (2 * l + 1) * rr[i] * (a / rr[i]) ** (l + 2), "R(%d) at %r is %r, expected %r", l, rr[i], gv, ev)
                    require(abs(gd - ed) <= 1e-11 * abs(ed), "R'(%d) at %r is %r, expected %r", l, rr[i], gd, ed)
                    s = P.r_l(l, rr[i], a, b)
                    require(np.shape(s[0]) == () and abs(s[0] - gv) <= 1e-12 * abs(gv) and abs(s[1] - gd) <= 1e-12 * abs(gd), "one radius: %s", s)
                two = P.r_l(l, rr.reshape(2, 4), a, b)
                require(np.array_equal(two[0].ravel(), got[0]) and np.array_equal(two[1].ravel(), got[1]) and two[0].shape == (2, 4), "layout")
            ck.step(8)
            ck.state("radial", l, float(rs), float(rss))
            ck.case("radial function l=%d %s %s" % (l, rs, rss), one)


def azimuthal(ck):
    phi = np.array([0, .1, -2.7, 3.9, np.pi - 3e-7, -2e-7, 2 * np.pi - 1e-7, -np.pi / 2])
    for m in range(bound(16, 40)):
        for g, h in itertools.product((0, 1, -2.5, 1e-7, 3e6), repeat=2):
            for shape in ((8,), (2, 4)):
                def one():
                    e = np.real((g - 1j * h) * np.exp(1j * m * phi))
                    d = np.real((g - 1j * h) * 1j * m * np.exp(1j * m * phi))
                    got = P.phi_lm(m, g, h, phi.reshape(shape))
                    s = abs(g) + abs(h)
                    require(np.shape(got[0]) == shape == np.shape(got[1]), "shapes")
                    require(np.all(np.abs(np.ravel(got[0]) - e) <= 1e-12 * s), "Phi(%d)", m)
                    require(np.all(np.abs(np.ravel(got[1]) - d) <= 1e-12 * s * max(m, 1)), "Phi'(%d)", m)
                ck.step()
                ck.state("azimuthal", m, g, h, shape)
                ck.case("azimuthal function m=%d %s %s %s" % (m, g, h, shape), one)


def planes(ck):
    for normal, (n1, n2), kind in itertools.product("xyz", ((1, 1), (2, 3), (3, 2), (4, 1)), ("float", "int")):
        def one():
            a, b = np.meshgrid(np.arange(1, n1 + 1), np.arange(10, 10 * n2 + 1, 10))
            if kind == "float":
                a, b = a / 4, b / 8
            keep = a.copy(), b.copy()
            got = P.normal_plane(a, b, normal)
            require(len(got) == 3, "%d coordinates", len(got))
            rest = iter((a, b))
            for name, c in zip("xyz", got):
                require(np.shape(c) == a.shape + (1,), "%s has shape %s", name, np.shape(c))
                e = np.zeros(a.shape) if name == normal else next(rest)
                require(np.array_equal(np.asarray(c)[..., 0], e), "the %s coordinate of the plane normal to %s is %s", name, normal, np.asarray(c)[..., 0].tolist())
            require(np.array_equal(a, keep[0]) and np.array_equal(b, keep[1]), "arguments changed")
        ck.step()
        ck.state("plane", normal, n1, n2, kind)
        ck.case("plane normal to %s %dx%d %s" % (normal, n1, n2, kind), one)


def run(ck):
    ck.rule = "a state is one function with one degree, order, layout or plane, compared with its closed form"
    ck.assumptions = ["values compared to 1e-9 of the largest value over the points (1e-7 with points at or beside a pole)"]
    legendre_functions(ck)
    constants(ck)
    polar(ck)
    radial(ck)
    azimuthal(ck)
    planes(ck)
    ck.sample(dict(case="legendre l=3 m=-2"))
