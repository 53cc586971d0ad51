"""C06: every (degree, order, coefficient kind, real/imaginary unit) against an independent reference at a set of points.

The field is real-linear in the coefficients, so the basis elements decide single coefficients; sums are decided by
every pair of basis elements up to degree 2 and by whole sets in every arrangement of an alphabet of orders; points by
every array layout of an alphabet, since the value at a point may depend on nothing but the point.
"""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"
KINDS = ("alpha", "beta", "gamma")

THETA = np.array([0.05, 0.3, 0.77, 1.2, np.pi / 2, 1.9, 2.4, 2.9, 3.1, 1e-2, 0.6, 1.0])
PHI = np.array([0.1, -2.7, 3.9, 0.0, 1.1, 2.2, 7.0, -0.4, 5.5, 2.0, 3 * np.pi / 2, np.pi])
NEAR = np.array([1e-3, 1e-4, np.pi - 1e-3, np.pi - 1e-4])


def getters(z):
    a = z.get_all()
    res = {}
    for comp in ("radial", "polar", "azimuthal"):
        for part in ("poloidal", "toroidal"):
            res[comp + "-" + part] = a[comp][part]
    res["radial"] = z.get_radial_field
    res["polar"] = z.get_polar_field
    res["azimuthal"] = z.get_azimuthal_field
    res["radial-poloidal*"] = z.get_radial_poloidal_field
    res["radial-toroidal*"] = z.get_radial_toroidal_field
    res["polar-toroidal*"] = z.get_polar_toroidal_field
    res["azimuthal-poloidal*"] = z.get_azimuthal_poloidal_field
    res["polar-poloidal*"] = z.get_polar_poloidal_field_new
    res["azimuthal-toroidal*"] = z.get_azimuthal_toroidal_field_new
    return res


def expected(coeffs, theta, phi, h=None):
    p = ref.zdi_parts(coeffs, theta, phi, h)
    res = dict(p)
    for k in p:
        res[k + "*"] = p[k]
    for c in ("radial", "polar", "azimuthal"):
        res[c] = p[c + "-poloidal"] + p[c + "-toroidal"]
    return res


def make(coeffs):
    l, m = [np.array([c[i] for c in coeffs], dtype=int) for i in (0, 1)]
    a, b, g = [np.array([c[i] for c in coeffs], dtype=complex) for i in (2, 3, 4)]
    return Z.ZdiMagnetogram(l, m, a, b, g)


def compare(z, exp, theta, phi, scale, tol, what="", only=None):
    for name, f in getters(z).items():
        if only and name not in only:
            continue
        v = f(theta, phi)
        e = exp[name]
        require(np.shape(v) == np.shape(theta), "%s%s field has shape %s for points of shape %s", what, name, np.shape(v), np.shape(theta))
        require(not np.iscomplexobj(v), "%s%s field is complex", what, name)
        if not np.all(np.isfinite(v)):
            raise Mismatch("%s%s field is not finite" % (what, name))
        d = np.max(np.abs(v - e)) if np.size(e) else 0
        require(d <= tol * scale, "%s%s field deviates by %.3g (scale %.3g)", what, name, d, scale)


def coeff(l, m, kind, v):
    c = [0j, 0j, 0j]
    c[kind] = v
    return (l, m, *c)


def scale_of(exp):
    return max(np.max(np.abs(v), initial=0) for v in exp.values()) or 1.0


def basis(ck):
    L = bound(9, 30)
    keys = [(l, m) for l in range(L + 1) for m in range(-l, l + 1)]
    far = [(l, m) for l in bound((20, 40, 60, 85), (35, 45, 60, 75, 80, 84, 85)) for m in sorted({0, 1, -1, 2, l // 2, -l // 3, l - 1, l, -l})]
    lmax = max(k[0] for k in keys + far)
    h, hn = ref.Harmonics(lmax, THETA, PHI), ref.Harmonics(lmax, np.repeat(NEAR, 2), np.tile(PHI[:2], 4))
    for l, m in keys + far:
        for kind in range(3):
            for unit in ((1, 1j, -2.5 + 0.75j)[: 3 if l <= 4 else 2] if l <= bound(5, 12) else (1 - 2j,)):
                def one():
                    cs = [coeff(l, m, kind, unit)]
                    z = make(cs)
                    exp = expected(cs, THETA, PHI, h)
                    s = scale_of(exp)
                    compare(z, exp, THETA, PHI, s, 1e-9)
                    # near the poles the reference values may be small: the scale is that of the whole field
                    compare(z, expected(cs, hn.theta, hn.phi, hn), hn.theta, hn.phi, s, 1e-6, "near the pole: ")
                ck.step(30)
                ck.state("basis", l, m, kind, unit)
                ck.case("basis l=%d m=%d %s unit=%s" % (l, m, KINDS[kind], unit), one)


def pairs(ck):
    """Sums: every pair of basis elements (also equal ones: repeated entries add up)."""
    L = bound(2, 3)
    els = [(l, m, k, u) for l in range(L + 1) for m in range(-l, l + 1) for k in range(3) for u in (1, 1j)]
    th, ph = THETA[[1, 5, 7]], PHI[[1, 5, 7]]
    h = ref.Harmonics(L, th, ph)
    part = {e: expected([coeff(*e)], th, ph, h) for e in els}
    for a in els:
        def one():
            for b in els:
                e = {k: part[a][k] - 3 * part[b][k] for k in part[a]}
                z = make([coeff(*a), coeff(b[0], b[1], b[2], -3 * b[3])])
                compare(z, e, th, ph, max(scale_of(e), 0.1), 1e-10, "with %s: " % (b,), ("radial", "polar", "azimuthal"))
                ck.state("pair", a, b)
                ck.step(3)
        ck.case("pairs with l=%d m=%d %s %s" % (a[0], a[1], KINDS[a[2]], a[3]), one)


def example(L=4, mmin=None, seed=3):
    r = np.random.default_rng(seed)
    return [(l, m, *(complex(*r.normal(size=2)) for _ in range(3))) for l in range(L + 1) for m in range(-l if mmin is None else mmin, l + 1)]


def sets(ck):
    """Whole sets: orders of the arrays, sparse subsets, other number types, other constructors."""
    th, ph = THETA, PHI
    small = [(1, 0), (1, 1), (2, -1), (3, 3)]
    vals = {k: (complex(k[0], 1), complex(-k[1], k[0]), complex(0.5, -k[0])) for k in small}
    for n in range(1, 5):
        for p in itertools.permutations(small, n):
            def one():
                cs = [(l, m, *vals[l, m]) for l, m in p]
                e = expected(cs, th, ph)
                compare(make(cs), e, th, ph, scale_of(e), 1e-10)
            ck.step(15)
            ck.state("perm", p)
            ck.case("entries in the order %s" % (p,), one)
    ex = example()
    e = expected(ex, th, ph)
    l, m, a, b, g = map(np.array, zip(*ex))

    def ctor(name, f, e=e):
        def one():
            compare(f(), e, th, ph, scale_of(e), 1e-10)
        ck.step(15)
        ck.state("constructor", name)
        ck.case("constructed by " + name, one)
    zero = np.zeros_like(a)

    def shc(*cols):
        return C.from_arrays(l, m, np.stack(cols, -1))
    ctor("arrays", lambda: Z.ZdiMagnetogram(l, m, a, b, g))
    ctor("lists", lambda: Z.ZdiMagnetogram(*[list(x) for x in (l, m, a, b, g)]))
    ctor("reversed arrays", lambda: Z.ZdiMagnetogram(*[x[::-1] for x in (l, m, a, b, g)]))
    ctor("strided arrays", lambda: Z.ZdiMagnetogram(*[np.repeat(x, 2)[::2] for x in (l, m, a, b, g)]))
    ctor("int32 indices", lambda: Z.ZdiMagnetogram(l.astype(np.int32), m.astype(np.int32), a, b, g))
    ctor("coefficients", lambda: Z.from_coefficients(shc(a, b, g)))
    only = [(x[0], x[1], x[2], 0, 0) for x in ex]
    ctor("arrays alpha only", lambda: Z.ZdiMagnetogram(l, m, a), expected(only, th, ph))
    ctor("coefficients alpha only", lambda: Z.from_coefficients(shc(a)), expected(only, th, ph))
    two = [(x[0], x[1], x[2], x[3], 0) for x in ex]
    ctor("arrays alpha beta", lambda: Z.ZdiMagnetogram(l, m, a, b), expected(two, th, ph))
    ctor("coefficients alpha beta", lambda: Z.from_coefficients(shc(a, b)), expected(two, th, ph))
    ctor("keyword gamma", lambda: Z.ZdiMagnetogram(l, m, alpha_lm=zero, gamma_lm=g), expected([(x[0], x[1], 0, 0, x[4]) for x in ex], th, ph))
    ctor("real alpha, complex others", lambda: Z.ZdiMagnetogram(l, m, a.real, b, g), expected([(x[0], x[1], x[2].real, x[3], x[4]) for x in ex], th, ph))
    ctor("integer coefficients", lambda: Z.ZdiMagnetogram(l, m, l * 2 - m, m * 3, l + 1), expected([(x[0], x[1], x[0] * 2 - x[1], x[1] * 3, x[0] + 1) for x in ex], th, ph))
    ctor("scalars", lambda: Z.ZdiMagnetogram(3, 2, 1 + 2j, 3 - 1j, 2j), expected([(3, 2, 1 + 2j, 3 - 1j, 2j)], th, ph))
    ctor("scalar alpha", lambda: Z.ZdiMagnetogram(2, 0, 1.5), expected([(2, 0, 1.5, 0, 0)], th, ph))
    for f in (1e-200, 1e-12, 1e12, 1e200):
        sc = [(x[0], x[1], x[2] * f, x[3] * f, x[4] * f) for x in ex]
        ctor("coefficients times %g" % f, lambda: make(sc), expected(sc, th, ph))


def sizes(ck):
    """Dense sets of every size, negative orders included; a set is evaluated twice, and its description must not change."""
    th, ph = THETA, PHI
    for L, mmin, one_point in itertools.product(range(bound(12, 22) + 1), (None, 0), (False, True)):
        def one():
            ex = example(L, mmin, seed=20 + L)
            t, p = (th[1:2], ph[1:2]) if one_point else (th, ph)
            e = expected(ex, t, p)
            z = make(ex)
            for n in range(2):
                compare(z, e, t, p, scale_of(e), 1e-10, "time %d: " % n)
                require(len(z.degrees_l) == len(ex) and all((int(l), int(m)) == c[:2] for l, m, c in zip(z.degrees_l, z.orders_m, ex)), "evaluating changed the degrees and orders")
        ck.step(30)
        ck.state("size", L, mmin, one_point)
        ck.case("all degrees to %d%s%s" % (L, "" if mmin is None else " without negative orders", " at one point" if one_point else ""), one)


def layouts(ck):
    """The value at a point does not depend on the shape, layout, number type or company of the points."""
    ex = example(5, 0) + [(2, -1, 1j, 2, 3j), (3, -3, 1, 1j, -1)]
    z = make(ex)
    base = np.random.default_rng(5)
    th, ph = base.uniform(0.05, 3.1, 24), base.uniform(-4, 8, 24)
    e = expected(ex, th, ph)
    s = scale_of(e)
    shapes = [(24,), (1, 24), (24, 1), (4, 6), (6, 4), (2, 3, 4), (4, 1, 6), (1, 1, 24), (2, 2, 2, 3), (3, 2, 2, 1, 2)]
    views = {
        "C": lambda x, s_: np.ascontiguousarray(x.reshape(s_)),
        "F": lambda x, s_: np.asfortranarray(x.reshape(s_)),
        "strided": lambda x, s_: np.repeat(x.reshape(s_), 2, axis=-1)[..., ::2],
        "transposed": lambda x, s_: np.ascontiguousarray(x.reshape(s_).T).T,
        "reversed": lambda x, s_: np.ascontiguousarray(x.reshape(s_)[::-1])[::-1],
        "read-only": lambda x, s_: _ro(x.reshape(s_)),
    }

    def _ro(x):
        x = x.copy()
        x.flags.writeable = False
        return x
    for shape, (vn, v), (wn, w) in itertools.product(shapes, views.items(), views.items()):
        if vn != wn and not (vn == "C" or wn == "C"):
            continue

        def one():
            t, p = v(th, shape), w(ph, shape)
            compare(z, {k: x.reshape(shape) for k, x in e.items()}, t, p, s, 1e-10)
            require(np.array_equal(t.ravel(), th) and np.array_equal(p.ravel(), ph), "the points were changed")
        ck.step(15)
        ck.state("layout", shape, vn, wn)
        ck.case("points of shape %s, layout %s %s" % (shape, vn, wn), one)
    for i in range(24):
        def one():
            ei = {k: x[i] for k, x in e.items()}
            compare(z, ei, np.array(th[i]), np.array(ph[i]), s, 1e-10, "0-d: ")
            compare(z, ei, th[i], ph[i], s, 1e-10, "scalar: ")
            compare(z, {k: x[i:i + 1] for k, x in e.items()}, th[i:i + 1], ph[i:i + 1], s, 1e-10, "alone: ")
            compare(z, {k: x[:i] for k, x in e.items()}, th[:i], ph[:i], s, 1e-10, "first %d: " % i)
            compare(z, {k: x[i:] for k, x in e.items()}, th[i:], ph[i:], s, 1e-10, "last %d: " % (24 - i))
        ck.step(75)
        ck.state("alone", i)
        ck.case("point %d alone and in company" % i, one)

    def ints():
        t, p = np.array([1, 2, 3, 1]), np.array([0, -3, 4, 100])
        for a, b in ((t, p), (t.astype(float), p), (t, p.astype(float)), (t.astype(np.int32), p.astype(np.int16)),
                     (t.astype(np.float32), p.astype(np.float32))):
            compare(z, expected(ex, t.astype(float), p.astype(float)), a, b, s, 1e-10 if a.dtype != np.float32 else 1e-4, "%s %s: " % (a.dtype, b.dtype))
    ck.case("number types of the points", ints)

    def grid():
        """Large and degenerate grids."""
        for n, k in ((64, 33), (1, 1), (2, 90), (3, 1), (181, 3)):
            p, t = np.meshgrid(np.linspace(0, 2 * np.pi, n), np.linspace(.03, 3.1, k), indexing="ij")
            compare(z, expected(ex, t, p), t, p, s, 1e-10, "%dx%d: " % (n, k))
            ck.state("grid", n, k)
    ck.case("grids", grid)

    # almost grids: some of the points of a grid, others not
    bases = {"ij": np.meshgrid(np.linspace(.2, 2.9, 5), np.linspace(0, 5, 4), indexing="ij"),
             "xy": np.meshgrid(np.linspace(.2, 2.9, 5), np.linspace(0, 5, 4))}
    bases["constant polar"] = [np.full((4, 5), .7), bases["xy"][1]]
    bases["constant azimuth"] = [bases["xy"][0], np.full((4, 5), .7)]
    rows = (slice(None), 0, 1, 2, -1)
    for (bn, b), which, i, j in itertools.product(bases.items(), (0, 1), rows, rows):
        def one():
            pts = [x.copy() for x in b]
            part = pts[which][i, j]
            # rows, columns, single points and everything, moved by different amounts
            pts[which][i, j] = part + .05 * np.sin(1 + np.arange(np.size(part))).reshape(np.shape(part))
            compare(z, expected(ex, *pts), *pts, s, 1e-10)
            rev = [np.ascontiguousarray(x[::-1, ::-1]) for x in pts]
            compare(z, expected(ex, *rev), *rev, s, 1e-10, "reversed: ")
        ck.step(30)
        ck.state("almost grid", bn, which, str(i), str(j))
        ck.case("%s grid but for %s of %s" % (bn, (str(i), str(j)), ("polar", "azimuth")[which]), one)

    def dup():
        t, p = np.full(7, 1.1), np.array([0.2, 0.2 + 2 * np.pi, 0.2 - 2 * np.pi, 0.2, 1, 0.2, 0.2 + 4 * np.pi])
        compare(z, expected(ex, t, p), t, p, s, 1e-10, "repeated points: ")
    ck.case("repeated points", dup)


def extremes(ck):
    """Exactly at the poles, and beyond degree 85 (a known finding)."""
    for l, m in [(l, m) for l in range(5) for m in range(-l, l + 1)]:
        for name, th in (("north", 0.0), ("south", np.pi)):
            ph = PHI[:5]
            t = np.full(5, th)
            cs = [(l, m, 1 - 2j, .5 + 1j, 2 + .25j)]
            e = expected(cs, t, ph)

            def radial():
                compare(make(cs), e, t, ph, 1.0, 1e-9, only=("radial", "radial-poloidal", "radial-toroidal"))
            ck.step()
            ck.case("radial field at the %s pole l=%d m=%d" % (name, l, m), radial)

            def tangential():
                compare(make(cs), e, t, ph, 1.0, 1e-9, "poles: ")
                assert np.all(np.isfinite(make(cs).get_field_strength(t, ph)))
            ck.step(12)
            ck.case("field at the %s pole l=%d m=%d" % (name, l, m), tangential)
    # points at, on both sides of and away from the poles in one array, in every order
    ends = (0.0, np.pi, 1e-300, 1e-9, np.pi - 1e-9, 1.1)
    cs = [(l, m, 1 - 2j, .5 + 1j, 2 + .25j) for l in range(1, 5) for m in range(-l, l + 1)]
    for t in itertools.permutations(ends, 3):
        def mixed():
            tt, pp = np.array(t), PHI[:3]
            e = expected(cs, tt, pp)
            compare(make(cs), e, tt, pp, scale_of(e), 1e-7, "points at and beside the poles: ")
        ck.step()
        ck.case("points at and beside the poles %s" % (t,), mixed)
    for l, m in ((86, 85), (86, 86), (100, 100), (100, -100)):
        def one():
            cs = [(l, m, 1.0, 1j, 1.0)]
            e = expected(cs, THETA, PHI)
            compare(make(cs), e, THETA, PHI, scale_of(e), 1e-8)
        ck.step(15)
        ck.case("beyond factorials l=%d m=%d" % (l, m), one, known="degree86")


def run(ck):
    ck.rule = "a state is one (coefficients, points) configuration whose field was compared with the reference"
    ck.assumptions = ["values compared to 1e-9 of the largest field value (1e-6 closer than 0.01 rad to a pole)"]
    basis(ck)
    pairs(ck)
    sets(ck)
    sizes(ck)
    layouts(ck)
    extremes(ck)
    ck.sample(dict(l=4, m=-3, kind="gamma", unit="1j", points=len(THETA)))
