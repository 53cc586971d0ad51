"""C09: every (degree, order, cosine/sine part) in every radial region for several pairs of radii, against the potential field.

The field is linear in the coefficients: basis elements decide single coefficients, pairs and whole sets decide sums.
The reference itself is checked to be divergence-free, curl-free and to satisfy both boundary conditions.
"""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import pfss_magnetogram as P

LEVEL = "model_checking"
THETA = np.array([0.05, 0.4, 1.0, np.pi / 2, 1.8, 2.3, 2.95, 3.1, 1.3])
PHI = np.array([0.3, -2.1, 4.0, 0.0, np.pi, 7.5, 1.4, 2.8, 2 * np.pi - 3e-7])
PAIRS = [(None, None), (1, 2.5), (1.0, 1.05), (0.7, 12.0), (2.0, 3.0), (6.96e8, 2.1e9), (.2, .75), (1.0, 250.0)]


def radii(rs, rss):
    d = rss - rs
    return np.array([0.3 * rs, rs * (1 - 1e-9), rs, rs * (1 + 1e-9), rs + 0.2 * d, rs + 0.7 * d, rss * (1 - 1e-9), rss,
                     rss * (1 + 1e-9), 1.3 * rss, 20 * rss])


def shc(cs):
    c = C.Coefficients()
    for l, m, v in cs:
        c.append(l, m, v)
    return c


def kwargs(rs, rss):
    kw = {}
    if rs is not None:
        kw["radius_star"] = rs
    if rss is not None:
        kw["radius_source_surface"] = rss
    return kw


def grid(rs, rss):
    r = radii(rs, rss)
    return np.repeat(r[:, None], len(THETA), 1), np.repeat(THETA[None], len(r), 0), np.repeat(PHI[None], len(r), 0)


def close(got, exp, s, tol, what):
    for n, g, e in zip(("radial", "polar", "azimuthal"), got, exp):
        require(np.shape(g) == np.shape(e), "%s: the %s field has shape %s, expected %s", what, n, np.shape(g), np.shape(e))
        require(np.all(np.isfinite(g)), "%s: the %s field is not finite", what, n)
        d = np.abs(np.asarray(g) - e)
        require(np.all(d <= tol * s), "%s: the %s field deviates by %.3g of %.3g", what, n, np.max(d / s) if np.size(d) else 0, np.max(s))


def scale_of(exp):
    """Largest component at each radius (first axis), so that the weak outer field is judged by its own size."""
    a = np.max(np.abs(np.stack(exp)), axis=(0, 2))
    return np.maximum(a, 1e-290)[:, None]


def basis(ck):
    L = bound(12, 24)
    keys = [(l, m) for l in range(L + 1) for m in range(l + 1)] + [(l, m) for l in bound((15, 21, 30, 40, 50, 60, 70, 85), range(25, 86, 5)) for m in sorted({0, 1, l // 2, l - 1, l})]
    lmax = max(k[0] for k in keys)
    for pi, (rs, rss) in enumerate(PAIRS):
        a, b = (1.0 if rs is None else rs), (2.5 if rss is None else rss)
        r, t, p = grid(a, b)
        h = ref.Harmonics(lmax, t, p)
        for l, m in keys:
            for unit in (1, 1j) if l <= bound(3, 8) else (2 - 1j,):
                def one():
                    exp = ref.pfss_field([(l, m, unit)], r, t, p, a, b, h)
                    c = shc([(l, m, unit)])
                    got = P.evaluate_spherical(c, r, t, p, **kwargs(rs, rss))
                    close(got, exp, scale_of(exp), 1e-8, "field")
                    require(not np.any(np.stack(got)[:, :2]), "the field inside the star is not zero")
                    require(np.all(np.abs(np.stack(got)[1:, 7]) <= 1e-12 * abs(unit)), "tangential field on the source surface")
                ck.step(r.size)
                ck.state("basis", l, m, unit, pi)
                ck.case("basis l=%d m=%d %s radii=%s" % (l, m, unit, (rs, rss)), one)


def example(L=4, seed=6):
    g = np.random.default_rng(seed)
    return [(l, m, complex(*g.normal(size=2))) for l in range(L + 1) for m in range(l + 1)]


def sums(ck):
    r, t, p = [x[[0, 2, 4, 7, 9]][:, [1, 4, 6]] for x in grid(1, 2.5)]
    L = bound(2, 4)
    els = [(l, m, u) for l in range(L + 1) for m in range(l + 1) for u in (1, 1j)]
    part = {e: ref.pfss_field([e], r, t, p) for e in els}
    for a in els:
        def one():
            for b in els:
                if a[:2] == b[:2]:
                    continue
                e = [x - 3 * y for x, y in zip(part[a], part[b])]
                close(P.evaluate_spherical(shc([a, (b[0], b[1], -3 * b[2])]), r, t, p), e, 1.0, 1e-10, "with %s" % (b,))
                ck.step(r.size)
                ck.state("pair", a, b)
        ck.case("pairs with %s" % (a,), one)
    small = [(1, 0, 1 + 2j), (1, 1, -1j), (3, 2, 2), (5, 5, .5j)]
    for n in range(1, 5):
        for q in itertools.permutations(small, n):
            def one():
                close(P.evaluate_spherical(shc(q), r, t, p), ref.pfss_field(q, r, t, p), 1.0, 1e-9, "sum")
            ck.step(r.size)
            ck.state("set", q)
            ck.case("entries %s" % (q,), one)
    for rs, rss in PAIRS:
        for ex in (example(), example(10, 2), [(l, m, c * f) for l, m, c in example(3) for f in (1e100,)], [(l, m, c * 1e-100) for l, m, c in example(3)],
                   [(0, 0, 1.0)], [(0, 0, 2j), (1, 0, 1)], [(1, 0, 0j), (2, 1, 1)]):
            def one():
                a, b = (1.0 if rs is None else rs), (2.5 if rss is None else rss)
                r, t, p = grid(a, b)
                exp = ref.pfss_field(ex, r, t, p, a, b)
                close(P.evaluate_spherical(shc(ex), r, t, p, **kwargs(rs, rss)), exp, scale_of(exp), 1e-8, "set")
            ck.step()
            ck.state("dense", len(ex), ex[-1], rs, rss)
            ck.case("set of %d up to %s radii=%s" % (len(ex), ex[-1], (rs, rss)), one)
    # only one of the radii given
    for kw, a, b in ((dict(radius_star=0.5), .5, 2.5), (dict(radius_source_surface=4.5), 1, 4.5), (dict(radius_star=2), 2, 2.5)):
        def one():
            r, t, p = grid(a, b)
            exp = ref.pfss_field(example(), r, t, p, a, b)
            close(P.evaluate_spherical(shc(example()), r, t, p, **kw), exp, scale_of(exp), 1e-8, "set")
        ck.step()
        ck.state("defaults", sorted(kw))
        ck.case("only %s given" % kw, one)


def outside(ck):
    """Beyond the source surface: the value there, same direction, falling as 1/r^2. Radii shuffled and in any number."""
    ex = example(5)
    for n in (1, 2, 5, 17):
        def one():
            g = np.random.default_rng(n)
            r = g.permutation(np.concatenate([np.linspace(2.5, 60, n), np.linspace(.1, 2.5, n)]))
            t, p = g.uniform(.1, 3, r.size), g.uniform(0, 6, r.size)
            got = np.stack(P.evaluate_spherical(shc(ex), r, t, p))
            at = np.stack(P.evaluate_spherical(shc(ex), np.full(r.size, 2.5), t, p))
            out = r > 2.5
            d = got[:, out] - at[:, out] * (2.5 / r[out]) ** 2
            require(np.all(np.abs(d) <= 1e-12), "the field beyond the source surface does not continue its value")
            exp = ref.pfss_field(ex, r, t, p)
            close(got, exp, 1.0, 1e-9, "mixed radii")
        ck.step(2 * n)
        ck.state("outside", n)
        ck.case("beyond the source surface n=%d" % n, one)


def reference(ck):
    """The reference field is a potential field: zero divergence and curl, by central differences in space."""
    ex = example(4)
    def B(x):
        r = np.linalg.norm(x, axis=-1)
        t, p = np.arccos(x[..., 2] / r), np.arctan2(x[..., 1], x[..., 0])
        return ref.cartesian(*ref.pfss_field(ex, r, t, p, 1.0, 2.5), t, p)
    g = np.random.default_rng(2)
    x = g.normal(size=(30, 3))
    x *= (g.uniform(1.1, 2.4, 30) / np.linalg.norm(x, axis=1))[:, None]
    e = 1e-4
    J = np.stack([(B(x + e * d) - B(x - e * d)) / (2 * e) for d in np.eye(3)], -1)
    s = np.max(np.abs(J))
    require(np.max(np.abs(np.trace(J, axis1=1, axis2=2))) < 1e-5 * s, "reference: divergence")
    require(np.max(np.abs(J - np.swapaxes(J, 1, 2))) < 1e-5 * s, "reference: curl")


def extremes(ck):
    for l, m in [(l, m) for l in range(6) for m in range(l + 1)]:
        for name, th in (("north", 0.0), ("south", np.pi)):
            ck.step()

            def one():
                r, p = np.array([1.0, 1.5, 2.5, 5, .5]), PHI[:5]
                t = np.full(5, th)
                exp = ref.pfss_field([(l, m, 1 - 2j)], r, t, p)
                close(P.evaluate_spherical(shc([(l, m, 1 - 2j)]), r, t, p), exp, 1.0, 1e-9, "pole")
            ck.case("%s pole l=%d m=%d" % (name, l, m), one)
    # points at, on both sides of and away from the poles in one array, in every order
    ex = example(4)
    for tt in itertools.permutations((0.0, np.pi, 1e-300, 1e-9, np.pi - 1e-9, 1.1), 3):
        def mixed():
            r, t, p = np.array([1.0, 1.5, 2.5]), np.array(tt), PHI[:3]
            exp = ref.pfss_field(ex, r, t, p)
            close(P.evaluate_spherical(shc(ex), r, t, p), exp, np.max(np.abs(exp), axis=0), 1e-7, "points at and beside the poles")
        ck.step()
        ck.case("points at and beside the poles %s" % (tt,), mixed)
    for l, m in ((86, 85), (100, 100)):
        def one():
            r, t, p = grid(1, 2.5)
            exp = ref.pfss_field([(l, m, 1)], r, t, p)
            close(P.evaluate_spherical(shc([(l, m, 1)]), r, t, p), exp, scale_of(exp), 1e-7, "set")
        ck.step()
        ck.case("beyond factorials l=%d m=%d" % (l, m), one, known="degree86")


def run(ck):
    ck.rule = "a state is one (coefficients, radii, points) configuration compared with the reference field"
    ck.assumptions = ["values compared to 1e-8 of the largest component at the same radius"]
    ck.case("reference field is a potential field", reference, ck)
    basis(ck)
    sums(ck)
    outside(ck)
    extremes(ck)
    ck.sample(dict(l=3, m=2, unit="1j", radii=[0.7, 12.0]))
