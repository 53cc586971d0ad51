"""C10: cartesian against spherical evaluation, over point alphabets, array layouts and partitions of points into calls."""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c09
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import pfss_magnetogram as P

LEVEL = "model_checking"
EX = c09.example(4)


def sph(x, y, z):
    x, y, z = (np.asarray(v, float) for v in (x, y, z))
    r = np.sqrt(x * x + y * y + z * z)
    return r, np.arctan2(np.hypot(x, y), z), np.arctan2(y, x)


def check(c, ex, x, y, z, kw, rs, rss, what="", tol=1e-9, reg=None):
    got = P.evaluate_cartesian(c, x, y, z, **kw)
    require(len(got) == 6, "evaluate_cartesian returns %d arrays", len(got))
    shape = np.shape(np.atleast_1d(x))
    for g in got:
        require(np.shape(g) == shape, "%sresult of shape %s for points of shape %s", what, np.shape(g), shape)
    r, t, p = (np.atleast_1d(v) for v in sph(x, y, z))
    # same as the package's own spherical evaluation, the reference, and the components turned into axes
    own = P.evaluate_spherical(c, r, t, p, **kw)
    exp = ref.pfss_field(ex, r, t, p, rs, rss)
    f = np.maximum(np.max(np.abs(np.stack(exp)), axis=0), 1e-300)
    for n, a, b, e in zip(("radial", "polar", "azimuthal"), got, own, exp):
        require(np.all(np.abs(a - e) <= tol * np.maximum(f, np.max(f) * 1e-6) + 1e-13), "%s%s field at cartesian points deviates by %.3g", what, n, np.max(np.abs(a - e)))
        require(np.all(np.abs(b - e) <= tol * np.maximum(f, np.max(f) * 1e-6) + 1e-13), "%s%s field at spherical points deviates by %.3g", what, n, np.max(np.abs(b - e)))
    xyz = ref.cartesian(*got[:3], t, p)
    rt = 1e-12 if tol < 1e-8 else tol
    for i, n in enumerate("xyz"):
        require(np.all(np.abs(got[3 + i] - xyz[..., i]) <= 1e-14 + rt * np.maximum(f, 1e-290) + rt * np.max(np.abs(np.stack(got[:3])), axis=0)),
                "%sthe %s component is not the spherical components turned", what, n)
    return got


def points(ck):
    c = c09.shc(EX)
    # every octant and axis plane x every radial region x radii
    dirs = [d for d in itertools.product((-1, -.3, 0, .45, 1), repeat=3) if d[0] or d[1]]
    for rs, rss in c09.PAIRS:
        a, b = (1.0 if rs is None else rs), (2.5 if rss is None else rss)
        for rho in (0.4 * a, a + 1e-6 * (b - a), a + .3 * (b - a), a + .8 * (b - a), b - 1e-6 * (b - a), b + 1e-6 * (b - a), 3 * b):
            def one():
                d = np.array(dirs, float)
                d *= (rho / np.linalg.norm(d, axis=1))[:, None]
                check(c, EX, d[:, 0], d[:, 1], d[:, 2], c09.kwargs(rs, rss), a, b)
            ck.step(len(dirs))
            ck.state("region", rs, rss, rho)
            ck.case("all directions at radius %g, radii %s" % (rho, (rs, rss)), one)
    # only one of the radii given
    for kw, a, b in ((dict(radius_star=0.5), .5, 2.5), (dict(radius_source_surface=4.5), 1, 4.5), (dict(radius_star=2), 2, 2.5), (dict(radius_star=.5, radius_source_surface=None), .5, 2.5)):
        def given():
            d = np.array(dirs, float)
            d *= (np.array([.8 * a, a + .3 * (b - a), .9 * b, 1.2 * b, 3 * b])[np.arange(len(d)) % 5] / np.linalg.norm(d, axis=1))[:, None]
            check(c, EX, d[:, 0], d[:, 1], d[:, 2], kw, a, b)
        ck.step(len(dirs))
        ck.state("given", sorted(kw.items(), key=str))
        ck.case("only %s given" % kw, given)
    # exactly on the axes, at exactly the boundary radii
    def axes():
        x = np.array([1, -1, 2.5, -2.5, 2, 0, 0, 0, 0, 4, 0.0])
        y = np.array([0, 0, 0, 0, 0, 1, -1, 2.5, -2.5, 0, -4.0])
        check(c, EX, x, y, np.zeros(11), {}, 1.0, 2.5)
    ck.case("exactly on the x and y axes", axes)

    def inside():
        """Anywhere inside the star (the centre and the z axis included) the field is zero."""
        x = np.array([0, 0, 0, .1, 0, -.2])
        z = np.array([0, .5, -.5, .1, 1e-300, 0])
        got = P.evaluate_cartesian(c09.shc([(2, 0, 1.0), (2, 2, 1j)]), x, 0 * x, z)
        require(not np.any(np.stack(got)), "the field inside the star is %s", np.stack(got).tolist())
    ck.case("inside the star", inside)
    for l, m in [(l, m) for l in range(1, 5) for m in range(l + 1)]:
        for s in (1, -1):
            def zaxis():
                ex = [(l, m, 1 - 2j)]
                z = s * np.array([1.0, 1.7, 2.5, 4])
                o = np.zeros(4)
                check(c09.shc(ex), ex, o, o, z, {}, 1.0, 2.5)
            ck.step(4)
            ck.state("z axis", l, m, s)
            ck.case("on the %s z axis l=%d m=%d" % ("+" if s > 0 else "-", l, m), zaxis)


def partitions(n):
    """All set partitions of range(n)."""
    if n == 0:
        yield []
        return
    for p in partitions(n - 1):
        for i in range(len(p)):
            yield p[:i] + [p[i] + [n - 1]] + p[i + 1:]
        yield p + [[n - 1]]


def company(ck):
    """Which points are evaluated together, and in which order, does not matter."""
    c = c09.shc(EX)
    r = np.array([1.0, 1.7, 4.0, 0.5, 2.5, 30.0])
    t = np.array([0.4, 1.3, 2.2, 2.8, 1.0, 0.1])
    p = np.array([0.2, 4.0, -1.0, 2.0, 3.3, 9.0])
    n = bound(5, 6)
    whole = np.stack(P.evaluate_spherical(c, r, t, p))
    exp = np.stack(ref.pfss_field(EX, r, t, p))
    x = np.stack([r * np.sin(t) * np.cos(p), r * np.sin(t) * np.sin(p), r * np.cos(t)])
    x[:, [0, 4]] *= [1 + 1e-9, 1 - 1e-9]
    wholec = np.stack(P.evaluate_cartesian(c, *x))
    for part in partitions(n):
        def one():
            require(np.max(np.abs(whole - exp)) < 1e-9, "all together")
            for block in part:
                for q in ([block] + ([block[::-1]] if len(block) > 1 else [])):
                    g = np.stack(P.evaluate_spherical(c, r[q], t[q], p[q]))
                    require(np.max(np.abs(g - whole[:, q])) < 1e-12, "spherical points %s alone differ", q)
                    g = np.stack(P.evaluate_cartesian(c, *x[:, q]))
                    require(np.max(np.abs(g - wholec[:, q])) < 1e-12, "cartesian points %s alone differ", q)
        ck.step(2 * len(part))
        ck.state("partition", part)
        ck.case("points in calls %s" % (part,), one)
    for q in itertools.permutations(range(4)):
        def one():
            i = list(q)
            require(np.max(np.abs(np.stack(P.evaluate_spherical(c, r[i], t[i], p[i])) - whole[:, i])) < 1e-12, "order %s", q)
        ck.step()
        ck.state("order", q)
        ck.case("points in order %s" % (q,), one)


def layouts(ck):
    c = c09.shc(EX)
    g = np.random.default_rng(3)
    r, t, p = g.uniform(.6, 4, 12), g.uniform(.1, 3, 12), g.uniform(-4, 8, 12)
    exp = ref.pfss_field(EX, r, t, p)
    x = r * np.sin(t) * np.cos(p), r * np.sin(t) * np.sin(p), r * np.cos(t)

    def ro(a):
        a = a.copy()
        a.flags.writeable = False
        return a
    views = {"C": np.ascontiguousarray, "F": np.asfortranarray, "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2],
             "reversed": lambda a: np.ascontiguousarray(a[::-1])[::-1], "read-only": ro}
    for shape, (vn, v) in itertools.product([(12,), (1, 12), (12, 1), (3, 4), (2, 3, 2), (1, 12, 1), (3, 1, 4), (2, 2, 3, 1)], views.items()):
        for mixed in (None, 0, 1, 2):
            def one():
                pts = [np.ascontiguousarray(a.reshape(shape)) if mixed == i else v(a.reshape(shape)) for i, a in enumerate((r, t, p))]
                got = P.evaluate_spherical(c, *pts)
                c09_close(got, [e.reshape(shape) for e in exp])
                cp = [np.ascontiguousarray(a.reshape(shape)) if mixed == i else v(a.reshape(shape)) for i, a in enumerate(x)]
                check(c, EX, *cp, {}, 1.0, 2.5)
                for a, b in zip(pts + cp, (r, t, p) + x):
                    require(np.array_equal(a.ravel(), b), "the points were changed")
            ck.step(2)
            ck.state("layout", shape, vn, mixed)
            ck.case("shape %s layout %s mixed=%s" % (shape, vn, mixed), one)
    for shape in ((12,), (3, 4), (2, 3, 2), (12, 1)):
        for rad in (0.5, 1, 1.0, 1.3, 2.5, 4, 50.0, np.float64(2), np.array(1.7), np.array([1.7]), [3.0], np.int64(2)):
            def one():
                got = P.evaluate_spherical(c, rad, t.reshape(shape), p.reshape(shape))
                rr = np.full(shape, float(np.ravel(rad)[0]))
                c09_close(got, ref.pfss_field(EX, rr, t.reshape(shape), p.reshape(shape)))
            ck.step()
            ck.state("radius", shape, repr(rad))
            ck.case("one radius %r for points of shape %s" % (rad, shape), one)

    kinds = {"int64": lambda a: a.astype(np.int64), "int32": lambda a: a.astype(np.int32), "float32": lambda a: a.astype(np.float32),
             "float64": lambda a: a.astype(float), "list": list, "int list": lambda a: [int(v) for v in a]}
    whole = np.array([1, 2, 3, 1]), np.array([1, 2, 3, 2]), np.array([0, -3, 5, 100])
    for kt, kp in itertools.product(kinds, repeat=2):
        for rad in (0.5, 1, 1.3, 2.5, 4, np.float64(1.7), np.float32(1.75), np.array([1.75]), np.array(1.3), [1.75]) + tuple(kinds):
            def one():
                if isinstance(rad, str):
                    rr, rg = whole[0].astype(float), kinds[rad](whole[0])
                else:
                    rr, rg = np.full(4, float(np.ravel(rad)[0])), rad
                got = P.evaluate_spherical(c, rg, kinds[kt](whole[1]), kinds[kp](whole[2]))
                single = "float32" in (kt, kp, rad)
                c09_close(got, ref.pfss_field(EX, rr, whole[1].astype(float), whole[2].astype(float)), 1e-4 if single else 1e-9)
            ck.step()
            ck.state("kinds", kt, kp, repr(rad))
            ck.case("radius %r, polar angles %s, azimuths %s" % (rad, kt, kp), one)

    def scalars():
        for i in range(12):
            for conv in (float, np.float64, lambda v: [v], np.array):
                got = P.evaluate_spherical(c, conv(r[i]), conv(t[i]), conv(p[i]))
                c09_close([np.ravel(a) for a in got], [e[i:i + 1] for e in exp])
                got = P.evaluate_cartesian(c, *(conv(a[i]) for a in x))
                c09_close([np.ravel(a) for a in got[:3]], [e[i:i + 1] for e in exp])
    ck.case("single points given as numbers", scalars)

    def ints():
        xi, yi, zi = np.array([1, -2, 0, 3, 1]), np.array([1, 1, -2, 0, 5]), np.array([1, 0, 1, -1, 0])
        for dt in (np.int64, np.int32, np.float32):
            check(c, EX, xi.astype(dt), yi.astype(dt), zi.astype(dt), {}, 1.0, 2.5, "%s: " % np.dtype(dt), 1e-9 if dt != np.float32 else 1e-5)
        ri, ti, pi = np.array([1, 2, 3, 0]), np.array([1, 2, 3, 1]), np.array([0, -3, 5, 100])
        c09_close(P.evaluate_spherical(c, ri, ti, pi), ref.pfss_field(EX, *(a.astype(float) for a in (ri, ti, pi))))
    ck.case("number types of the points", ints)

    def lists():
        got = P.evaluate_spherical(c, list(r), list(t), list(p))
        c09_close(got, exp)
        c09_close(P.evaluate_cartesian(c, *map(list, x))[:3], exp)
    ck.case("points given as lists", lists)


def c09_close(got, exp, tol=1e-9):
    for n, g, e in zip(("radial", "polar", "azimuthal"), got, exp):
        require(np.shape(g) == np.shape(e), "the %s field has shape %s, expected %s", n, np.shape(g), np.shape(e))
        require(np.all(np.isfinite(g)) and np.all(np.abs(g - e) <= tol * max(1, np.max(np.abs(e)))), "the %s field deviates by %.3g", n, np.max(np.abs(g - e)))


def run(ck):
    ck.rule = "a state is one (points, radii, layout or grouping) configuration whose field was compared"
    points(ck)
    company(ck)
    layouts(ck)
    for l, m in [(l, m) for l in range(bound(6, 12)) for m in range(l + 1)]:
        def one():
            for u in (1, 1j):
                ex = [(l, m, u)]
                g = np.random.default_rng(7)
                x = g.normal(size=(3, 20)) * 1.7
                check(c09.shc(ex), ex, *x, {}, 1.0, 2.5)
                check(c09.shc(ex), ex, *x, dict(radius_star=.4, radius_source_surface=2), .4, 2)
        ck.step(80)
        ck.state("basis", l, m)
        ck.case("basis l=%d m=%d" % (l, m), one)
    ck.sample(dict(partition=[[0, 2], [1], [3, 4]]))
