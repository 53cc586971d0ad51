"""C14: cross-talk of the map conversion, every basis element of every kind on a set of grids; linearity; cell sizes.

The tolerance is the discretisation error of the midpoint rule on the same grid, measured by the check itself
with reference harmonics (how far the sampled basis is from orthonormal), so a more accurate rule is accepted too.
"""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06, c11
from starwinds_magnetogram import converter as K
from starwinds_magnetogram import geometry as G
from starwinds_magnetogram import zdi_magnetogram as Z
from starwinds_magnetogram import coefficients as C

LEVEL = "model_checking"
SHARDS = 8


class Grid:
    def __init__(self, npl, naz, start=0.0, flip_az=False, flip_pl=False, ends=None):
        pl = (np.arange(npl) + .5) * np.pi / npl if ends is None else np.linspace(ends, np.pi - ends, npl)
        az = start + (np.arange(naz) + .5) * 2 * np.pi / naz
        if flip_az:
            az = az[::-1]
        if flip_pl:
            pl = pl[::-1]
        self.name = "%dx%d from %g%s%s" % (naz, npl, start, " azimuth downwards" * flip_az, " polar downwards" * flip_pl)
        if ends is not None:
            self.name += " ends %g" % ends
        self.pl, self.az = np.meshgrid(pl, az)
        self.cell = abs(pl[1] - pl[0]) * 2 * np.pi / naz
        self.h = {}

    def harmonics(self, lmax):
        if lmax not in self.h:
            self.h[lmax] = ref.Harmonics(lmax, self.pl, self.az)
        return self.h[lmax]

    def field(self, coeffs, lmax):
        return ref.zdi_field(coeffs, self.pl, self.az, self.harmonics(lmax))

    def error(self, lmax):
        """How far the sampled basis fields are from orthonormal under the midpoint rule."""
        h = self.harmonics(lmax)
        s = np.sin(self.pl[0]) * self.cell * self.pl.shape[0]
        worst = 0
        for m in range(lmax + 1):
            p = np.array([h.p(l, m)[0] for l in range(m, lmax + 1)])
            worst = max(worst, np.max(np.abs((p * s) @ p.T - np.eye(len(p)))))
            ls = np.arange(max(m, 1), lmax + 1)
            if len(ls):
                n = np.sqrt(ls * (ls + 1.))[:, None]
                a = np.array([h.dp(l, m)[0] for l in ls]) / n
                b = np.array([h.mp_over_sin(l, m)[0] for l in ls]) / n
                worst = max(worst, np.max(np.abs((a * s) @ a.T + (b * s) @ b.T - np.eye(len(a)))),
                            np.max(np.abs((a * s) @ b.T + (b * s) @ a.T)))
        return worst


def expected(coeffs, lmax):
    """What the map determines: no imaginary part for order 0, no beta and gamma for degree 0."""
    e = {k: np.zeros(3, complex) for k in K_positive(lmax)}
    for l, m, a, b, g in coeffs:
        v = np.array([a, b, g], complex)
        if m == 0:
            v = v.real + 0j
        if l == 0:
            v[1:] = 0
        e[l, m] = v
    return e


def K_positive(lmax):
    return [(l, m) for l in range(lmax + 1) for m in range(l + 1)]


def judge(ck, g, coeffs, lmax, area, tol, top=None):
    """tol: relative to the largest coefficient."""
    f = g.field(coeffs, max(lmax, max(c[0] for c in coeffs)))
    args = [x.copy() for x in (g.pl, g.az) + f]
    shc = K.convert_latlon_to_zdi_coeffs(*args, area=area, max_degree=lmax)
    for a, b in zip(args, (g.pl, g.az) + f):
        require(np.array_equal(a, b), "the conversion changed an array given to it")
    got = c11.entries(shc)
    exp = expected([c for c in coeffs if c[0] <= lmax], lmax)
    require(set(got) == set(exp), "degrees and orders %s", sorted(set(got) ^ set(exp))[:6])
    scale = max(max(map(abs, c[2:])) for c in coeffs)
    for k in exp:
        for i in range(3):
            d = abs(got[k][i] - exp[k][i])
            # Orders do not mix on an even azimuth grid, whatever the rule in the polar angle.
            t = tol if any(c[1] == k[1] and any(c[2:]) for c in coeffs) else 1e-10
            require(d <= t * scale, "%s coefficient of degree %d order %d is %s, expected %s (tolerance %.2g)", c06.KINDS[i], k[0], k[1],
                    got[k][i], exp[k][i], t * scale)
    return got


def run(ck):
    ck.rule = ("a state is one (grid, cell size, set of coefficients) converted from fields computed by the reference; the tolerance "
               "is twice the deviation from orthonormality of the basis sampled on that grid by the midpoint rule")
    grids = [Grid(24, 48), Grid(20, 31, -np.pi)] + bound([], [Grid(32, 64, .1), Grid(90, 60)])
    more = [Grid(48, 96, .1), Grid(90, 60), Grid(32, 32, 1.0), Grid(64, 128)] + bound([], [Grid(180, 360), Grid(128, 256, -np.pi)])
    dirs = [Grid(16, 32, 0, fa, fp) for fa, fp in ((True, False), (False, True), (True, True))]
    dirs += [Grid(25, 33, 0, ends=1e-3), Grid(21, 31, 1.0, True, True, ends=.02), Grid(33, 40, ends=.01)]
    for g in grids + dirs + more:
        lmax = bound(2, 4) if g in dirs else bound(4, 7)
        tol = 2 * g.error(lmax) + 1e-10
        for l, m in K_positive(lmax) if g not in more else ():
            for kind in range(3):
                for u in (1, 1j):
                    v = [0, 0, 0]
                    v[kind] = u
                    c = [(l, m, *v)]
                    for area in ((None, g.cell)):
                        cid = "grid %s cell %s l=%d m=%d %s %s" % (g.name, "given" if area else "default", l, m, c06.KINDS[kind], u)
                        ck.state(cid)
                        ck.step()
                        ck.case(cid, judge, ck, g, c, lmax, area, tol)
        # a requested degree above and below that of the map
        ex = [(l, m, a, b, gg) for l, m, a, b, gg in c06.example(3) if m >= 0]
        for top in range(3, lmax + 1):
            cid = "grid %s example of degree 3 requested %d" % (g.name, top)
            ck.state(cid)
            ck.step()
            ck.case(cid, judge, ck, g, ex, top, None, 16 * (2 * g.error(top) + 1e-10))
        for top in range(0, 3):
            cid = "grid %s example of degree 3 requested %d" % (g.name, top)
            ck.state(cid)
            ck.step()
            ck.case(cid, judge, ck, g, ex, top, None, 16 * (2 * g.error(3) + 1e-10))

        # linear in the maps; scaled cells scale the result; equal maps equal results
        def linear(g=g, lmax=lmax):
            a = [(l, m, x, y, z) for l, m, x, y, z in c06.example(4) if m >= 0]
            b = [(2, 1, 3j, -1, 2), (3, 3, 1, 1j, -2), (1, 0, 2, 2, 2)]
            fa, fb = g.field(a, 4), g.field(b, 4)
            conv = lambda f, area=None: np.array([v for k, v in sorted(c11.entries(
                K.convert_latlon_to_zdi_coeffs(g.pl, g.az, *f, area=area, max_degree=4)).items())])
            ca, cb = conv(fa), conv(fb)
            s = np.max(np.abs(ca)) + np.max(np.abs(cb))
            for p, q in itertools.product((0, 1, -1, 2.5, 1e-6), repeat=2) if g not in more else [(-1, 2.5)]:
                ck.step()
                ck.state(g.name, p, q)
                cc = conv([p * x + q * y for x, y in zip(fa, fb)])
                require(np.max(np.abs(cc - p * ca - q * cb)) <= 1e-11 * s, "%g times one map plus %g times another", p, q)
            for k in (1e-100, 1e100):
                cc = conv([k * x for x in fa])
                require(np.max(np.abs(cc / k - ca)) <= 1e-11 * s, "map times %g", k)
            for i in range(3):
                one = [x if i == j else 0 * x for j, x in enumerate(fa)]
                ck.step()
                cc = conv(one)
                require(not (np.any(cc[:, 1:]) if i == 0 else np.any(cc[:, 0])), "component %d alone feeds the other kind", i)
            tot = sum(conv([x if i == j else 0 * x for j, x in enumerate(fa)]) for i in range(3))
            require(np.max(np.abs(tot - ca)) <= 1e-11 * s, "the components do not add up")
            d = conv(fa, g.cell)
            require(np.max(np.abs(d - ca)) <= 1e-9 * s, "default cell size differs from the one given")
            require(np.max(np.abs(conv(fa, 3 * g.cell) - 3 * d)) <= 1e-11 * s * 3, "three times the cell size")
        ck.case("grid %s linear" % g.name, linear)

    # through the package's own magnetograms and geometries, and the magnetogram-returning form
    def roundtrip(n, cells):
        geo = G.ZdiGeometry(cells + 1, 2 * cells + 1)
        pl, az = geo.centers()
        ex = [(l, m, a, b, gg) for l, m, a, b, gg in c06.example(n) if m >= 0]
        mag = c06.make(ex)
        f = mag.get_radial_field(pl, az), mag.get_polar_field(pl, az), mag.get_azimuthal_field(pl, az)
        z = K.convert_latlon_to_zdi(pl, az, *f, max_degree=n)
        g = Grid(cells, 2 * cells)
        tol = 16 * (2 * g.error(n) + 1e-10)
        exp = expected(ex, n)
        got = {(int(l), int(m)): np.array(v) for l, m, *v in zip(z.degrees_l, z.orders_m, z.alpha, z.beta, z.gamma)}
        require(set(got) == set(exp), "degrees and orders")
        s = max(max(map(abs, c[2:])) for c in ex)
        for k in exp:
            require(np.max(np.abs(got[k] - exp[k])) <= tol * s, "degree %d order %d: %s, expected %s", *k, got[k], exp[k])
        rf = z.get_radial_field(pl, az)
        require(np.max(np.abs(rf - f[0])) <= 20 * tol * np.max(np.abs(f[0])), "radial field of the resulting magnetogram")
    for n in range(1, bound(6, 10)):
        for cells in (32, 64):
            ck.state("roundtrip", n, cells)
            ck.step(2)
            ck.case("round trip degree %d cells %d" % (n, cells), roundtrip, n, cells)

    for n in bound((14, 22), (14, 22, 35)):
        ck.state("high", n)
        ck.step()
        g = Grid(64, 128)
        ex = [(n, m, 1 - .5j, .25j + 1, -2 + 1j) for m in (1, n // 2, n)] + [(1, 0, 1, 1, 1), (n // 2, 3, 1j, 0, 2)]
        ck.case("degrees to %d" % n, judge, ck, g, ex, n, None, 16 * (2 * g.error(n) + 1e-10))

    # chosen pairs of degree and order, in any order
    def chosen(pairs):
        g = grids[0]
        ex = [(l, m, a, b, gg) for l, m, a, b, gg in c06.example(4) if m >= 0]
        f = g.field(ex, 4)
        e = expected(ex, 4)
        ls, ms = zip(*pairs)
        got = c11.entries(K.get_zdi_coeffs(g.pl, g.az, list(ls), list(ms), *f))
        require(set(got) == set(pairs), "degrees and orders %s", sorted(got))
        tol = 16 * (2 * g.error(4) + 1e-10)
        s = max(max(map(abs, c[2:])) for c in ex)
        for k in got:
            require(np.max(np.abs(np.array(got[k]) - e[k])) <= tol * s, "degree %d order %d: %s, expected %s", *k, got[k], e[k])
    some = [(1, 0), (2, 1), (4, 4), (3, 0)]
    for n in range(1, len(some) + 1):
        for p in itertools.permutations(some, n):
            ck.state("chosen", p)
            ck.step()
            ck.case("pairs %s" % (p,), chosen, p)
    ck.sample(dict(grid=grids[0].name, degree=2, order=1, kind="beta", value="1j", tolerance=2 * grids[0].error(6)))
