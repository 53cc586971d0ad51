"""C15: images and harmonics: every basis element on a set of grids, and every short history of conversions.

The histories mix conversions on grids of different shapes and spacings, direct evaluations, and changes made to
arrays returned before; every result on the way is compared with the reference, so nothing that is remembered
between calls can show.
"""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c11
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import image_converter as I
from starwinds_magnetogram import geometry as G

LEVEL = "model_checking"


class Grid:
    def __init__(self, name, *args):
        self.name, self.args = name, args
        pl, az = [np.linspace(*((0, (1 + i) * np.pi, a) if isinstance(a, int) else a)) for i, a in enumerate(args)]
        self.pc, self.ac = pl, az
        self.pl, self.az = np.meshgrid(.5 * (pl[1:] + pl[:-1]), .5 * (az[1:] + az[:-1]))
        self.cell = abs((pl[1] - pl[0]) * (az[1] - az[0]))
        self.full = abs(abs(pl[-1] - pl[0]) - np.pi) < 1e-9 and abs(abs(az[-1] - az[0]) - 2 * np.pi) < 1e-9
        self._h = {}

    def geometry(self):
        if all(isinstance(a, int) for a in self.args):
            return G.ZdiGeometry(*self.args)
        return G.ZdiGeometry(self.pc.copy(), self.ac.copy())

    def Y(self, l, m):
        top = 40
        if top not in self._h:
            self._h[top] = ref.Harmonics(top, self.pl, self.az)
        return self._h[top].Y(l, m)

    def image(self, d):
        r = np.zeros(self.pl.shape, complex)
        for (l, m), v in d.items():
            r = r + v * self.Y(l, m)
        return r

    def sums(self, image, lmax):
        """Midpoint rule."""
        f = image * np.sin(self.pl) * self.cell
        return {(l, m): np.sum(np.conj(self.Y(l, m)) * f) for l in range(lmax) for m in range(-l, l + 1)}

    def error(self, lmax):
        s = np.sin(self.pl[0]) * abs(self.pc[1] - self.pc[0]) * 2 * np.pi
        w = 0
        for m in range(lmax):
            p = np.array([self.Y(l, m)[0] * np.exp(-1j * m * self.az[0, 0]) for l in range(m, lmax)]).real
            w = max(w, np.max(np.abs((p * s) @ p.T - np.eye(len(p)))))
        return w


def value(l, m):
    return complex(1 + .3 * l - .7 * m, .2 + .1 * l * m - m)


def close(a, b, tol, what, *args):
    require(np.shape(a) == np.shape(b), what + ": shape %s, expected %s", *args, np.shape(a), np.shape(b))
    e = ref.err(a, b)
    require(e <= tol, what + ": relative deviation %.3g", *args, e)


def keys(lmax):
    return {(l, m) for l in range(lmax) for m in range(-l, l + 1)}


def image_case(g, d, zg=None):
    c = c11.shc(d)
    zg = zg or g.geometry()
    im = I.to_image(c, zg)
    require(c11.entries(c) == {k: (v,) for k, v in d.items()}, "to_image changed the coefficients")
    e = g.image(d)
    require(im.shape == e.shape, "image shape %s, expected %s", im.shape, e.shape)
    require(np.max(np.abs(im - e), initial=0) <= 1e-10 * max(sum(map(abs, d.values())), 1e-300),
            "image of %s deviates by %.3g", sorted(d)[:4], np.max(np.abs(im - e), initial=0))
    return im


def back_case(g, image, lmax, zg, tol, d):
    before = image.copy()
    args = (image,) if zg is None else (image, zg)
    c, z2 = I.from_image(*args, lmax=lmax)
    require(np.array_equal(image, before), "from_image changed the image")
    got = {k: v[0] for k, v in c11.entries(c).items()}
    require(set(got) in (keys(lmax), keys(lmax + 1)), "degrees and orders %s...", sorted(got)[-3:])
    require(z2 is zg if zg is not None else np.allclose(z2.centers(), (g.pl, g.az)), "the geometry returned")
    s = max(np.max(np.abs(list(d.values()))), 1e-300)
    for k in got:
        t = tol if any(k[1] == q[1] for q in d) else 1e-9
        require(abs(got[k] - d.get(k, 0)) <= t * s, "coefficient %s is %s, expected %s (tolerance %.2g)", k, got[k], d.get(k, 0), t * s)


def run(ck):
    ck.rule = "a state is one (grid, coefficient set) converted, or one history of conversions with all of its results compared"
    full = [Grid("13x25", 13, 25), Grid("25x13", 25, 13), Grid("20x40", 20, 40), Grid("33x66", 33, 66), Grid("9x30", 9, 30),
            Grid("from -pi", 21, (-np.pi, np.pi, 41)), Grid("azimuth 1..1+2pi", 17, (1, 1 + 2 * np.pi, 33)),
            Grid("from the south", (np.pi, 0, 21), (0, 2 * np.pi, 41)), Grid("from the east", 21, (2 * np.pi, 0, 41)), Grid("from both", (np.pi, 0, 17), (np.pi, -np.pi, 33))]
    part = [Grid("patch", (.4, 1.2, 9), (.5, 2.1, 12)), Grid("belt", (1, 2, 7), (0, 2 * np.pi, 19)), Grid("2x2", 2, 2), Grid("2x9", 2, 9),
            Grid("9x2", 9, 2), Grid("patch from the south", (1.2, .4, 9), (.5, 2.1, 12)), Grid("patch from the east", (.4, 1.2, 9), (2.1, .5, 12)),
            Grid("patch from both", (1.2, .4, 6), (2.1, .5, 7))]
    L = bound(6, 9)
    for g in full + part:
        zg = g.geometry()
        for l in range(L):
            for m in range(-l, l + 1):
                for u in (1, 1j):
                    ck.step()
                    ck.state(g.name, l, m, u)
                    ck.case("image %s l=%d m=%d %s" % (g.name, l, m, u), image_case, g, {(l, m): complex(u)}, zg)
        d = {(l, m): value(l, m) for l in range(L) for m in range(-l, l + 1)}
        for f in (1, 1e-200, 1e200):
            ck.case("image %s dense times %g" % (g.name, f), image_case, g, {k: v * f for k, v in d.items()}, zg)
        ck.case("image %s reversed" % g.name, image_case, g, dict(reversed(list(d.items()))), zg)
        ck.case("image %s empty" % g.name, image_case, g, {}, zg)
    for g in full:
        zg = g.geometry()
        n = min(len(g.pc), len(g.ac)) - 1
        lmax = min(L, (n - 1) // 2)
        tol = 2 * g.error(lmax) + 1e-10
        for l in range(lmax):
            for m in range(-l, l + 1):
                for u in (1, 1j):
                    ck.step()
                    ck.state(g.name, "back", l, m, u)
                    d = {(l, m): complex(u)}
                    ck.case("harmonics %s l=%d m=%d %s" % (g.name, l, m, u), back_case, g, g.image(d), lmax,
                            None if isinstance(g.args[1], int) and (l + m) % 2 else zg, tol, d)
                # real images
                for part_ in ("real", "imag"):
                    ck.step()
                    im = getattr(g.image({(l, m): 1}), part_).copy()
                    w = 1 if part_ == "real" else -1j
                    d = {(l, m): w / 2 + 0j}
                    d[l, -m] = d.get((l, -m), 0) + (-1) ** (m % 2) * np.conj(w) / 2
                    d = {k: v for k, v in d.items() if v != 0} or {(l, m): 0j}
                    ck.case("harmonics %s %s part l=%d m=%d" % (g.name, part_, l, m), back_case, g, im, lmax, zg, tol, d)
        d = {(l, m): value(l, m) for l in range(lmax) for m in range(-l, l + 1)}
        for f in (1, 1e-200, 1e200):
            ck.case("harmonics %s dense times %g" % (g.name, f), back_case, g, g.image(d) * f, lmax, zg, tol * lmax, {k: v * f for k, v in d.items()})
        for q in range(1, lmax + 1):
            low = {k: v for k, v in d.items() if k[0] < min(q, 2)}
            ck.state(g.name, "lmax", q)
            ck.case("harmonics %s lmax %d" % (g.name, q), back_case, g, g.image(low), q, zg, tol * lmax, low)

        def there_and_back(d=d, zg=zg, g=g, lmax=lmax, tol=tol):
            c, _ = I.from_image(I.to_image(c11.shc(d), zg), zg, lmax=lmax)
            got = {k: v[0] for k, v in c11.entries(c).items()}
            s = max(map(abs, d.values()))
            for k, v in d.items():
                require(abs(got[k] - v) <= tol * lmax * s, "%s comes back as %s, was %s", k, got[k], v)
        ck.case("there and back %s" % g.name, there_and_back)

    # more coefficients than the cache holds
    def large():
        g = Grid("8x9", 8, 9)
        d = {(l, m): value(l, m) / (1 + l) for l in range(34) for m in range(-l, l + 1)}
        for _ in range(2):
            image_case(g, d)
        c, zg = I.from_image(g.image({(0, 0): 1 + 0j}))
        require(set(c11.entries(c)) in (keys(30), keys(31)), "default degrees")
    ck.case("large", large)
    def kinds(dtype):
        """Coefficients of other number types."""
        g = full[0]
        d = {(0, 0): 2, (1, -1): 3, (2, 0): -1, (3, 2): 5}
        c = C.from_arrays([k[0] for k in d], [k[1] for k in d], np.array(list(d.values()), dtype))
        close(I.to_image(c, g.geometry()), g.image(d), 1e-10 if np.dtype(dtype).itemsize > 4 else 1e-5, "image of coefficients of type %s", dtype)
    for dtype in ("float64", "int64", "float32", "complex128"):
        ck.step()
        ck.state("kind", dtype)
        ck.case("image of %s coefficients" % dtype, kinds, dtype)
        for im in ("float64", "int64", "float32"):
            def one():
                g = full[2]
                image = np.round(4 * g.image({(1, 0): 1, (2, 1): 1, (2, -1): -1}).real).astype(im)
                c, _ = I.from_image(image, g.geometry(), lmax=4)
                e = g.sums(image.astype(float), 4)
                got = {k: v[0] for k, v in c11.entries(c).items()}
                require(set(got) == set(e), "degrees and orders")
                for k in e:
                    require(abs(got[k] - e[k]) < 1e-4, "coefficient %s of an image of type %s is %s, expected %s", k, im, got[k], e[k])
            ck.case("harmonics of an image of type %s" % im, one)
    fine = Grid("81x161", 81, 161)
    for L, q in ((32, (31, -7)), (36, (35, 35)), (33, (32, 0)))[:bound(2, 3)]:
        ck.step()
        ck.state("fine", L, q)
        d = {q: 2 - 1j, (1, 0): .5j}
        ck.case("harmonics to degree %d" % (L - 1), back_case, fine, fine.image(d), L, fine.geometry(), 2 * fine.error(L) + 1e-10, d)

    # -- harmonics at points ------------------------------------------------------------------------------
    def points(l, m, shape, cache):
        n = int(np.prod(shape))
        az = (np.arange(n) * 1.7 % 6.3 - 1).reshape(shape)
        pl = (.1 + np.arange(n) * 1.1 % 3).reshape(shape)
        before = az.copy(), pl.copy()
        r = I.spherical_harmonic(m, l, az, pl, use_cache=cache)
        require(np.array_equal(az, before[0]) and np.array_equal(pl, before[1]), "the points changed")
        close(np.ravel(r), np.ravel(ref.Harmonics(max(l, 1), pl, az).Y(l, m)), 1e-10, "l=%d m=%d", l, m)
    for l in range(bound(4, 8)):
        for m in range(-l, l + 1):
            for shape in ((1,), (5,), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)):
                for cache in (True, False):
                    ck.state("points", l, m, shape, cache)
                    ck.step()
                    ck.case("points l=%d m=%d %s cache %s" % (l, m, shape, cache), points, l, m, shape, cache)

    # -- histories ----------------------------------------------------------------------------------------
    # Same shape with other spacing, transposed shape, same azimuths with other polar angles and the reverse.
    hist = {"a": Grid("7x9", 7, 9), "b": Grid("7x9 patch", (.3, 1.9, 7), (1, 3, 9)), "c": Grid("9x7", 9, 7),
            "d": Grid("belt", (.5, 1.0, 7), 9), "e": Grid("other azimuths", 7, (-1., 2., 9))}
    geo = {k: g.geometry() for k, g in hist.items()}
    d1 = {(0, 0): 1 + 1j, (1, -1): 2 - 1j, (2, 1): .5j, (1, 1): -1 + 0j}
    d2 = {(1, 0): 1j, (2, -2): 3 + 0j}
    images = {k: g.image(d1) for k, g in hist.items()}
    sums = {k: g.sums(images[k], 3) for k, g in hist.items()}

    def op(o, last):
        kind, k = o[0], o[1:]
        g = hist.get(k)
        if kind == "I":      # an image
            r = I.to_image(c11.shc(d1), geo[k])
            close(r, g.image(d1), 1e-10, "image on grid %s", g.name)
            return r
        if kind == "J":      # an image of other coefficients, on a new geometry object
            r = I.to_image(c11.shc(d2), g.geometry())
            close(r, g.image(d2), 1e-10, "second image on grid %s", g.name)
            return r
        if kind == "F":      # from an image
            c, _ = I.from_image(images[k].copy(), geo[k], lmax=3)
            got = {q: v[0] for q, v in c11.entries(c).items()}
            s = max(map(abs, sums[k].values()))
            tol = 2e-10 if not g.full else 2 * g.error(3) * 4
            for q, v in got.items():
                e = d1.get(q, 0) if g.full else sums[k][q]
                require(abs(v - e) <= tol * s + 1e-12, "coefficient %s on grid %s is %s, expected %s", q, g.name, v, e)
            return None
        if kind == "Y":      # direct evaluation on the grid
            r = I.spherical_harmonic(1, 2, g.az, g.pl)
            close(r, g.Y(2, 1), 1e-10, "harmonic on grid %s", g.name)
            return r
        if kind == "P":      # points that are not a grid, with the same first azimuths and polar angles
            az, pl = hist["a"].az.copy(), hist["a"].pl.copy()
            az[1:, 1:] += .1
            r = I.spherical_harmonic(1, 2, az, pl)
            close(r, ref.Harmonics(2, pl, az).Y(2, 1), 1e-10, "harmonic at points")
            return r
        if kind == "W":      # the caller overwrites what was returned last
            if last is not None:
                last *= 3
                last += 7
            return None
        raise ValueError(o)
    ops = ["Ia", "Ib", "Ic", "Id", "Ie", "Ja", "Fa", "Fb", "Fc", "Ya", "Yd", "P", "W"]

    def history(h):
        last = None
        for i, o in enumerate(h):
            ck.step()
            try:
                r = op(o, last)
            except Mismatch as e:
                raise Mismatch("step %d (%s): %s" % (i + 1, o, e))
            last = r if r is not None else last
    D = bound(3, 4)
    for n in range(1, D + 1):
        for h in itertools.product(ops, repeat=n):
            if ck.too_many():
                break
            if h[0] == "W" or any(x == y == "W" for x, y in zip(h, h[1:])):
                continue
            ck.state("history", h)
            ck.case("history " + " ".join(h), history, h)
    ck.sample(dict(history=["Ia", "W", "Ib"], meaning="image on a 7x9 grid, overwrite it, image on another grid of the same shape"))
