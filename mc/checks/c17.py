"""C17: longitudinal field curves over products of magnetogram, geometry, inclination and lists of azimuths."""
import itertools, math
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06, c16
from starwinds_magnetogram import geometry as G
from starwinds_magnetogram import longitudinal_field as L
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"
SHARDS = 8


class Star:
    """Facets of a corner grid and the cartesian field of every unit coefficient on them."""

    def __init__(self, name, make, pl, az):
        self.name, self.make = name, make
        self.area, self.pc, self.ac, self.n = c16.facets(pl, az)
        self.h = ref.Harmonics(6, self.pc, self.ac)

    def field(self, coeffs):
        return ref.cartesian(*ref.zdi_field(coeffs, self.pc, self.ac, self.h), self.pc, self.ac)

    def curve(self, b, inc, azs):
        r = []
        for a in azs:
            a = float(a)
            d = np.array([math.sin(inc) * math.cos(a), math.sin(inc) * math.sin(a), math.cos(inc)])
            mu = self.n @ d
            w = self.area * np.where(mu > 1e-13, mu, 0)
            r.append(np.sum((b @ d) * w) / np.sum(w))
        return np.array(r)


def stars():
    r = []
    for n, k in ((7, 13), (5, 9), (9, 16), (17, 33)):
        r.append(Star("%dx%d" % (n, k), lambda n=n, k=k: G.ZdiGeometry(n, k), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, k)))
    pl, az = np.array([0, .4, 1.0, 1.3, 2, np.pi]), np.array([-np.pi, -2, -1, .2, 1.0, 3, np.pi])
    r.append(Star("uneven", lambda: G.ZdiGeometry(pl.copy(), az.copy()), pl, az))
    r.append(Star("default", lambda: G.ZdiGeometry(), np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)))
    return r


INC = (0.0, -.4, .3, np.pi / 4, 1.1, np.pi / 2, 2.0, np.pi)
LISTS = {
    "floats": [0.0, .5, 1.7, 3.0, 4.4, 6.2], "integers": [0, 1, 2, 3, 4, 5], "mixed": [0, .5, 1, np.float32(2), np.int64(3)],
    "array": np.linspace(0, 2 * np.pi, 7), "integer array": np.arange(-2, 5), "single array": np.array([1.25]), "one": [2.5],
    "negative": [-.1, -3.0, -9.5], "repeated": [1.0, 1.0, .3, 1.0], "downwards": [5.0, 4.0, 2.5, 0.1], "tuple": (.2, 4.0),
    "full turns": [.7, .7 + 2 * np.pi, .7 - 2 * np.pi], "unsorted array": np.array([4.0, .5, 9.25, -1]), "none at all": [], "close": [.5, .5 + 1e-3, .5 + 1e-4, .5 + 1e-6, .5 - 1e-5], "float32": np.array([.25, 1.5], dtype=np.float32),
}


def mags():
    unit = [("l=%d m=%d %s %s" % (l, m, c06.KINDS[k], u), [(l, m) + tuple(u if i == k else 0 for i in range(3))])
            for l in range(1, 4) for m in range(l + 1) for k in range(3) for u in (1, 1j)]
    ex = [(l, m, a, b, g) for l, m, a, b, g in c06.example(4) if m >= 0]
    return unit, [("dense", ex), ("monopole", [(0, 0, 3, 0, 0)]), ("zero", [(1, 0, 0, 0, 0)]), ("sparse", [(3, 2, 1j, 0, 2), (1, 1, 0, -1, 0)])]


def get(geo, mag, inc, azs):
    r = L.get_longitudinal_field_curve(geo, mag, inc, azs)
    require(isinstance(r, np.ndarray) and r.shape == (len(azs),), "result of shape %s for %d azimuths", np.shape(r), len(azs))
    return r


def judge(ck, star, coeffs, inc, azs, brief=False):
    geo, mag = star.make(), c06.make(coeffs)
    b = star.field(coeffs)
    e = star.curve(b, inc, azs)
    s = max(np.max(np.abs(b)), 1e-300)
    single = any(getattr(a, "dtype", None) == np.float32 for a in azs)      # evaluated to single precision
    before = np.array(azs)
    r = get(geo, mag, inc, azs)
    require(np.array_equal(np.array(azs), before), "the azimuths were changed")
    require(np.all(np.abs(r - e) <= (1e-5 if single else 1e-10) * s), "curve %s, expected %s", r, e)
    if brief:
        return
    # alone and in any other order
    for p in (range(len(azs))[::-1], range(0, len(azs), 2)):
        q = [azs[i] for i in p]
        x = get(geo, mag, inc, q)
        require(np.all(np.abs(x - r[list(p)]) <= (1e-5 if single else 1e-12) * s), "the value at an azimuth depends on the others")
    for i in range(len(azs)):
        x = get(geo, mag, inc, azs[i:i + 1])
        require(abs(x[0] - r[i]) <= (1e-5 if single else 1e-12) * s, "the value at azimuth %s depends on the others", azs[i])


def run(ck):
    ck.rule = "a state is one (geometry, magnetogram, inclination, list of azimuths) whose whole curve was judged"
    unit, more = mags()
    S = stars()
    small, default = S[:bound(2, 3)] + S[4:5], S[-1]

    def case(star, name, coeffs, inc, lname, azs, brief=False):
        cid = "%s %s inclination %.3f %s" % (star.name, name, inc, lname)
        ck.state(cid)
        ck.step(len(azs) + 3)
        ck.case(cid, judge, ck, star, coeffs, inc, azs, brief)
    # a geometry of few tall columns, and patches of the surface down to a small spot
    tall = Star("12x5", lambda: G.ZdiGeometry(12, 5), np.linspace(0, np.pi, 12), np.linspace(0, 2 * np.pi, 5))
    patches = []
    for side in (1.5, .1, 1e-2, 1e-3, 1e-4):
        pl, az = np.linspace(1.0, 1 + side, 4), np.linspace(.2, .2 + side, 6)
        patches.append(Star("patch %g" % side, lambda pl=pl, az=az: G.ZdiGeometry(pl.copy(), az.copy()), pl, az))
    for star in [tall] + patches:
        for name, coeffs in more[:1] + more[3:]:
            for inc in (.3, 1.1, np.pi / 2):
                case(star, name, coeffs, inc, "facing", [.1, .9, .5, .3])
    for star in small:
        for i, (name, coeffs) in enumerate(unit + more):
            for inc in INC:
                case(star, name, coeffs, inc, "floats", LISTS["floats"], (i + int(inc * 10)) % bound(7, 1) > 0)
    for star in S:
        for name, coeffs in more:
            for inc in bound([.3, np.pi / 2], INC[1:5]) if star in (default, S[3]) else INC:
                for lname, azs in LISTS.items():
                    if star in (default, S[3]) and lname not in ("mixed", "integer array"):
                        continue
                    case(star, name, coeffs, inc, lname, azs, lname not in ("repeated", "mixed") or star not in small)

    # without azimuths: evenly once around, and the plotting function draws and returns the same
    def default_azimuths(star, coeffs, inc):
        geo, mag = star.make(), c06.make(coeffs)
        b = star.field(coeffs)
        s = np.max(np.abs(b))
        r = L.get_longitudinal_field_curve(geo, mag, inc)
        e = star.curve(b, inc, np.linspace(0, 2 * np.pi, geo.shape[0]))
        require(r.shape == e.shape and np.all(np.abs(r - e) <= 1e-10 * s), "curve at the default azimuths")
        import matplotlib.figure
        for azs in (None, [.5, 1.0, 4.0], np.arange(5), [4.0, .5, 2.25, .5], np.array([3.0, -7.5, 9.0])):
            fig = matplotlib.figure.Figure()
            ax = fig.add_subplot()
            ax2, both = L.plot_longitudinal_field_curve(ax, geo, mag, inc, azs)
            q = np.linspace(0, 2 * np.pi, geo.shape[0]) if azs is None else np.asarray(azs, float)
            e = star.curve(b, inc, q)
            require(np.allclose(both[0], q, rtol=0, atol=1e-12) and np.all(np.abs(both[1] - e) <= 1e-10 * s), "azimuths and curve returned")
            line = ax.lines[0]
            require(np.allclose(line.get_xdata(), np.rad2deg(q), rtol=0, atol=1e-9) and np.all(np.abs(line.get_ydata() - e) <= 1e-10 * s),
                    "the line drawn")
            lo, hi = ax.get_ylim()
            require(np.max(np.abs(e)) < 1e-9 * s or lo < np.min(e) and hi > np.max(e), "the curve is outside of the plot")
    for star in S[:3] + [tall]:
        for name, coeffs in more[:1] + more[3:] + unit[::bound(14, 7)]:
            for inc in bound((.3, np.pi / 2), (.3, 1.1, np.pi / 2)):
                ck.state("default", star.name, name, inc)
                ck.step(4)
                ck.case("default azimuths %s %s inclination %.3f" % (star.name, name, inc), default_azimuths, star, coeffs, inc)

    # rotating the observer by whole facets is rotating the magnetogram back
    def equivariance(star, coeffs, inc, k, n):
        step = 2 * np.pi / (n - 1)
        geo = star.make()
        azs = [.1, .9, 2.2, 5.0]
        turned = [(l, m) + tuple(v * np.exp(1j * m * k * step) for v in (a, b, g)) for l, m, a, b, g in coeffs]
        x = get(geo, c06.make(coeffs), inc, [a + k * step for a in azs])
        y = get(geo, c06.make(turned), inc, azs)
        s = max(np.max(np.abs(star.field(coeffs))), 1e-300)
        require(np.all(np.abs(x - y) <= 1e-11 * s), "observer rotated by %d facets: %s; magnetogram rotated back: %s", k, x, y)
    for star, n in zip(S[:2], (13, 9)):
        for name, coeffs in more[::3] + unit[::bound(10, 5)]:
            for inc in INC[1:6:bound(2, 1)]:
                for k in range(-1, n, bound(3, 1)):
                    ck.state("turn", star.name, name, inc, k)
                    ck.step(2)
                    ck.case("turn %s %s inclination %.3f by %d" % (star.name, name, inc, k), equivariance, star, coeffs, inc, k, n)

    # linear in the magnetogram
    def linear(star, inc, azs):
        a = more[0][1]
        b = [(l, m, x.conjugate() + 1 if isinstance(x, complex) else x + 1, y * 1j, z - 2) for l, m, x, y, z in a]
        geo = star.make()
        ra, rb = get(geo, c06.make(a), inc, azs), get(geo, c06.make(b), inc, azs)
        s = np.max(np.abs(ra)) + np.max(np.abs(rb)) + 1e-3
        for p, q in itertools.product((1, -1, 0, 3.5), repeat=2):
            c = [(l, m) + tuple(p * x + q * y for x, y in zip(u, v)) for (l, m, *u), (_, _, *v) in zip(a, b)]
            r = get(geo, c06.make(c), inc, azs)
            require(np.all(np.abs(r - p * ra - q * rb) <= 1e-10 * s * 5), "%g times one plus %g times another", p, q)
        for f in (1e-100, 1e100):
            r = get(geo, c06.make([(l, m) + tuple(f * x for x in u) for l, m, *u in a]), inc, azs)
            require(np.all(np.abs(r / f - ra) <= 1e-10 * s), "magnetogram times %g", f)
    for star in S[:3] + S[4:5]:
        for inc in INC:
            ck.state("linear", star.name, inc)
            ck.step(18)
            ck.case("linear %s inclination %.3f" % (star.name, inc), linear, star, inc, LISTS["floats"])

    # closed form: the dipole along the axis, seen by every observer, on a fine grid
    def dipole(inc):
        geo = G.ZdiGeometry(bound(61, 181), bound(121, 361))
        c = [(1, 0, 2.0, 2.0, 0)]
        top = 2.0 * math.sqrt(3 / (4 * math.pi))
        # Radial cos and tangential sin/2 parts give 3/5*(2/3+1/3)... measured by the fine reference quadrature
        th, ph, w = ref.gauss_sphere(40)
        b = ref.cartesian(*ref.zdi_field(c, th, ph), th, ph)
        d = np.array([math.sin(inc), 0, math.cos(inc)])
        mu = ref.unit_vectors(th, ph)[0] @ d
        ww = w * np.where(mu > 0, mu, 0)
        e = np.sum((b @ d) * ww) / np.sum(ww)
        r = get(geo, c06.make(c), inc, [0.0])
        require(abs(r[0] - e) <= 5e-3 * top, "dipole seen from %.3f: %.6f, expected %.6f", inc, r[0], e)
    for inc in INC:
        ck.state("dipole", inc)
        ck.step()
        ck.case("dipole inclination %.3f" % inc, dipole, inc)
    ck.sample(dict(geometry="7x13", magnetogram=more[3][1], inclination=.3, azimuths=LISTS["mixed"]))
