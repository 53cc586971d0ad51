"""C18: the wind solution on products of temperature, density, mass and stellar radius, and of radii and array forms.

The reference solves the wind equation by bisection, without the Lambert function.
"""
import itertools, math
import numpy as np
import scipy.constants as sc
from mc.core import Mismatch, require, bound
from mc import ref
from starwinds_magnetogram.parker_solution import ParkerSolution

LEVEL = "model_checking"
RSUN, MSUN = 6.95510e8, 1.989e30


def equation(u, x):
    return u * u - 1 - 2 * np.log(u) - 4 * np.log(x) - 4 * (1 / x - 1)


_cache = {}


def solve(x):
    """Speed over sound speed at radius over sonic radius x, by bisection in log u."""
    if x in _cache:
        return _cache[x]
    if x == 1:
        return 1.0
    lo, hi = (-700.0, 0.0) if x < 1 else (0.0, 5.0)
    rhs = 4 * math.log(x) + 4 * (1 / x - 1)
    f = lambda s: math.expm1(2 * s) - 2 * s - rhs
    for _ in range(200):
        mid = (lo + hi) / 2
        if (f(mid) > 0) == (x < 1):
            lo = mid
        else:
            hi = mid
    _cache[x] = math.exp((lo + hi) / 2)
    return _cache[x]


def tol(x):
    """scipy's Lambert function loses digits next to its branch point, the sonic point."""
    return 3e-5 if abs(x - 1) < 3e-4 else 1e-9


X = [.003, .004, .0053, .0054, .006, .0101, .013, .02, .05, .1, .2, .3, .5, .75, .9, .99, .999, 1.0, 1.001, 1.01, 1.1, 1.5, 2.0, 2.5, 3.0, 5.0, 10.0, 31.0, 100.0, 1e3, 1e6]
NEAR = sorted([1 + s * 10.0 ** -k for s in (-1, 1) for k in range(3, 17)] + [np.nextafter(1, 0), np.nextafter(1, 2), 1.0])


def dimensionless():
    xs = sorted(set(X + NEAR + list(np.geomspace(.0031, 300, bound(400, 5000)))))
    for form in (np.array(xs), list(xs)):
        u = ParkerSolution.find_parker_analytic(form)
        require(u.shape == (len(xs),) and np.all(np.isfinite(u)) and np.isrealobj(u), "not finite and real at %s", np.array(xs)[~np.isfinite(u)])
        for x, v in zip(xs, u):
            e = solve(x)
            require(abs(v / e - 1) <= tol(x), "speed at %r of the sonic radius is %.15g, expected %.15g", x, v, e)
            require(abs(equation(v, x)) <= 1e-9 * max(1, abs(math.log(v))), "the wind equation at %r is off by %.3g", x, equation(v, x))
            require(v <= 1 if x <= 1 else v >= 1 - 1e-12, "speed %.17g at %r of the sonic radius", v, x)
            require(abs(x - 1) < 1e-5 or (v < 1 if x < 1 else v > 1), "speed %.17g at %r of the sonic radius", v, x)
            one = ParkerSolution.find_parker_analytic(x)
            require(float(one) == v, "the speed at %r depends on the other radii", x)
        a, b = np.array(xs), u
        far = np.abs(a - 1) > 1e-3
        require(np.all(np.diff(b[far]) > 0), "not increasing with the radius")
        require(np.all(np.diff(b) >= -1e-7), "decreasing with the radius near the sonic point")
    require(float(ParkerSolution.find_parker_analytic(1.0)) == 1.0 or abs(float(ParkerSolution.find_parker_analytic(1.0)) - 1) < 1e-6,
            "speed at the sonic radius")
    w0, w1 = ParkerSolution.find_parker_analytic(np.array([.5, .9, 1.5, 4]), all_sols=True)
    require(np.all(w0 < 1) and np.all(w1 > 1), "the branches of all solutions")
    for w in (w0, w1):
        require(np.max(np.abs(equation(w, np.array([.5, .9, 1.5, 4])))) <= 1e-9, "all solutions satisfy the equation")
    for v in (.1, .5, 1, 2.0, 7):
        require(abs(ParkerSolution.parker_lhs(v) - (v * v - 1 - 2 * math.log(v))) < 1e-12, "left-hand side at %s", v)
        require(abs(ParkerSolution.parker_rhs(v) - (4 * math.log(v) + 4 * (1 / v - 1))) < 1e-12, "right-hand side at %s", v)


FORMS = {
    "array": lambda r: np.array(r), "list": lambda r: list(r), "tuple": lambda r: tuple(r), "2-d": lambda r: np.array(r).reshape(2, -1),
    "column": lambda r: np.array(r).reshape(-1, 1), "reversed": lambda r: np.array(r)[::-1], "strided": lambda r: np.repeat(np.array(r), 2)[::2],
    "3-d": lambda r: np.array(r).reshape(1, 2, -1), "shuffled": lambda r: np.array(r)[np.argsort(np.sin(np.arange(len(r))))],
    "read-only": None,
}


def star(kw, form):
    p = ParkerSolution(**kw)
    T, rho, R, M = (kw.get(k, d) for k, d in (("temperature", 1.5e6), ("base_density", 1.5e14 * sc.proton_mass), ("stellar_radius", RSUN),
                                              ("stellar_mass", MSUN)))
    cs = math.sqrt(2 * sc.k * T / sc.m_p)
    rs = sc.G * M / (2 * cs ** 2)
    require(abs(p.speed_sonic / cs - 1) < 1e-9, "sound speed %g, expected %g", p.speed_sonic, cs)
    require(abs(p.radius_sonic / rs - 1) < 1e-9, "sonic radius %g, expected %g", p.radius_sonic, rs)
    rs, cs = float(p.radius_sonic), float(p.speed_sonic)
    radii = sorted({R, R * .999999, R / 2, 0.0, R * 1.000001, R * 1.3, R * 2, R * 10, R * 215, R * 1e4, rs, rs * .5, rs * 2, rs * 30,
                    np.nextafter(rs, 0), np.nextafter(rs, 2 * rs)})
    if len(radii) % 2:
        radii.append(max(radii) * 2)
    if form == "read-only":
        arg = np.array(radii)
        arg.flags.writeable = False
    else:
        arg = FORMS[form](radii)
    ra = np.array(arg, float)
    before = ra.copy()
    u = np.asarray(p.speed(arg))
    require(u.shape == ra.shape, "speeds of shape %s for radii of shape %s", u.shape, ra.shape)
    require(np.all(np.isfinite(u)) and np.all(u > 0), "speed not finite or not positive at %s", ra[~np.isfinite(u)])
    require(np.array_equal(np.array(arg, float), before), "the radii were changed")
    d = np.asarray(p.density(arg))
    require(d.shape == ra.shape, "densities of shape %s for radii of shape %s", d.shape, ra.shape)
    require(np.all(np.isfinite(d)) and np.all(d > 0), "density not finite or not positive")
    require(np.array_equal(np.array(arg, float), before), "the radii were changed")
    rr = np.maximum(ra, R)
    us, ds = float(np.ravel(p.speed(R))[0]), float(np.ravel(p.density(R))[0])
    require(abs(ds / rho - 1) < 1e-9, "density at the surface %g, base density %g", ds, rho)
    for r, v, q in zip(rr.flat, u.flat, d.flat):
        x = r / rs
        e = cs * solve(x)
        require(abs(v / e - 1) <= tol(x), "speed at %g stellar radii is %.12g, expected %.12g", r / R, v, e)
        flux = q * v * r * r
        require(abs(flux / (rho * us * R * R) - 1) <= 1e-9, "density times speed times radius squared at %g stellar radii: %.12g, at the surface %.12g",
                r / R, flux, rho * us * R * R)
        if r == R:
            require(abs(v / us - 1) < 1e-12 and abs(q / ds - 1) < 1e-12, "surface value below the surface")
        one = float(np.ravel(p.speed(float(r)))[0]), float(np.ravel(p.density(float(r)))[0])
        require(abs(one[0] / v - 1) < 1e-12 and abs(one[1] / q - 1) < 1e-12, "value at %g stellar radii depends on the other radii", r / R)
    o = np.argsort(rr, axis=None)
    f, w = rr.ravel()[o], u.ravel()[o]
    require(np.all(np.diff(w)[np.diff(f) > 1e-3 * f[:-1]] > 0), "the speed does not increase with the radius")
    m = float(np.ravel(p.total_mass_flux)[0])
    e = 4 * math.pi * rho * us * R * R
    require(abs(m / e - 1) <= 4e-5 if abs(R / rs - 1) < 3e-4 else abs(m / e - 1) <= 1e-9, "total mass flux %.12g, expected %.12g", m, e)


def run(ck):
    ck.rule = "a state is one (temperature, density, mass, radius, form of the radii) whose speed, density and flux were compared at every radius"
    ck.state("dimensionless")
    ck.step(len(X))
    ck.case("dimensionless", dimensionless)

    def case(kw, form):
        cid = "%s %s" % (" ".join("%s=%.4g" % kv for kv in sorted(kw.items())), form)
        ck.state(cid)
        ck.step(40)
        ck.case(cid, star, kw, form)
    for form in FORMS:
        case({}, form)
    Ts = bound((2e4, 1e5, 5e5, 1e6, 1.5e6, 3e6, 6e6, 5e7), (2e4, 3e4, 8e4, 1e5, 3e5, 5e5, 1e6, 1.5e6, 3e6, 6e6, 2e7, 5e7, 1e9))
    for T, rho, R, M in itertools.product(Ts, bound((1e-20, 2.5e-7, 1e3), (1e-20, 1e-13, 2.5e-7, 1e3)), bound((.1, .5, 1, 3, 30), (.1, .5, 1, 3, 30, 100)), bound((.01, .1, 1, 5), (.01, .1, 1, 5, 20))):
        rs = sc.G * M * MSUN * sc.m_p / (4 * T * sc.k)
        if rs > 280 * R * RSUN:
            continue
        kw = dict(temperature=T, base_density=rho, stellar_radius=R * RSUN, stellar_mass=M * MSUN)
        case(kw, "array")
        case(kw, "2-d")
    for T in (int(1e6), 2 * 10 ** 6):
        case(dict(temperature=T, stellar_radius=int(7e8), stellar_mass=int(2e18) * 10 ** 12), "list")
    # the sonic point at and next to the surface
    p = ParkerSolution()
    for f in (1.0, 1 + 1e-15, 1 - 1e-15, 1 + 1e-9, 1 - 1e-9, .999, 1.001, .5, 2.0):
        for T in bound((1.5e6, 4e5), (1.5e6, 4e5, 1e6, 3e6, 7.7e5)):
            rs = float(ParkerSolution(temperature=T).radius_sonic)
            for form in ("array", "2-d", "list"):
                case(dict(temperature=T, stellar_radius=rs * f), form)

    # radii given as integers, single values and repeated use of one array
    def integers():
        p = ParkerSolution(stellar_radius=7 * 10 ** 8)
        for r in (8 * 10 ** 8, [10 ** 8, 7 * 10 ** 8, 10 ** 10], np.array([10 ** 9, 10 ** 11]), np.array(10 ** 9), np.float32(1e9)):
            for f in (p.speed, p.density):
                a, b = np.asarray(f(r)), np.asarray(f(np.asarray(r, float)))
                require(a.size == b.size and np.max(np.abs(a / b - 1)) < (1e-4 if isinstance(r, np.float32) else 1e-12), "%s of %r", f.__name__, r)
        shared = np.linspace(.2, 40, 50) * p.stellar_radius
        first = p.speed(shared), p.density(shared)
        q = ParkerSolution(temperature=4e6, stellar_radius=3e9)
        q.speed(shared), q.density(shared)
        again = p.speed(shared), p.density(shared)
        require(np.array_equal(first, again), "the result depends on what was calculated before")
    ck.state("integers")
    ck.case("integers", integers)
    ck.sample(dict(temperature=4e5, stellar_radius="the sonic radius", radii="2-d"))
