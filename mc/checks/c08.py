"""C08: energies of every basis element and of every subset of a small set of entries, against Parseval and quadrature."""
import itertools, math, re, io, contextlib
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"


def parseval(c):
    l, m, a, b, g = c
    f = (lambda x: complex(x).real ** 2) if m == 0 else (lambda x: abs(complex(x)) ** 2 / 2)
    return f(a), f(b) * l / (l + 1), f(g) * l / (l + 1)


def quadrature(cs):
    """Integrals of the squared radial, poloidal tangential and toroidal field, and of the squared strength."""
    n = max(c[0] for c in cs) + 2
    t, p, w = ref.gauss_sphere(n)
    e = ref.zdi_parts(cs, t, p)
    sq = lambda *ks: sum(np.sum(w * e[k] ** 2) for k in ks)
    tot = sum(np.sum(w * (e[c + "-poloidal"] + e[c + "-toroidal"]) ** 2) for c in ("radial", "polar", "azimuthal"))
    return (sq("radial-poloidal"), sq("polar-poloidal", "azimuthal-poloidal"), sq("polar-toroidal", "azimuthal-toroidal"), tot)


def fractions(cs):
    """{key: (numerator, denominator)}"""
    E = [parseval(c) for c in cs]
    A, B, G = [[e[i] for e in E] for i in range(3)]
    ls, ms = [c[0] for c in cs], [c[1] for c in cs]

    def s(xs, cond=lambda l, m: True):
        return math.fsum(x for x, l, m in zip(xs, ls, ms) if cond(l, m))
    P = [a + b for a, b in zip(A, B)]
    tp, tt = s(P), s(G)
    t = tp + tt
    ax = lambda l, m: m == 0
    r = {
        "magnetogram.radial.energy.fraction": (s(A), t),
        "magnetogram.poloidal.energy.fraction": (tp, t),
        "magnetogram.toroidal.energy.fraction": (tt, t),
        "magnetogram.total.energy.axisymmetric.fraction": (s(P, ax) + s(G, ax), t),
        "magnetogram.total.energy.radial.axisymmetric.fraction": (s(A, ax), tp),
        "magnetogram.total.energy.poloidal.axisymmetric.fraction": (s(P, ax), tp),
        "magnetogram.total.energy.toroidal.axisymmetric.fraction": (s(G, ax), tt),
        "magnetogram.total.energy.dipole.axisymmetric.fraction": (s(P, lambda l, m: l == 1 and m == 0), s(P, lambda l, m: l == 1)),
    }
    for n, k in (("dipole", 1), ("quadrupole", 2), ("octopole", 3)):
        r["magnetogram.total.energy.%s.fraction" % n] = (s(P, lambda l, m: l == k), tp)
        r["magnetogram.total.energy.toroidal.l%d.fraction" % k] = (s(G, lambda l, m: l == k), tt)
    for k in range(1, 16):
        r["magnetogram.pol.energy.l%d.fraction" % k] = (s(P, lambda l, m: l == k), tp)
        r["magnetogram.tor.energy.l%d.fraction" % k] = (s(G, lambda l, m: l == k), tt)
    return r, t


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * abs(b) + 1e-300


def judge(ck, cs, z=None, quad=True):
    z = c06.make(cs) if z is None else z
    exp = [parseval(c) for c in cs]
    d = {}
    got = z.energy(dest=d)
    for i, n in enumerate(("radial", "remaining poloidal", "toroidal")):
        v = np.asarray(got[i])
        require(v.shape == (len(cs),), "the %s energies have shape %s", n, v.shape)
        for c, x, e in zip(cs, v, exp):
            require(np.isreal(x) and near(float(np.real(x)), e[i]), "the %s energy of %s is %s, expected %s", n, c, x, e[i])
    fr, total = fractions(cs)
    require(near(float(np.real(d["magnetogram.total.energy.B2"])), total), "the total energy is %s, expected %s", d["magnetogram.total.energy.B2"], total)
    if quad:
        q = quadrature(cs)
        scale = max(q) or 1e-300
        for i in range(3):
            require(abs(math.fsum(e[i] for e in exp) - q[i]) <= 1e-9 * scale, "Parseval and quadrature differ (reference)")
            require(abs(float(np.real(np.sum(got[i]))) - q[i]) <= 1e-9 * scale, "the energy %d is not the integral of the squared field", i)
        require(abs(float(np.real(d["magnetogram.total.energy.B2"])) - q[3]) <= 1e-9 * scale, "the total is not the integral of the squared strength")
    for k, (num, den) in fr.items():
        require(k in d, "%s is not reported", k)
        if den > 0:
            require(abs(complex(d[k]) - num / den) <= 1e-9, "%s is %s, expected %s", k, d[k], num / den)
        else:
            require(not (np.isfinite(d[k]) and d[k] != 0), "%s is %s although its denominator is zero", k, d[k])
    for k in d:
        require(k in fr or k == "magnetogram.total.energy.B2" or not k.endswith("fraction"), "unknown fraction %s", k)
    stale = dict.fromkeys(d, -7.0)
    z.energy(dest=stale)
    require(set(stale) == set(d) and np.array_equal([stale[k] for k in d], [d[k] for k in d], equal_nan=True), "what was in the dictionary before shows in the result")
    # matrices
    L = max(c[0] for c in cs)
    em = [np.zeros((L + 1, 2 * L + 1)) for _ in range(3)]
    for c, e in zip(cs, exp):
        em[0][c[0], L + c[1]] += e[0]
        em[1][c[0], L + c[1]] += e[0] + e[1]
        em[2][c[0], L + c[1]] += e[2]
    for n, m, e in zip(("radial", "poloidal", "toroidal"), z.energy_matrix(), em):
        m = np.asarray(m)
        require(m.shape == e.shape, "the %s energy matrix has shape %s, expected %s", n, m.shape, e.shape)
        require(np.all(np.abs(m - e) <= 1e-9 * np.abs(e) + 1e-300), "the %s energy matrix is wrong at %s", n, np.argwhere(np.abs(m - e) > 1e-9 * np.abs(e) + 1e-300)[:3].tolist())
    # printing instead of collecting
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        again = z.energy()
        z.energy(show_fractions=True)
    for a, b in zip(got, again):
        require(np.array_equal(a, b), "printing the energies changes them")
    text = buf.getvalue()
    rows = {(int(a), int(b)): v for a, b, *v in re.findall(r"^ *(\d+) +(-?\d+) +(\S+) +(\S+) +(\S+)$", text, re.M)}
    require(set(rows) == {c[:2] for c in cs}, "fractions are printed of %s", sorted(rows))
    for c, e in zip(cs, exp):
        require(total <= 0 or all(abs(float(x) - y / total) <= 1e-6 * abs(y / total) + 1e-12 for x, y in zip(rows[c[:2]], e)), "the fractions printed of %s are %s", c[:2], rows[c[:2]])
    printed = {"Radial   energy*": "magnetogram.radial.energy.fraction", "Poloidal energy": "magnetogram.poloidal.energy.fraction",
               "Toroidal energy": "magnetogram.toroidal.energy.fraction", "poloidal l1 (dipole):": "magnetogram.total.energy.dipole.fraction",
               "poloidal l2 (quadrupole):": "magnetogram.total.energy.quadrupole.fraction", "poloidal l3 (octopole):": "magnetogram.total.energy.octopole.fraction",
               "toroidal l1:": "magnetogram.total.energy.toroidal.l1.fraction", "toroidal l2:": "magnetogram.total.energy.toroidal.l2.fraction",
               "toroidal l3:": "magnetogram.total.energy.toroidal.l3.fraction", "axisymmetric:": "magnetogram.total.energy.axisymmetric.fraction",
               "poloidal axisymmetric:": "magnetogram.total.energy.poloidal.axisymmetric.fraction",
               "toroidal axisymmetric:": "magnetogram.total.energy.toroidal.axisymmetric.fraction",
               "dipole axisymmetric:": "magnetogram.total.energy.dipole.axisymmetric.fraction"}
    for label, k in printed.items():
        m = re.search(r"^%s\s+(-?[\d.]+)%%" % re.escape(label), text, re.M)
        require(m or fr[k][1] <= 0 or "%" in text, "without a dictionary the energies are not printed")
        if m and fr[k][1] > 0:
            require(abs(float(m.group(1)) - 100 * fr[k][0] / fr[k][1]) <= 0.051, "printed '%s %s%%', expected %g", label, m.group(1), 100 * fr[k][0] / fr[k][1])


def run(ck):
    ck.rule = "a state is one set of coefficients whose energies, fractions and matrices were compared"
    units = (1, 1j, 3 - 4j)

    def case(name, cs, z=None, quad=True):
        ck.step()
        ck.state(name)
        ck.case(name, judge, ck, cs, z, quad)
    L = bound(16, 40)
    for l in range(L + 1):
        for m in range(l + 1):
            for kind in range(3):
                for u in units[: 3 if l <= 3 else 1 if l > 6 else 2] if l <= 6 else units[2:]:
                    case("basis l=%d m=%d %s %s" % (l, m, c06.KINDS[kind], u), [c06.coeff(l, m, kind, u)], None, l <= bound(6, 12))
    # every subset of a set of entries, and every pattern of vanishing columns
    entries = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 2), (3, 1), (4, 0)]
    vals = {k: (complex(1 + k[0], k[1] - .5), complex(k[1], 2), complex(-1.5, k[0] + .25)) for k in entries}
    for bits in range(1, 2 ** len(entries)):
        sub = [e for i, e in enumerate(entries) if bits >> i & 1]
        for pat in itertools.product((0, 1), repeat=3):
            if not bound(len(sub) <= 3 or pat in ((1, 1, 1), (0, 1, 1), (1, 1, 0)), True):
                continue
            cs = [(l, m, *(v * p for v, p in zip(vals[l, m], pat))) for l, m in sub]
            case("entries %s columns %s" % (sub, pat), cs, None, len(sub) <= 2)
    small = [(1, 1), (2, 0), (1, 0), (3, 2)]
    for p in itertools.permutations(small):
        case("order %s" % (p,), [(l, m, complex(l, m), complex(m, -l), complex(1, l)) for l, m in p])
    for n, ex in (("dense 5", c06.example(5, 0)), ("dense 15", c06.example(15, 0)), ("dense 18", c06.example(18, 0))):
        case(n, ex)
        case(n + " shuffled", [ex[i] for i in np.random.default_rng(1).permutation(len(ex))])
        a = [np.array(x) for x in zip(*ex)]
        case(n + " real", [(int(l), int(m), x.real, y.real, z.real) for l, m, x, y, z in ex], Z.ZdiMagnetogram(a[0], a[1], a[2].real, a[3].real, a[4].real))
        case(n + " from coefficients", ex, Z.from_coefficients(C.from_arrays(a[0], a[1], np.stack(a[2:], -1))))
        case(n + " only alpha", [(l, m, x, 0, 0) for l, m, x, y, z in ex], Z.from_coefficients(C.from_arrays(a[0], a[1], a[2])))
        for f in (1e-100, 1e100):
            case(n + " times %g" % f, [(l, m, x * f, y * f, z * f) for l, m, x, y, z in ex])

    # orders of both signs, one of each pair: the column of an order is right or left of the middle
    def signed(cs):
        z = c06.make(cs)
        L = max(c[0] for c in cs)
        got = [np.asarray(m) for m in z.energy_matrix()]
        exp = [np.zeros((L + 1, 2 * L + 1)) for _ in range(3)]
        for c in cs:
            a, b, g = parseval(c)
            for x, v in zip(exp, (a, a + b, g)):
                x[c[0], L + c[1]] = v
        for n, m, e in zip(("radial", "poloidal", "toroidal"), got, exp):
            require(m.shape == e.shape, "the %s energy matrix has shape %s", n, m.shape)
            require(np.all(np.abs(m - e) <= 1e-9 * np.abs(e) + 1e-300), "the %s energy matrix is wrong at %s", n,
                    np.argwhere(np.abs(m - e) > 1e-9 * np.abs(e) + 1e-300)[:3].tolist())
    pairs = [(l, m) for l in range(bound(3, 4)) for m in range(1, l + 1)]
    for signs in itertools.product((1, -1), repeat=len(pairs)):
        for zonal in (0, 1):
            cs = [(l, s * m, complex(l, m), complex(m, -l - .5), complex(1, l)) for (l, m), s in zip(pairs, signs)]
            cs += [(l, 0, complex(l + 1, 2), 1j, 3) for l in range(4)] * zonal
            ck.step()
            ck.state("signs %s %d" % (signs, zonal))
            ck.case("signs %s %d" % (signs, zonal), signed, cs)
    for l in (1, 2, 7, 15, 40):
        for m in range(-l, l + 1):
            ck.case("signed l=%d m=%d" % (l, m), signed, [(l, m, 3 - 4j, 1j, 2)])
    big = c06.example(3, 0)
    big[1] = (1, 0, 1e9, 1e-9j, 1)
    case("mixed magnitudes", big)
    ck.sample(dict(entries=[[1, 1], [3, 1]], columns=[1, 0, 1]))
