"""C11: ZDI <-> PFSS conversion of every basis element, every subset of a set of entries and dense sets."""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06, c09
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import converter as K
from starwinds_magnetogram import pfss_magnetogram as P
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"
TH, PH = c09.THETA, c09.PHI


def shc(d):
    c = C.Coefficients()
    for (l, m), v in d.items():
        c.append(l, m, v)
    return c


def entries(c):
    return {k: tuple(map(complex, v)) for k, v in c.contents()}


def same(got, exp, what, tol=1e-12):
    require(set(got) == set(exp), "%s has entries %s, expected %s", what, sorted(got)[:9], sorted(exp)[:9])
    for k in exp:
        for a, b in zip(got[k], exp[k]):
            require(b is None or abs(a - b) <= tol * abs(b), "%s: entry %s is %s, expected %s", what, k, got[k], exp[k])


def judge(ck, d, h=None):
    fields = all(m >= 0 for _, m in d)
    start = shc(d)
    before = entries(start)
    # ZDI -> PFSS
    pf = K.convert_zdi_to_pfss(start)
    require(entries(start) == before, "the conversion to PFSS changed its argument")
    require(pf.default_coefficients.shape == (1,), "PFSS set has rows of shape %s", pf.default_coefficients.shape)
    same(entries(pf), {k: (v * ref.schmidt_factor(*k),) for k, v in d.items()}, "ZDI -> PFSS")
    # PFSS -> ZDI
    z = K.convert_pfss_to_zdi(start)
    require(entries(start) == before, "the conversion to ZDI changed its argument")
    require(z.default_coefficients.shape == (3,), "ZDI set has rows of shape %s", z.default_coefficients.shape)
    q = lambda l: 2.5 ** -(2 * l + 1)
    exp = {}
    for (l, m), v in d.items():
        a = v / ref.schmidt_factor(l, m)
        exp[l, m] = (a, a * (l + 1) * (1 - q(l)) / (l + 1 + l * q(l)) if l else None, 0)
    same(entries(z), exp, "PFSS -> ZDI")
    # there and back
    same(entries(K.convert_pfss_to_zdi(pf).hsplit()[0]), {k: (v,) for k, v in d.items()}, "ZDI -> PFSS -> ZDI")
    same(entries(K.convert_zdi_to_pfss(z.hsplit()[0])), {k: (v,) for k, v in d.items()}, "PFSS -> ZDI -> PFSS")
    if not fields or max(k[0] for k in d) > 40:
        return
    # the fields themselves, evaluated by the package
    zr = Z.from_coefficients(start)
    one = np.ones_like(TH)
    pr = P.evaluate_spherical(pf, one, TH, PH)[0]
    v = zr.get_radial_field(TH, -PH)
    s = max(np.max(np.abs(v)), 1e-300)
    require(np.max(np.abs(pr - v)) <= 1e-9 * s, "the surface field of the PFSS magnetogram is not the ZDI radial field")
    zz = Z.from_coefficients(z)
    pv = P.evaluate_spherical(start, one, TH, PH)
    zv = zz.get_radial_field(TH, -PH), zz.get_polar_field(TH, -PH), -zz.get_azimuthal_field(TH, -PH)
    s = max(np.max(np.abs(np.stack(pv))), 1e-300)
    for n, a, b in zip(("radial", "polar", "azimuthal"), zv, pv):
        require(np.max(np.abs(a - b)) <= 1e-8 * s, "the %s field of the ZDI magnetogram differs from the PFSS surface field", n)
    for f in (zz.get_polar_toroidal_field, zz.get_azimuthal_toroidal_field_new):
        require(not np.any(f(TH, PH)), "the ZDI magnetogram has a toroidal field")


def run(ck):
    ck.rule = "a state is one set of coefficients converted both ways and there and back"

    def case(name, d):
        ck.step(4)
        ck.state(name)
        ck.case(name, judge, ck, d)
    L = bound(10, 30)
    for l in list(range(L + 1)) + [40, 85, 120, 200]:
        for m in (range(-l, l + 1) if l <= L else (0, 1, l // 2, l, -1, -l)):
            for u in (1, 1j, -2 + 1e-3j)[:3 if l < 4 else 1]:
                case("basis l=%d m=%d %s" % (l, m, u), {(l, m): u})
    keys = [(0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (4, 4), (5, 2), (2, -1)]
    for bits in range(1, 2 ** len(keys)):
        case("entries %d" % bits, {k: complex(k[0] - 2.5, k[1] + .5) for i, k in enumerate(keys) if bits >> i & 1})
    some = [(1, 1), (3, 0), (2, 2), (1, 0)]
    for p in itertools.permutations(some):
        case("order %s" % (p,), {k: complex(*k) + 1j for k in p})
    for n in (3, 10, 25):
        ex = c09.example(n)
        case("dense %d" % n, {(l, m): v for l, m, v in ex})
        for f in (1e-120, 1e120):
            case("dense %d times %g" % (n, f), {(l, m): v * f for l, m, v in ex})
    case("zeros", {(1, 0): 0j, (2, 1): 0j, (3, 3): 1})

    def empty():
        e = C.Coefficients()
        require(K.convert_zdi_to_pfss(e).size == 0 and K.convert_pfss_to_zdi(e).size == 0, "entries were added to an empty set")
    ck.case("empty", empty)
    ck.sample(dict(entries=[[1, 0], [2, 1], [4, 4]]))
