"""C12: folding of every pair of partner values, every subset of a set of orders, every basis element."""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06, c11
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import converter as K
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"
TH, PH = c06.THETA[:8], c06.PHI[:8]


def fold(d):
    out = {}
    for (l, m), v in d.items():
        k = (l, abs(m))
        out[k] = out.get(k, 0) + (v if m >= 0 else (-1) ** (-m) * np.conj(v))
    return out


def judge(ck, d, field=True, h=None):
    c = c11.shc(d)
    before = c11.entries(c)
    f = K.map_to_positive_orders(c)
    require(f is not c and c11.entries(c) == before, "folding changed its argument")
    size = {}
    for (l, m), v in d.items():
        size[l, abs(m)] = size.get((l, abs(m)), 0) + abs(v)
    exp = fold(d)
    got = c11.entries(f)
    require(f.default_coefficients.shape == (1,), "rows of shape %s", f.default_coefficients.shape)
    for k, v in got.items():
        require(k[1] >= 0, "entry %s has a negative order", k)
        e = exp.get(k, 0)
        require(abs(v[0] - e) <= 1e-12 * size.get(k, 0), "entry %s is %s, expected %s", k, v[0], e)
    for k in exp:
        require(k in got or abs(exp[k]) == 0, "entry %s is missing", k)
    require(f.order_min >= 0, "lowest order %s", f.order_min)
    twice = c11.entries(K.map_to_positive_orders(f))
    for k in set(twice) | set(got):
        a, b = twice.get(k, (0,))[0], got.get(k, (0,))[0]
        require(abs(a - b) <= 1e-14 * size.get(k, 0), "folding twice changes entry %s from %s to %s", k, b, a)
    if not field:
        return
    ls, ms = [list(x) for x in zip(*d)]
    vals = np.array(list(d.values()))
    L2, M2, V2 = f.as_arrays(include_unset=False)
    zero = np.zeros_like(vals)
    for kind in range(3):
        cols = [zero, zero, zero]
        cols[kind] = vals
        a = Z.ZdiMagnetogram(np.array(ls), np.array(ms), *cols)
        z2 = np.zeros(len(L2), complex)
        cols = [z2, z2, z2]
        cols[kind] = V2[:, 0]
        b = Z.ZdiMagnetogram(L2, M2, *cols)
        e = ref.zdi_field([c06.coeff(l, m, kind, v) for (l, m), v in d.items()], TH, PH)
        s = max(np.max(np.abs(np.stack(e))), sum(size.values()) * 1e-3, 1e-300)
        for n, x in zip(("radial", "polar", "azimuthal"), e):
            va, vb = (getattr(o, "get_%s_field" % n)(TH, PH) for o in (a, b))
            require(np.max(np.abs(va - x)) <= 1e-9 * s, "%s as %s: field before folding", n, c06.KINDS[kind])
            require(np.max(np.abs(vb - x)) <= 1e-9 * s, "%s as %s: the field changes by folding", n, c06.KINDS[kind])


def run(ck):
    ck.rule = "a state is one set of coefficients that was folded and compared before and after"

    def case(name, d, field=True):
        ck.step(2 + 18 * field)
        ck.state(name)
        ck.case(name, judge, ck, d, field)
    L = bound(8, 25)
    for l in range(L + 1):
        for m in range(-l, l + 1):
            case("basis l=%d m=%d" % (l, m), {(l, m): 2 - 1j})
    for l, m in ((40, -7), (60, -60), (60, 31), (120, -3), (200, -200)):
        case("basis l=%d m=%d" % (l, m), {(l, m): -1 - 1j}, l <= 60)
    alphabet = (0, 1, -1, 1j, -1j, 1 + 2j, -3 - 1j, 1e-9, -1e9j)
    for l, m in ((1, 1), (2, 1), (2, 2), (3, 3)):
        for a, b in itertools.product(alphabet, repeat=2):
            case("partners l=%d m=%d %s %s" % (l, m, a, b), {(l, -m): complex(b), (l, m): complex(a)}, l < 3)
        for a in alphabet:
            # exact cancellation
            case("cancelling l=%d m=%d %s" % (l, m, a), {(l, m): complex(a), (l, -m): -(-1) ** m * complex(a).conjugate()}, False)
    # one of the four real numbers of a pair of partners, or two of them, at higher orders
    for l, m in ((6, 5), (7, 6), (9, 9), (12, 7), (13, 12), (17, 1)):
        for bits in range(1, 16):
            v = [x * (bits >> i & 1) for i, x in enumerate((1, -2, .5, 3))]
            case("parts %d of l=%d m=%d" % (bits, l, m), {(l, m): complex(*v[:2]), (l, -m): complex(*v[2:])}, m < 8)
    for a in alphabet:
        case("order 0 %s" % a, {(2, 0): complex(a), (1, 0): 1j})
    keys = [(l, m) for l in range(3) for m in range(-l, l + 1)]
    for bits in range(1, 2 ** len(keys)):
        d = {k: complex(k[0] + 1 - .3 * k[1], k[1] - 2) for i, k in enumerate(keys) if bits >> i & 1}
        case("entries %d" % bits, d, bits % bound(4, 1) == 0)
    for n in (3, 8):
        ex = {(l, m): a for l, m, a, b, g in c06.example(n)}
        case("dense %d" % n, ex)
        case("dense %d reversed" % n, dict(reversed(list(ex.items()))))
        case("dense %d non-negative" % n, {k: v for k, v in ex.items() if k[1] >= 0})
        case("dense %d negative" % n, {k: v for k, v in ex.items() if k[1] < 0})
        for f in (1e-120, 1e120):
            case("dense %d times %g" % (n, f), {k: v * f for k, v in ex.items()}, False)
    ck.sample(dict(entries={"(2,1)": "1j", "(2,-1)": "1+2j"}))
