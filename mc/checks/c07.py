"""C07: search over chains of derivations (restrict, dipole, poloidal, toroidal, copy) from several magnetograms.

State: the list of (l, m, alpha, beta, gamma) a derived magnetogram stands for. Every chain up to the depth bound is
executed on the real object in lock step with that list; in every state all getters, the field strength and the three
cartesian fields are compared with the reference, every ancestor is compared with its own list, and then each object of
the chain is overwritten in place and the others are compared again.
"""
import itertools
import numpy as np
from mc.core import Mismatch, require, bound, bfs
from mc import ref
from mc.checks import c06
from starwinds_magnetogram import zdi_magnetogram as Z

LEVEL = "model_checking"

TH = np.array([[0.2, 1.1, 2.0], [2.9, 0.7, 1.6]])
PH = np.array([[0.5, 3.9, -1.0], [2 * np.pi - 3e-7, 2.5, 1.2]])


def restrict(deg=None, order=None):
    def rng(r, default):
        if r is None:
            return default
        r = tuple(np.atleast_1d(r))
        return (r[0], r[-1])
    dr, mr = rng(deg, (0, 1000)), rng(order, (0, 1000))

    def model(cs):
        return [c for c in cs if dr[0] <= c[0] <= dr[1] and mr[0] <= c[1] <= mr[1]]
    kw = {}
    if deg is not None:
        kw["degree_l_range"] = deg
    if order is not None:
        kw["order_m_range"] = order
    return (lambda z: z.as_restricted(**kw)), model


class Op:
    def __init__(self, name, pair, needs_nonneg=False):
        self.name, (self.real, self.model), self.nonneg = name, pair, needs_nonneg

    def __str__(self):
        return self.name


ALL = (-1000, 1000)
OPS = [
    Op("dipole", ((lambda z: z.as_dipole()), lambda cs: [c for c in cs if c[0] == 1]), True),
    Op("poloidal", ((lambda z: z.as_poloidal()), lambda cs: [c[:4] + (0j,) for c in cs])),
    Op("toroidal", ((lambda z: z.as_toroidal()), lambda cs: [c[:2] + (0j, 0j) + c[4:] for c in cs])),
    Op("copy", ((lambda z: z.copy()), lambda cs: list(cs))),
    Op("degree<=2", restrict((0, 2), ALL)),
    Op("degree>=2", restrict((2, 1000), ALL)),
    Op("degree=2", restrict(2, ALL)),
    Op("degree=(3,)", restrict((3,), ALL)),
    Op("order=0", restrict(order=0)),
    Op("order>=1", restrict(order=(1, 1000))),
    Op("orders 0..1", restrict(order=(0, 1))),
    Op("orders<0", restrict(order=(-1000, -1))),
    Op("degree 1..3, order=1", restrict((1, 3), 1)),
    Op("degree list [1,2]", restrict([1, 2], [-1, 2])),
    Op("degree 1..2, default orders", restrict((1, 2)), True),
    Op("no restriction", restrict(), True),
    Op("empty", restrict((7, 9), ALL)),
]

INIT = {}


def initial():
    INIT["all orders to 3"] = c06.example(3, seed=1)
    INIT["dense to 4"] = c06.example(4, 0, seed=2)
    r = c06.example(3, 0, seed=4)
    INIT["unsorted"] = [r[i] for i in (7, 2, 5, 0, 9, 3)]
    INIT["poloidal only"] = [c[:4] + (0j,) for c in c06.example(2, 0)]
    INIT["one"] = [(1, 1, 1j, 2 + 0j, -1j)]
    INIT["sparse high"] = [(25, 3, 1j, 2 + 0j, -1j), (1, 0, 3, 4, 5), (2, 2, 0j, 1j, 0j)]


def fields(z, cs, what):
    e = c06.expected(cs, TH, PH)
    s = c06.scale_of(e)
    c06.compare(z, e, TH, PH, s, 1e-9, what)
    sph = lambda part: [e["%s-%s" % (c, part)] for c in ("radial", "polar", "azimuthal")]
    pol, tor = sph("poloidal"), sph("toroidal")
    tot = [a + b for a, b in zip(pol, tor)]
    for name, f, comps in (("cartesian", z.get_cartesian_field, tot), ("cartesian poloidal", z.get_cartesian_poloidal_field, pol),
                           ("cartesian toroidal", z.get_cartesian_toroidal_field, tor)):
        v = f(TH, PH)
        x = ref.cartesian(*comps, TH, PH)
        require(v.shape == x.shape, "%s%s field has shape %s", what, name, v.shape)
        require(np.all(np.isfinite(v)) and np.max(np.abs(v - x)) <= 1e-9 * s, "%s%s field differs", what, name)
    st = z.get_field_strength(TH, PH)
    require(st.shape == TH.shape and np.max(np.abs(st - np.sqrt(sum(x ** 2 for x in tot)))) <= 1e-9 * s, "%sfield strength differs", what)


def quick_fields(z, cs, what):
    e = c06.expected(cs, TH, PH)
    c06.compare(z, e, TH, PH, c06.scale_of(e), 1e-9, what, ("radial", "polar-poloidal", "polar-toroidal", "azimuthal"))


def build(hist):
    cs = INIT[hist[0]]
    z = c06.make(cs)
    chain_r, chain_m = [z], [cs]
    for op in hist[1:]:
        if op.nonneg and any(c[1] < 0 for c in chain_m[-1]):
            continue
        z = op.real(chain_r[-1])
        require(z is not chain_r[-1], "%s returns the same object", op)
        chain_r.append(z)
        chain_m.append(op.model(chain_m[-1]))
    return chain_r, chain_m


def key(cs):
    return tuple(cs)


NAMES = ("degrees_l", "orders_m", "alpha", "beta", "gamma")


def judge(hist, rs, ms):
    for i in range(len(rs) - 1):
        quick_fields(rs[i], ms[i], "ancestor %d: " % i)
    fields(rs[-1], ms[-1], "result: ")
    # change the objects one after the other (newest first), the others must not notice
    for i in range(len(rs) - 1, 0, -1):
        for n in NAMES[2:]:
            getattr(rs[i], n)[...] = 77
        getattr(rs[i], "orders_m")[...] = 0
        for j in range(i):
            quick_fields(rs[j], ms[j], "object %d after changing the derived object %d: " % (j, i))
    if len(rs) > 1:
        rs, ms = build(hist)
        for i in range(len(rs) - 1):
            for n in NAMES[2:]:
                getattr(rs[i], n)[...] = 77
            getattr(rs[i], "degrees_l")[...] = getattr(rs[i], "orders_m")[...] = 0
        quick_fields(rs[-1], ms[-1], "result after changing its ancestors: ")


def run(ck):
    ck.rule = "state = the coefficients a derived magnetogram stands for; transition = one derivation applied to the real object and the model"
    initial()
    depth = bound(2, 4)
    bfs(ck, [(n,) for n in INIT], OPS, build, lambda ms: key(ms[-1]), depth, judge)
    ck.extra["alphabet"] = [o.name for o in OPS]
    ck.extra["max_depth"] = depth
    ck.sample(dict(history=["all orders to 3", "orders<0", "toroidal"]))

    # partitions of the whole into parts, by every cut
    base = c06.example(5, seed=9)
    z = c06.make(base)
    whole = [f(TH, PH) for f in (z.get_radial_field, z.get_polar_field, z.get_azimuthal_field)]

    def total(parts):
        return [sum(getattr(p, n)(TH, PH) for p in parts) for n in ("get_radial_field", "get_polar_field", "get_azimuthal_field")]

    def part(name, mk):
        def one():
            for a, b in zip(total(mk()), whole):
                require(ref.err(a, b) < 1e-9, "the parts do not add up to the whole (%g)", ref.err(a, b))
        ck.step()
        ck.state("partition", name)
        ck.case("partition " + name, one)
    for k in range(-1, 7):
        part("degree cut %d" % k, lambda: [z.as_restricted((0, k), ALL), z.as_restricted((k + 1, 99), ALL)])
        part("order cut %d" % k, lambda: [z.as_restricted((0, 99), (-99, k)), z.as_restricted((0, 99), (k + 1, 99))])
    part("single degrees", lambda: [z.as_restricted(l, ALL) for l in range(6)])
    part("single orders", lambda: [z.as_restricted((0, 9), m) for m in range(-5, 6)])
    part("single entries", lambda: [z.as_restricted(l, m) for l in range(6) for m in range(-l, l + 1)])
    part("poloidal+toroidal", lambda: [z.as_poloidal(), z.as_toroidal()])
    # points of other shapes and memory layouts
    views = {"C": lambda a: a, "F": np.asfortranarray, "transposed": lambda a: np.ascontiguousarray(a.T).T, "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2],
             "reversed": lambda a: np.ascontiguousarray(a[::-1])[::-1]}
    for shape, (vn, vt), (wn, vp) in itertools.product(((6,), (6, 1), (1, 6), (3, 2), (2, 3), (1, 2, 3), (3, 1, 2)), views.items(), views.items()):
        if len(shape) == 1 and "F" in (vn, wn):
            continue

        def one():
            t, p = vt(TH.reshape(shape)), vp(PH.reshape(shape))
            e = ref.zdi_field(base, t, p)
            x = ref.cartesian(*e, t, p)
            v = z.get_cartesian_field(t, p)
            require(v.shape == shape + (3,) and ref.err(v, x) < 1e-9, "cartesian field for points of shape %s", shape)
            for tor, f in ((0, z.get_cartesian_poloidal_field), (1, z.get_cartesian_toroidal_field)):
                part = [c[:2] + ((0, 0, c[4]) if tor else c[2:4] + (0,)) for c in base]
                v, x = f(t, p), ref.cartesian(*ref.zdi_field(part, t, p), t, p)
                require(v.shape == shape + (3,) and ref.err(v, x) < 1e-9, "cartesian part %d for points of shape %s", tor, shape)
            require(ref.err(z.get_field_strength(t, p), np.sqrt(sum(c ** 2 for c in e))) < 1e-9, "strength for points of shape %s", shape)
        ck.step()
        ck.state("shape", shape, vn, wn)
        ck.case("cartesian field, points of shape %s, layout %s %s" % (shape, vn, wn), one)
