"""C01: explicit-state search over operation histories of coefficient sets, in lock step with a map model.

State: two registers A and B (plus every earlier object, kept alive to expose aliasing). Every history up to the
depth bound over the alphabet OPS is executed on real Coefficients and on the model M; after each history every object ever
created is compared with its model through all public observers, then each is overwritten in place and the
others compared again.
"""
import itertools
import numpy as np
from mc.core import Mismatch, require, bfs, bound
from starwinds_magnetogram import coefficients as C


class Refused(Exception):
    pass


class M:
    """Reference: a dict (l, m) -> tuple of numbers."""

    def __init__(self, default, kind=complex, d=()):
        self.kind = kind
        self.default = tuple(kind(x) for x in default)
        self.d = dict(d)

    width = property(lambda s: len(s.default))

    def like(self, d=(), default=None):
        return M(self.default if default is None else default, self.kind, d)

    def set(self, l, m, row):
        row = tuple(self.kind(x) for x in row)
        if abs(m) > l or len(row) != self.width:
            raise Refused
        self.d[l, m] = row

    def append(self, l, m, row):
        if (l, m) in self.d:
            raise Refused
        self.set(l, m, row)

    def get(self, k):
        return self.d.get(k, self.default)

    def map2(self, o, f):
        if self.width != o.width:
            raise Refused
        return self.like({k: tuple(f(a, b) for a, b in zip(self.get(k), o.get(k))) for k in set(self.d) | set(o.d)})

    def map1(self, f):
        return self.like({k: tuple(f(x) for x in v) for k, v in self.d.items()})

    def key(self):
        return (self.kind.__name__, self.default, tuple(sorted(self.d.items(), key=lambda t: t[0])))

    degree_max = property(lambda s: max([0] + [k[0] for k in s.d]))
    order_min = property(lambda s: min([0] + [k[1] for k in s.d]))


def real_from(model, via="set"):
    r = C.Coefficients(np.array(model.default, dtype=model.kind))
    for (l, m), row in model.d.items():
        r.append(l, m, np.array(row))
    return r


GRID = [(l, m) for l in range(5) for m in range(-l, l + 1)]


def eq(a, b):
    """Equal up to rounding (a: array of the package, b: nested sequence of model values)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if (a == b).all():
        return True
    return np.allclose(a, b, rtol=1e-12, atol=1e-300, equal_nan=True)


def eqrow(a, b):
    if not isinstance(a, np.ndarray) or a.shape != (len(b),):
        return eq(a, b)
    return all(x == y or abs(x - y) <= 1e-12 * abs(y) + 1e-300 for x, y in zip(a.tolist(), b)) or eq(a, b)


def as_arrays_model(mo, unset, l0, l1, m0, m1):
    l0 = 0 if l0 is None else l0
    l1 = mo.degree_max if l1 is None else l1
    ks = [(l, m) for l in range(l0, l1 + 1) for m in range(-l, l + 1)
          if (m0 is None or m >= m0) and (m1 is None or m <= m1)]
    full = len(ks)
    if not unset:
        ks = [k for k in ks if k in mo.d]
    return full, ks


def compare_arrays(re, mo, unset, l0, l1, m0, m1):
    full, ks = as_arrays_model(mo, unset, l0, l1, m0, m1)
    if not full:
        return 0
    kw = dict(degree_l_min=l0, degree_l_max=l1, order_m_min=m0, order_m_max=m1)
    L, O, V = re.as_arrays(include_unset=unset, **{k: v for k, v in kw.items() if v is not None})
    require(list(zip(map(int, L), map(int, O))) == ks,
            "as_arrays(%s, %s) lists %s, expected %s", unset, kw, list(zip(L, O))[:9], ks[:9])
    if ks:
        require(eq(V, [mo.get(k) for k in ks]), "as_arrays(%s, %s) has wrong values", unset, kw)
    else:
        require(len(V) == 0, "as_arrays has extra values")
    return 1


def glance(re, mo, what):
    """The cheap part of observe()."""
    require(re.size == len(mo.d) and re.degree_max == mo.degree_max and re.order_min == mo.order_min,
            "%s: size, highest degree, lowest order are %s %s %s", what, re.size, re.degree_max, re.order_min)
    require(eqrow(re.default_coefficients, mo.default), "%s: default %s", what, re.default_coefficients)
    n = 0
    for k, v in re.contents():
        require(k in mo.d and eqrow(v, mo.d[k]), "%s: entry %s is %s, expected %s", what, k, v, mo.d.get(k))
        n += 1
    require(n == len(mo.d), "%s: %d entries listed, expected %d", what, n, len(mo.d))
    require(eqrow(re.get(*UNSET), mo.default), "%s: an unset entry reads %s", what, re.get(*UNSET))


UNSET = (301, 7)


def observe(re, mo, what, full=False):
    """Compare a real object with its model through the public observers."""
    require(type(re) is C.Coefficients, "%s is a %s", what, type(re))
    require(re.size == len(mo.d), "%s: size %s, expected %d", what, re.size, len(mo.d))
    require(re.degree_max == mo.degree_max, "%s: degree_max %s, expected %d", what, re.degree_max, mo.degree_max)
    require(re.order_min == mo.order_min, "%s: order_min %s, expected %d", what, re.order_min, mo.order_min)
    require(eq(re.default_coefficients, mo.default), "%s: default %s, expected %s", what, re.default_coefficients, mo.default)
    keys = [k for k, v in re.contents()]
    require(keys == sorted(mo.d), "%s: contents lists %s, expected %s", what, keys[:9], sorted(mo.d)[:9])
    for k, v in re.contents():
        require(eqrow(v, mo.d[k]), "%s: entry %s is %s, expected %s", what, k, v, mo.d[k])
    for k in (GRID if full else GRID[:10]) + list(mo.d):
        require(bool(re.has(*k)) == (k in mo.d), "%s: has%s is wrong", what, k)
        v = re.get(*k)
        require(eqrow(v, mo.get(k)), "%s: get%s is %s, expected %s", what, k, v, mo.get(k))
        require(np.asarray(v).dtype == np.dtype(mo.kind), "%s: get%s has type %s", what, k, np.asarray(v).dtype)
    n = 0
    for args in (ARRAY_ARGS if full else ARRAY_ARGS_FEW):
        n += compare_arrays(re, mo, *args)
    return n


ARRAY_ARGS_FEW = [(True, None, None, None, None), (False, None, None, None, None), (True, 1, 4, 0, None), (False, None, 2, -1, 1)]
ARRAY_ARGS = list(itertools.product((True, False), (None, 0, 1, 2, 3), (None, 0, 1, 2, 4), (None, -2, -1, 0, 1, 2), (None, -1, 0, 1, 2)))


# ---- operations on the registers -------------------------------------------------------------------

def val(kind, width, x):
    base = [complex(x, -1 - i) if kind is complex else float(x + i) for i in range(width)]
    return base


class Op:
    def __init__(self, name, real, model, derives=False):
        self.name, self.real, self.model, self.derives = name, real, model, derives

    def __str__(self):
        return self.name
    __repr__ = __str__


def setop(l, m, x, kind="set"):
    def model(s):
        v = val(s.A.kind, s.A.width, x)
        getattr(s.A, kind)(l, m, v)

    def real(s, mo):
        v = val(mo.A.kind, mo.A.width, x)
        arr = np.array(v) if x % 2 else (v if len(v) > 1 else v[0])
        getattr(s.A, kind)(l, m, arr)
        if isinstance(arr, np.ndarray):
            arr[...] = 77      # the array given must not be shared
    return Op("%s(%d,%d,%s)" % (kind, l, m, x), real, model)


def badwidth(kind):
    def model(s):
        raise Refused

    def real(s, mo):
        getattr(s.A, kind)(3, 3, np.ones(mo.A.width + 1))
    return Op("%s-wide" % kind, real, model)


def assign(name, real, model):
    def r(s, mo):
        s.A = real(s)

    def m(s):
        s.A = model(s)
    return Op(name, r, m, derives=True)


def f_scale(l, m):
    return 2.0 * l + (1 if m >= 0 else 3) + 1


def _fa(s, unset):
    L, O, V = s.A.as_arrays(include_unset=unset)
    if len(L) == 0:
        return C.empty_like(s.A)
    return C.from_arrays(L, O, V)


def _fam(s, unset):
    if unset:
        ks = [(l, m) for l in range(s.A.degree_max + 1) for m in range(-l, l + 1)]
    else:
        ks = list(s.A.d)
    if not ks:
        return s.A.like()
    return s.A.like({k: s.A.get(k) for k in ks}, default=(0,) * s.A.width)


def _split_r(s, mo):
    parts = s.A.hsplit()
    s.A = parts[0]
    if len(parts) > 1:
        s.B = parts[-1]
        s.objs += parts[1:-1]


def _split_m(s):
    parts = [M(s.A.default[i:i + 1], s.A.kind, {k: v[i:i + 1] for k, v in s.A.d.items()}) for i in range(s.A.width)]
    s.A = parts[0]
    if len(parts) > 1:
        s.B = parts[-1]
        s.objs += parts[1:-1]


def _split2_r(s, mo):
    parts = C.hsplit(s.A, [1])
    s.A, s.B = parts[0], parts[1]


def _split2_m(s):
    if s.A.width < 2:
        raise Skip
    s.A, s.B = [M(s.A.default[i], s.A.kind, {k: v[i] for k, v in s.A.d.items()}) for i in (slice(0, 1), slice(1, None))]


class Skip(Exception):
    """Operation not in the alphabet in this state."""


def _hs_m(s):
    if s.A.width + s.B.width > 3:
        raise Skip
    return M(s.A.default + s.B.default, s.A.kind, {k: s.A.get(k) + s.B.get(k) for k in set(s.A.d) | set(s.B.d)})


def _div_m(s):
    if s.A.width != s.B.width:
        raise Refused
    if not all(x != 0 for v in s.B.d.values() for x in v) or not set(s.A.d) <= set(s.B.d):
        raise Skip
    return s.A.map2(s.B, lambda a, b: a / b)


def _inv_m(s):
    if not all(x != 0 for v in s.A.d.values() for x in v):
        raise Skip
    return s.A.map1(lambda x: 1 / x)


def _swap_r(s, mo):
    s.A, s.B = s.B, s.A


def _swap_m(s):
    s.A, s.B = s.B, s.A


def _copyB_r(s, mo):
    s.B = s.A.copy()


def _copyB_m(s):
    s.B = s.A.like(s.A.d)


def _cplx(mdl):
    def m(s):
        if s.A.kind is not complex:
            raise Skip
        return mdl(s)
    return m


OPS = [
    setop(1, 0, 1), setop(1, 1, 2), setop(2, -2, 3), setop(0, 0, 4), setop(3, 2, 5),
    setop(1, 0, 6, "append"), setop(2, 1, 7, "append"), setop(1, -1, 8, "append"),
    setop(1, 2, 1), setop(2, -3, 1, "append"), badwidth("set"), badwidth("append"),
    Op("swap", _swap_r, _swap_m), Op("B=copy", _copyB_r, _copyB_m),
    assign("A+B", lambda s: s.A + s.B, lambda s: s.A.map2(s.B, lambda a, b: a + b)),
    assign("A-B", lambda s: s.A - s.B, lambda s: s.A.map2(s.B, lambda a, b: a - b)),
    assign("A*B", lambda s: s.A * s.B, lambda s: s.A.map2(s.B, lambda a, b: a * b)),
    assign("A/B", lambda s: s.A / s.B, _div_m),
    assign("A*2", lambda s: s.A * 2, lambda s: s.A.map1(lambda x: x * 2)),
    assign("-3*A", lambda s: -3 * s.A, lambda s: s.A.map1(lambda x: x * -3)),
    assign("A*0", lambda s: s.A * 0, lambda s: s.A.map1(lambda x: x * 0)),
    assign("1j*A", lambda s: 1j * s.A, _cplx(lambda s: s.A.map1(lambda x: x * 1j))),
    assign("A/4", lambda s: s.A / 4, lambda s: s.A.map1(lambda x: x / 4)),
    assign("A**2", lambda s: s.A ** 2, lambda s: s.A.map1(lambda x: x ** 2)),
    assign("A**-1", lambda s: s.A ** -1, _inv_m),
    assign("copy", lambda s: s.A.copy(), lambda s: s.A.like(s.A.d)),
    assign("trunc0", lambda s: s.A.truncated(0), lambda s: s.A.like({k: v for k, v in s.A.d.items() if k[0] <= 0})),
    assign("trunc1", lambda s: s.A.truncated(1), lambda s: s.A.like({k: v for k, v in s.A.d.items() if k[0] <= 1})),
    assign("trunc2", lambda s: C.truncated(s.A, 2), lambda s: s.A.like({k: v for k, v in s.A.d.items() if k[0] <= 2})),
    assign("scale", lambda s: s.A.scale(f_scale), lambda s: s.A.like({k: tuple(x * f_scale(*k) for x in v) for k, v in s.A.d.items()})),
    assign("scale-1", lambda s: C.scale(s.A, f_scale, -1), lambda s: s.A.like({k: tuple(x / f_scale(*k) for x in v) for k, v in s.A.d.items()})),
    assign("zeros", lambda s: C.zeros_like(s.A), lambda s: s.A.map1(lambda x: 0 * x)),
    assign("empty", lambda s: C.empty_like(s.A), lambda s: s.A.like()),
    assign("hstack", lambda s: C.hstack((s.A, s.B)), _hs_m),
    assign("arrays", lambda s: _fa(s, False), lambda s: _fam(s, False)),
    assign("arrays-full", lambda s: _fa(s, True), lambda s: _fam(s, True)),
    Op("split", _split_r, _split_m, True), Op("split@1", _split2_r, _split2_m, True),
    assign("A+A", lambda s: s.A + s.A, lambda s: s.A.map1(lambda x: x + x)),
    assign("A*1", lambda s: s.A * 1, lambda s: s.A.map1(lambda x: x)),
    assign("A**1", lambda s: s.A ** 1, lambda s: s.A.map1(lambda x: x)),
    assign("hstack1", lambda s: C.hstack((s.A,)), lambda s: s.A.like(s.A.d)),
    assign("trunc9", lambda s: s.A.truncated(9), lambda s: s.A.like({k: v for k, v in s.A.d.items() if k[0] <= 9})),
]


# Arithmetic is only defined between sets whose missing entries are zero.
ARITHMETIC = ("A+B", "A-B", "A*B", "A/B", "A+A")


class Regs:
    pass


def initial_states():
    full = {(l, m): None for l in range(3) for m in range(-l, l + 1)}
    yield "empty", M((0,)), M((0,))
    yield "one|other", M((0,), complex, {(1, 0): (2 + 1j,)}), M((0,), complex, {(1, 1): (1j,), (2, 0): (3,)})
    yield "rows of 3", (M((0, 0, 0), complex, {k: (1 + i, 2j * i, -i) for i, k in enumerate(full)})), M((0, 0, 0), complex, {(1, -1): (1, 2, 3)})
    yield "real", M((0.,), float, {(0, 0): (2,), (2, -1): (-3,)}), M((0.,), float, {(2, -1): (5,), (1, 1): (.5,)})
    yield "default 1-2j", M((1 - 2j,), complex, {(1, 0): (3,)}), M((2j,), complex, {(1, 1): (4,)})
    yield "pair|pair", M((0, 0), complex, {(1, 0): (1, 2), (2, 2): (3, 4j)}), M((0, 0), complex, {(2, 2): (1j, 1), (0, 0): (5, 6)})


INIT = {}


def build(hist):
    name = hist[0]
    mA, mB = INIT[name]
    mo = Regs()
    mo.A, mo.B = mA.like(mA.d), mB.like(mB.d)
    re = Regs()
    re.A, re.B = real_from(mo.A), real_from(mo.B)
    re.objs, mo.objs = [], []
    for op in hist[1:]:
        # Look at everything first: what is read now must not be what is read after the operation.
        for r in (re.A, re.B):
            r.as_arrays(include_unset=False), list(r.contents()), r.size, str(r)
            if r.size:
                r.as_arrays(), r.degree_max, r.order_min
        # Keep the operands alive (unless the operation changes A in place).
        refused = skipped = False
        before = (mo.A, mo.B)
        snapA = mo.A.like(mo.A.d)
        rA, rB = re.A, re.B
        try:
            if any(mo.A.default + mo.B.default) and op.name in ARITHMETIC:
                raise Skip
            opm = Regs()
            opm.A, opm.B, opm.objs = mo.A.like(mo.A.d), mo.B, mo.objs
            args = Regs()
            args.A, args.B = snapA, mo.B
            op.model(opm)
        except Refused:
            refused = True
        except Skip:
            continue
        if refused:
            try:
                op.real(re, args)
            except Exception:
                pass
            else:
                raise Mismatch("%s was accepted" % op)
            require(re.A is rA and re.B is rB, "refused %s replaced an operand", op)
        else:
            op.real(re, args)
            mo.A, mo.B = opm.A, opm.B
            # A derived set is another object than its operand; if it is the same one after all, the
            # operand below will be seen to change with it.
            if op.derives or re.A is not rA and rA is not re.B:
                re.objs.append(rA)
                mo.objs.append(snapA)
            if re.B is not rB and rB is not re.A:
                re.objs.append(rB)
                mo.objs.append(before[1])
    return re, mo


def canon(mo):
    return (mo.A.key(), mo.B.key())


OBSERVED = [0]


def judge(hist, re, mo):
    reals = [re.A, re.B] + re.objs
    models = [mo.A, mo.B] + mo.objs
    for i, (r, m) in enumerate(zip(reals, models)):
        if i == 0:
            OBSERVED[0] += observe(r, m, "register A")
        else:
            glance(r, m, "register B" if i == 1 else "earlier object %d" % (i - 2))
    same = mo.A.width == mo.B.width
    exp = same and all(abs(a - b) <= 1e-8 + 1e-5 * abs(b) for k in set(mo.A.d) | set(mo.B.d)
                       for a, b in zip(mo.A.get(k), mo.B.get(k)))
    require(bool(C.allclose(re.A, re.B)) == exp, "allclose(A, B) is not %s", exp)
    if same:
        ic = C.isclose(re.A, re.B)
        require(sorted(k for k, _ in ic.contents()) == sorted(set(mo.A.d) | set(mo.B.d)), "isclose has wrong entries")
        for k, v in ic.contents():
            e = [abs(a - b) <= 1e-8 + 1e-5 * abs(b) for a, b in zip(mo.A.get(k), mo.B.get(k))]
            require(list(map(bool, v)) == e, "isclose%s is %s, expected %s", k, v, e)
    # aliasing: overwrite everything reachable from one object, the others must not change
    if re.A is re.B:
        raise Mismatch("registers A and B are the same object")
    for i in range(2):
        for k, v in list(reals[i].contents()):
            v[...] = 55
        reals[i].get(*UNSET)[...] = 66
        reals[i].default_coefficients[...] = 88
        reals[i].set(300, -4, np.full(models[i].width, 44))
        require(eqrow(reals[i].get(*UNSET), models[i].default), "a value handed out for an unset entry is shared with the set")
        for j, (r, m) in enumerate(zip(reals, models)):
            if j > i:
                glance(r, m, "object %d after changing object %d" % (j, i))


def run(ck):
    ck.rule = ("state = canonical contents of both registers; transition = one operation of the alphabet applied on "
               "the real object and the model; distinct by contents")
    for name, a, b in initial_states():
        INIT[name] = (a, b)
    depth = bound(2, 3)
    # depth first few: full alphabet; deeper: histories extended only from new states
    deep = bound(["one|other"], ["one|other", "pair|pair"])
    bfs(ck, [(n,) for n in INIT if n not in deep], OPS, build, canon, depth, judge)
    bfs(ck, [(n,) for n in deep], OPS, build, canon, depth + 1, judge)
    ck.extra["max_depth"] = {n: depth + (n in deep) for n in INIT}
    ck.extra["alphabet"] = [o.name for o in OPS]
    ck.extra["array_views_compared"] = OBSERVED[0]
    ck.sample(dict(history=["one|other", "A+B", "scale", "trunc1"], note="one of the histories executed"))
    big(ck)
    constructors(ck)


def dense(lmax, width, kind=complex, mmin=None, scale=1.0):
    d = {}
    for l in range(lmax + 1):
        for m in range(-l if mmin is None else max(-l, mmin), l + 1):
            d[l, m] = tuple(scale * (complex(l + 1, m - i) if kind is complex else float(l - m + i)) for i in range(width))
    return M((0,) * width, kind, d)


def big(ck):
    """Every operation once on large, wide, extreme or far-out sets, all array views."""
    bases = []
    for width in (1, 2, 3, 5):
        for kind in (complex, float):
            bases.append(("dense%d-%s" % (width, kind.__name__), dense(4, width, kind)))
    bases.append(("deg30", dense(30, 1, mmin=0)))
    bases.append(("huge", dense(3, 1, scale=1e150)))
    bases.append(("tiny", dense(3, 1, scale=1e-150)))
    bases.append(("far", M((0,), complex, {(100, -100): (1,), (100, 99): (2,), (7, 0): (3j,)})))
    bases.append(("only negative", M((0,), complex, {(3, -3): (1,), (2, -1): (2,)})))
    for name, b in bases:
        other = b.map1(lambda x: 3 * x + 1)
        other.d.pop(sorted(other.d)[0])
        INIT[name] = (b, other)
        for op in [None] + OPS:
            if name == "huge" and op is not None and op.name in ("A*B", "A**2"):
                continue
            h = (name,) + ((op,) if op else ())

            def one():
                re, mo = build(h)
                ck.state("big", canon(mo))
                judge(h, *build(h))
                if op is None and b.degree_max <= 4:
                    observe(re.A, mo.A, "A", full=True)
            ck.step()
            ck.case("/".join(map(str, h)), one)


def constructors(ck):
    """from_arrays over all small shapes of its arguments; set/append with every way to give indices and values."""
    rows = {1: [1 + 2j, 3, -1j], 2: [[1, 2j], [3, 4], [5j, 6]], 3: [[1, 2, 3], [4, 5, 6], [7j, 8, 9]]}
    ls, ms = [2, 1, 3], [1, -1, 0]
    for n in (1, 2, 3):
        for w in (1, 2, 3):
            for as_list in (0, 1):
                for dl in (-1, 0, 1):
                    for dm in (-1, 0, 1):
                        def one():
                            L, O, V = ls[:max(n + dl, 0)], ms[:max(n + dm, 0)], rows[w][:n]
                            if n + dl > 3:
                                L = L + [4]
                            if n + dm > 3:
                                O = O + [2]
                            good = len(L) == n and len(O) == n
                            args = (L, O, V) if as_list else (np.array(L, int), np.array(O, int), np.array(V))
                            try:
                                c = C.from_arrays(*args)
                            except Exception:
                                require(not good, "from_arrays refused matching arrays")
                                return
                            require(good, "from_arrays accepted %d degrees, %d orders, %d rows", len(L), len(O), n)
                            mo = M((0,) * w, complex, {(l, m): tuple(np.atleast_1d(v)) for l, m, v in zip(L, O, V)})
                            if np.array(V).dtype.kind != "c":
                                mo = M((0,) * w, np.array(V).dtype.type, mo.d)
                            observe(c, mo, "from_arrays")
                            if not as_list:
                                args[2][...] = 9
                                args[0][...] = 0
                                observe(c, mo, "from_arrays after changing its arguments")
                        ck.step()
                        ck.state("from_arrays", n, w, as_list, dl, dm)
                        ck.case("from_arrays n=%d w=%d list=%d dl=%d dm=%d" % (n, w, as_list, dl, dm), one)

    def scalar():
        observe(C.from_arrays(3, -2, 4j), M((0,), complex, {(3, -2): (4j,)}), "from scalars")
    ck.case("from_arrays scalar", scalar)

    def dup():
        try:
            C.from_arrays([1, 1], [0, 0], [1j, 2j])
        except Exception:
            return
        raise Mismatch("from_arrays accepted a duplicate entry")
    ck.case("from_arrays duplicate", dup)

    def nonfinite():
        for bad in (np.inf, np.nan):
            c = C.from_arrays([1, 2], [0, 0], np.array([bad + 0j, 1]))
            require(eq(c.get(5, 0), [0]), "an unset entry reads %s when the first entry is %s", c.get(5, 0), bad)
    ck.case("from_arrays non-finite first", nonfinite)

    for it, idx in enumerate((int, np.int64, np.int32, float)):
        for iv, v in enumerate((3, 3.0, 3 + 0j, np.complex128(3), [3], (3,), np.array(3), np.array([3]), np.float32(3))):
            for meth in ("set", "append"):
                def one():
                    c = C.Coefficients()
                    getattr(c, meth)(idx(2), idx(-1), v)
                    observe(c, M((0,), complex, {(2, -1): (3,)}), "%s with %s, %r" % (meth, idx.__name__, v))
                    try:
                        c.append(idx(2), idx(-1), v)
                    except Exception:
                        return
                    raise Mismatch("duplicate append accepted")
                ck.step()
                ck.state("index", it, iv, meth)
                ck.case("%s index %s value %d" % (meth, idx.__name__, iv), one)

    def given_arrays():
        """Arrays given as default or value, of any number type, are not shared with the set."""
        for w in (1, 2, 3):
            for kind in (complex, float):
                d = np.zeros(w, kind)
                a = C.Coefficients(d)
                mo = M((0,) * w, kind)
                v = np.arange(1, w + 1).astype(kind)
                row = tuple(v.tolist())
                for i, meth in enumerate((a.set, a.append, a.set)):
                    meth(2 + min(i, 1), 1, v)
                    mo.d[2 + min(i, 1), 1] = row
                b, e, z = a.copy(), C.empty_like(a), C.zeros_like(a)
                d[...] = 7
                v[...] = 9
                observe(a, mo, "set after its arrays were changed")
                observe(b, mo, "copy after the arrays of the original were changed")
                observe(e, M((0,) * w, kind), "empty set of the same kind")
                glance(z, M((0,) * w, kind, {k: (0,) * w for k in mo.d}), "zeros of the same kind")
                c = C.Coefficients(np.full((), 0, kind))
                c.set(1, 0, 4)
                observe(c, M((0,), kind, {(1, 0): (4,)}), "set with a 0-d default")
    ck.case("arrays given to a set", given_arrays)

    def scalars():
        """Multiplying and dividing by every kind of number."""
        for w in (1, 3):
            for v in (2, -4, 0.5, 2j, np.int64(2), np.int32(-4), np.uint8(2), np.float64(.5), np.float32(4), np.complex128(2j), np.complex64(-2), np.array(2),
                      np.array(.5), True, np.int8(-8)):
                mo = M((0,) * w, complex, {(l, m): tuple((l + i + 1j * m) for i in range(w)) for l, m in ((1, 0), (2, -1), (3, 3))})
                r, x = real_from(mo), complex(v)
                for name, f, e in (("*", lambda: r * v, lambda y: y * x), ("/", lambda: r / v, lambda y: y / x), ("reversed *", lambda: v * r, lambda y: x * y)):
                    if name == "reversed *" and isinstance(v, np.ndarray):
                        continue
                    observe(f(), mo.map1(e), "%s %r" % (name, v))
                    ck.step()
                observe(r, mo, "the operand of %r" % (v,))
    ck.case("kinds of numbers", scalars)

    def described():
        """The description names every entry in order, and can be had of any set."""
        for mo in [M((0,) * w, complex, d) for w in (1, 2) for d in ({}, {(1, 0): (1j,) * w}, {(3, -2): (2,) * w, (1, 1): (5e-9,) * w, (12, 3): (7,) * w})]:
            r = real_from(mo)
            s = str(r)
            require(repr(r) is not None and s, "no description")
            at = [s.find("%d, %d" % k) for k in sorted(mo.d)]
            require(all(a >= 0 for a in at) and at == sorted(at), "description %r of the entries %s", s, sorted(mo.d))
            if not mo.d:
                require("\n" not in s.strip(), "description %r of an empty set", s)
    ck.case("described", described)

    def stack3():
        a, b, c = (M((0,) * w, complex, {(l, 0): tuple(range(1, w + 1)), (w, w): (1j,) * w}) for l, w in ((1, 1), (2, 2), (1, 3)))
        for perm in itertools.permutations((a, b, c)):
            r = C.hstack([real_from(x) for x in perm])
            ks = set().union(*[x.d for x in perm])
            mo = M((0,) * 6, complex, {k: sum((x.get(k) for x in perm), ()) for k in ks})
            observe(r, mo, "hstack of three", full=True)
            for cuts in ([2], [1, 3], [1, 2, 5], 2, 3, 6, None):
                parts = r.hsplit(cuts)
                if cuts is None:
                    cuts = 6
                edges = [0] + cuts + [6] if isinstance(cuts, list) else list(range(0, 7, 6 // cuts))
                require(len(parts) == len(edges) - 1, "hsplit gives %d parts", len(parts))
                for p, i, j in zip(parts, edges, edges[1:]):
                    observe(p, M((0,) * (j - i), complex, {k: v[i:j] for k, v in mo.d.items()}), "hsplit part")
    ck.case("hstack and hsplit", stack3)


    def many_columns():
        """Rows of many numbers, taken apart and put together."""
        for w in (5, 10, 12, 33):
            mo = M((0,) * w, complex, {(l, m): tuple(l + 1j * (i - m) for i in range(w)) for l, m in ((1, 0), (3, -3), (2, 1))})
            r = real_from(mo)
            for cuts in (None, [1, 4], w):
                parts = r.hsplit(cuts)
                edges = [0, 1, 4, w] if isinstance(cuts, list) else list(range(w + 1))
                require(len(parts) == len(edges) - 1, "%d columns are split into %d parts", w, len(parts))
                for p, i, j in zip(parts, edges, edges[1:]):
                    observe(p, M((0,) * (j - i), complex, {k: v[i:j] for k, v in mo.d.items()}), "part of %d columns" % w)
                observe(C.hstack(parts), mo, "%d columns together again" % w)
                ck.step()
    ck.case("many columns", many_columns)

    def mixed_types():
        """Sets of different number types side by side keep every value."""
        f = M((0.,), float, {(1, 0): (1.5,), (2, 1): (-2,)})
        c = M((0,), complex, {(1, 0): (2 - 1j,), (2, -2): (1j,)})
        for perm in itertools.product((f, c), repeat=3):
            if c not in perm:
                continue
            ks = set().union(*[x.d for x in perm])
            observe(C.hstack([real_from(x) for x in perm]), M((0,) * 3, complex, {k: sum((x.get(k) for x in perm), ()) for k in ks}), "real and complex sets side by side")
            ck.step()
    ck.case("mixed types", mixed_types)

    def scalings():
        """Scaling by real, complex and integer functions, with powers."""
        for w in (1, 3):
            mo = M((0,) * w, complex, {(l, m): tuple((l + i + 1j * m) for i in range(w)) for l, m in ((1, 0), (2, -1), (3, 3), (0, 0))})
            for f in (lambda l, m: 1j ** m, lambda l, m: 2 + m - 1j * l, lambda l, m: l + 4, lambda l, m: np.float64(l + .5), lambda l, m: np.exp(.3j * m)):
                for power in (1, 2, -1, 3, 0, .5):
                    r = real_from(mo)
                    e = mo.like({k: tuple(x * complex(f(*k)) ** power for x in v) for k, v in mo.d.items()})
                    for how, s in (("method", lambda: r.scale((lambda l, m: complex(f(l, m))) if power < 0 else f, power)), ("function", lambda: C.scale(r, lambda l, m: complex(f(l, m)), power))):
                        observe(s(), e, "scale by %s, power %s" % (how, power))
                    observe(r, mo, "what was scaled")
                    ck.step()
            for power in (2, 3, 4, 5, 7, -2):
                for kind, d in ((complex, {(1, 0): (-2,) * w, (2, 1): (1j - 1,) * w, (3, 3): (.5,) * w}), (float, {(1, 0): (-2,) * w, (2, 1): (-.25,) * w})):
                    q = M((0,) * w, kind, d)
                    observe(real_from(q) ** power, q.map1(lambda x: x ** power), "power %d" % power)
    ck.case("scalings and powers", scalings)

    def closeness():
        """allclose/isclose with explicit tolerances, for present, missing and differing entries."""
        for x in (0, 1e-9, 1e-6, 1e-3, 1j, 1e3):
            for dx in (0, 1e-12, 1e-7, 1e-4, 1e-1, -1e-4j):
                for rtol in (0, 1e-5, 1e-2):
                    for atol in (0, 1e-8, 1e-3):
                        for shape in range(3):
                            a, b = M((0, 0)), M((0, 0))
                            if shape != 1:
                                a.d[2, -1] = (1j, x)
                            if shape != 2:
                                b.d[2, -1] = (1j, x + dx)
                            a.d[1, 0] = b.d[1, 0] = (1, 2)
                            ra, rb = real_from(a), real_from(b)
                            e = {k: [bool(np.isclose(p, q, rtol=rtol, atol=atol)) for p, q in zip(a.get(k), b.get(k))]
                                 for k in set(a.d) | set(b.d)}
                            exp = all(all(v) for v in e.values())
                            require(bool(C.allclose(ra, rb, rtol=rtol, atol=atol)) == exp,
                                    "allclose(%s, %s, rtol=%s, atol=%s) is not %s", x, x + dx, rtol, atol, exp)
                            got = {k: list(map(bool, v)) for k, v in C.isclose(ra, rb, rtol=rtol, atol=atol).contents()}
                            require(got == e, "isclose is %s, expected %s", got, e)
                            ck.step()
    ck.case("allclose tolerances", closeness)
