"""C27: breadth-first search over pipelines of whole-package operations, in lock step with a map of coefficients.

State: the form of the magnetogram (three ZDI columns, one ZDI column, PFSS) and its non-zero coefficients. Every operation of the model is
executed by the package; in every state the package's own evaluation of the field, its energy and its longitudinal field are compared with
the reference field of the model, and every object made on the way is compared with what it was.
"""
import math, os
import numpy as np
from mc.core import Mismatch, require, bound, scratch
from mc import cli, files, ref
from mc.checks import c11, c13
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import converter as K
from starwinds_magnetogram import geometry as G
from starwinds_magnetogram import image_converter as I
from starwinds_magnetogram import longitudinal_field as F
from starwinds_magnetogram import pfss_magnetogram as P
from starwinds_magnetogram import reader_writer as RW
from starwinds_magnetogram import rotate as R
from starwinds_magnetogram import zdi_magnetogram as Z
from starwinds_magnetogram.bin import convert_magnetogram as CM

LEVEL = "model_checking"
SHARDS = 8
LMAX = 3
KEYS = [(l, m) for l in range(LMAX + 1) for m in range(-l, l + 1)]
TH = np.array([0.0, 0.3, 1.1, math.pi / 2, 2.0, 2.9, math.pi, 0.7])
PH = np.array([0.4, -1.0, 2.5, 0.0, 4.0, -3.0, 1.0, 6.0])
H = ref.Harmonics(LMAX, TH, PH)
RR = np.array([1.0, 1.2, 2.5, 1.7, 4.0, 1.0, 2.0, 1.01])
QT, QP, QW = ref.gauss_sphere(LMAX + 2)
QH = ref.Harmonics(LMAX, QT, QP)


def rotation_matrix(M):
    """D with c' = D c for f'(x) = f(M x), coefficients in the order of KEYS, by exact quadrature."""
    x = ref.unit_vectors(QT, QP)[0] @ M.T
    h = ref.Harmonics(LMAX, np.arccos(np.clip(x[..., 2], -1, 1)), np.arctan2(x[..., 1], x[..., 0]))
    Y = np.stack([QH.Y(*k).ravel() for k in KEYS])
    Yr = np.stack([h.Y(*k).ravel() for k in KEYS])
    return (np.conj(Y) * QW.ravel()) @ Yr.T


ROT = {n: (c13.GEN[n], rotation_matrix(c13.matrix(c13.GEN[n]))) for n in ("generic", "x90")}

# -- the model: (form, {(l, m): row}) ---------------------------------------------------------------------


def width(form):
    return 3 if form == "zdi3" else 1


def clean(d):
    return {k: v for k, v in d.items() if any(abs(x) > 1e-9 for x in v)}


def fold_row(d, width):
    out = {}
    for (l, m), v in d.items():
        o = out.setdefault((l, abs(m)), [0j] * width)
        for i in range(width):
            o[i] += v[i] if m >= 0 else (-1) ** m * np.conj(v[i])
    return {k: tuple(v) for k, v in out.items()}


def rounded(d):
    return {k: tuple(files.rounded(x) for x in v) for k, v in d.items()}


def to_zdi(d):
    out = {}
    for (l, m), v in d.items():
        a = v[0] / ref.schmidt_factor(l, m)
        q = 2.5 ** -(2 * l + 1)
        out[l, m] = (a, a * (l + 1) * (1 - q) / (l + 1 + l * q), 0j)
    return out


def negative(d):
    return any(m < 0 for _, m in d)


def model(state, op):
    """The state after op, or None when op does not apply."""
    form, d = state
    n = width(form)
    if op == "radial":
        return ("zdi1", {k: v[:1] for k, v in d.items()}) if form == "zdi3" else None
    if op == "to pfss":
        return None if form != "zdi1" or negative(d) else ("pfss", {k: (v[0] * ref.schmidt_factor(*k),) for k, v in d.items()})
    if op == "to zdi":
        return None if form != "pfss" else ("zdi3", to_zdi(d))
    if op.startswith("rotate"):
        if form == "pfss" or not d:
            return None
        D = ROT[op[7:]][1]
        v = np.array([d.get(k, (0j,) * n) for k in KEYS])
        return form, {k: tuple(r) for k, r in zip(KEYS, D @ v)}
    if op == "fold":
        return None if form == "pfss" or not d else (form, fold_row(d, n))
    if op == "file":
        return None if negative(d) else (form, rounded(d))
    if op == "command":
        if negative(d):
            return None
        r = rounded(d)
        if form == "pfss":
            return "zdi3", rounded(to_zdi(r))
        return "pfss", rounded({k: (v[0] * ref.schmidt_factor(*k),) for k, v in r.items()})
    if op == "plain command":
        return None if form == "zdi3" or negative(d) else (form, rounded(rounded(d)))
    if op == "scale":
        return form, {k: tuple(-0.5 * x for x in v) for k, v in d.items()}
    if op == "truncate":
        return form, {k: v for k, v in d.items() if k[0] <= 2}
    if op == "plus dipole":
        out = dict(d)
        out[1, 0] = tuple(a + b for a, b in zip(out.get((1, 0), (0j,) * n), (1.5, .5, -1)))
        out[1, 1] = tuple(a + b for a, b in zip(out.get((1, 1), (0j,) * n), (1j, 2, .25)))
        return form, out
    if op == "plus octupole":
        out = dict(d)
        out[3, 0] = tuple(a + b for a, b in zip(out.get((3, 0), (0j,) * n), (-.5, 1, 2)))
        if form != "pfss":
            out[3, -2] = tuple(a + b for a, b in zip(out.get((3, -2), (0j,) * n), (2j, .25, 1)))
        return form, out
    if form != "zdi3":
        return None
    if op == "restrict":
        return form, {k: v for k, v in d.items() if 1 <= k[0] <= 2 and 0 <= k[1]}
    if op == "poloidal":
        return form, {k: (v[0], v[1], 0j) for k, v in d.items()}
    if op == "toroidal":
        return form, {k: (0j, 0j, v[2]) for k, v in d.items()}
    raise KeyError(op)


OPS = ["radial", "to pfss", "to zdi", "rotate generic", "rotate x90", "fold", "file", "command", "plain command", "scale", "truncate",
       "plus dipole", "plus octupole", "restrict", "poloidal", "toroidal"]

# -- the package -------------------------------------------------------------------------------------------


def make(form, d):
    n = width(form)
    c = C.Coefficients(np.zeros(n, complex))
    for (l, m), v in d.items():
        c.append(l, m, np.array(v) if n > 1 else v[0])
    return c


def from_zdi(z):
    return C.from_arrays(z.degrees_l, z.orders_m, np.stack([z.alpha, z.beta, z.gamma], axis=-1))


def real(c, form, op):
    if op == "radial":
        return C.hsplit(c)[0]
    if op == "to pfss":
        return K.convert_zdi_to_pfss(c)
    if op == "to zdi":
        return K.convert_pfss_to_zdi(c)
    if op.startswith("rotate"):
        return R.rotate_magnetogram(c, ROT[op[7:]][0])
    if op == "fold":
        return K.map_to_positive_orders(c) if form == "zdi1" else C.hstack([K.map_to_positive_orders(x) for x in C.hsplit(c)])
    if op == "file":
        RW.write_magnetogram_file(c, file_name="m.dat", degree_max=max(c.degree_max, 0))
        return RW.read_magnetogram_file("m.dat")
    if op in ("command", "plain command"):
        RW.write_magnetogram_file(c, file_name="in.dat", degree_max=max(c.degree_max, 0))
        arg = ["--no-conversion"] if op == "plain command" else ["--pfss-to-zdi"] if form == "pfss" else []
        o = cli.call(CM.main, ["in.dat", "out.dat"] + arg)
        require(o.ok, "the conversion command fails: %s", o.error)
        return RW.read_magnetogram_file("out.dat")
    if op == "scale":
        return C.scale(c, lambda l, m: -0.5)
    if op == "truncate":
        return c.truncated(2)
    if op == "plus dipole":
        n = width(form)
        return c + make(form, {(1, 0): (1.5, .5, -1)[:n], (1, 1): (1j, 2, .25)[:n]})
    if op == "plus octupole":
        n = width(form)
        return c + make(form, {k: v[:n] for k, v in (((3, 0), (-.5, 1, 2)), ((3, -2), (2j, .25, 1))) if form != "pfss" or k[1] >= 0})
    z = Z.from_coefficients(c)
    if op == "restrict":
        return from_zdi(z.as_restricted((1, 2), (0, 2)))
    return from_zdi(z.as_poloidal() if op == "poloidal" else z.as_toroidal())


ANGLE = math.radians(63)
GEO = G.ZdiGeometry(np.linspace(0, np.pi, 9), np.linspace(0, 2 * np.pi, 15))
GP, GA = GEO.centers()
GAREA, GV = GEO.areas(), ref.unit_vectors(GP, GA)[0]
GHARM = ref.Harmonics(LMAX, GP, GA)


def canon(state):
    form, d = state
    d = clean(d)
    return form, negative(d), tuple(sorted((k, tuple((round(x.real, 4) + 0.0, round(x.imag, 4) + 0.0) for x in map(complex, v))) for k, v in d.items()))


def same(c, form, d, tol, what):
    require(c.default_coefficients.shape == (width(form),), "%s: rows of shape %s", what, c.default_coefficients.shape)
    got = c11.entries(c)
    require(c.size == len(got) and c.degree_max == max([0] + [k[0] for k in got]) and c.order_min == min([0] + [k[1] for k in got]),
            "%s: size, highest degree and lowest order are %s %s %s", what, c.size, c.degree_max, c.order_min)
    for k in set(got) | set(d):
        a, b = got.get(k, (0j,) * width(form)), d.get(k, (0j,) * width(form))
        require(len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b)), "%s: entry %s is %s, expected %s", what, k, a, b)


def near(got, exp, tol, what, *args):
    require(np.shape(got) == np.shape(exp), what + ": shape %s" % (np.shape(got),), *args)
    require(np.all(np.abs(np.asarray(got) - exp) <= tol), what + ": off by %.3g" % np.max(np.abs(got - exp)), *args)


def observe(c, form, d, tol):
    if form == "pfss":
        if c.size == 0:
            return
        exp = np.stack(ref.pfss_field([(l, m, v[0]) for (l, m), v in d.items()], RR, TH, PH, h=H))
        near(np.stack(P.evaluate_spherical(c, RR, TH, PH)), exp, tol, "the PFSS field")
        x = RR[:, None] * ref.unit_vectors(TH, PH)[0]
        cart = P.evaluate_cartesian(c, *x.T)
        near(np.stack(cart[3:], -1), ref.cartesian(*exp, TH, PH), 1e-6 * max(1, np.max(np.abs(exp))) + tol, "the cartesian PFSS field")
        return
    if c.size == 0:
        return
    z = Z.from_coefficients(c)
    pad = lambda v: tuple(v) + (0j,) * (3 - len(v))
    rows = [(l, m, *pad(v)) for (l, m), v in d.items()]
    exp = ref.zdi_parts(rows, TH, PH, H)
    for comp, sub in z.get_all().items():
        for part, f in sub.items():
            near(f(TH, PH), exp["%s-%s" % (comp, part)], tol, "the %s %s field", comp, part)
    if form == "zdi1":
        total = sum(v[0] * GHARM.Y(*k) for k, v in d.items()) if d else 0 * GP
        near(I.to_image(c, GEO), total, tol, "the image")
    if not negative(d) and d:
        b = ref.zdi_field(rows, QT, QP, QH)
        e = float(np.sum(QW * (b[0] ** 2 + b[1] ** 2 + b[2] ** 2)))
        dest = {}
        z.energy(dest=dest)
        near(dest["magnetogram.total.energy.B2"] * 1.0, e, tol * (1 + math.sqrt(e)), "the total energy")
    if form == "zdi3" and d:
        b = ref.zdi_field(rows, GP, GA, GHARM)
        cart = ref.cartesian(*b, GP, GA)
        for az in (0.0, 2.5):
            o = np.array([math.sin(ANGLE) * math.cos(az), math.sin(ANGLE) * math.sin(az), math.cos(ANGLE)])
            w = np.maximum(GV @ o, 0) * GAREA
            near(np.ravel(F.get_longitudinal_field_curve(GEO, z, ANGLE, np.array([az])))[0], np.sum(w * (cart @ o)) / np.sum(w), tol, "the longitudinal field")


STARTS = {
    "zdi3": ("zdi3", {(1, 0): (3, 2, 1), (1, 1): (1 - 2j, 2j, .5), (2, 1): (.25 + 1j, -1, 1j), (3, 2): (1.5, .5j, -2)}),
    "pfss": ("pfss", {(0, 0): (.5,), (1, 1): (2 - 1j,), (3, 0): (-1.25,), (2, 2): (1j,), (1, 0): (4,)}),
    "negative": ("zdi3", {(2, -1): (1, 2j, 0), (2, 1): (1j, 0, 1), (3, -3): (.5, 1, 1 + 1j)}),
    "zdi1": ("zdi1", {(3, 3): (1 + 1j,), (1, 0): (2,)}),
    "low": ("zdi3", {(1, 1): (1 - 1j, 2, .5j)}),
}


def tolerance(hist, d):
    s = 1 + max((abs(x) for v in d.values() for x in v), default=0)
    w = sum(o in ("file", "command", "plain command") for o in hist)
    return s * (2e-9 + 2e-6 * w) * (1 + len(hist))


def judge(hist):
    st = STARTS[hist[0]]
    c = make(*st)
    seen = [(c, c11.entries(c), "the start")]
    with scratch():
        for i, op in enumerate(hist[1:]):
            c = real(c, st[0], op)
            st = model(st, op)
            seen.append((c, c11.entries(c), "step %d (%s)" % (i + 1, op)))
    form, d = st
    tol = tolerance(hist, d)
    same(c, form, d, tol, "the last step")
    observe(c, form, d, 30 * tol)
    for obj, before, what in seen:
        require(c11.entries(obj) == before, "the set made by %s has changed since", what)


def run(ck):
    ck.rule = "state = form and coefficients; transition = one package operation on the real objects, judged with the reference field in every state"
    depth = bound(4, 6)
    seen = set()
    todo = [((n,), STARTS[n]) for n in STARTS]
    while todo:
        hist, st = todo.pop(0)
        ck.step()
        ck.case(" / ".join(hist), judge, hist, replay=dict(history=list(hist)))
        k = canon(st)
        if k in seen:
            continue
        seen.add(k)
        ck.state(k)
        if len(hist) <= depth:
            for op in OPS:
                s2 = model(st, op)
                if s2 is not None and clean(s2[1]):
                    todo.append((hist + (op,), s2))
    ck.sample(dict(history=["zdi3", "rotate generic", "fold", "radial", "to pfss", "command"]))
    ck.assumptions = ["degrees up to 3; a file keeps six decimals, which the model rounds likewise"]
