"""C23: the description of every basis element and of mixtures on a set of full-sphere geometries."""
import itertools, math
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06, c16
from starwinds_magnetogram import geometry as G

LEVEL = "model_checking"
SHARDS = 8
P, A = np.array([0, .5, 1.3, 1.9, 2.8, np.pi]), np.array([-np.pi, -1.0, 0.1, 2.0, 2.5, np.pi])
GEOS = {
    "2x2": (lambda: G.ZdiGeometry(2, 2), np.linspace(0, np.pi, 2), np.linspace(0, 2 * np.pi, 2)),
    "7x13": (lambda: G.ZdiGeometry(7, 13), np.linspace(0, np.pi, 7), np.linspace(0, 2 * np.pi, 13)),
    "12x5": (lambda: G.ZdiGeometry(12, 5), np.linspace(0, np.pi, 12), np.linspace(0, 2 * np.pi, 5)),
    "9": (lambda: G.ZdiGeometry(9), np.linspace(0, np.pi, 9), np.linspace(0, 2 * np.pi, 18)),
    "uneven": (lambda: G.ZdiGeometry(P.copy(), A.copy()), P, A),
    "from the south": (lambda: G.ZdiGeometry(P[::-1].copy(), A.copy()), P[::-1], A),
    "from the east": (lambda: G.ZdiGeometry(P.copy(), A[::-1].copy()), P, A[::-1]),
    "from both": (lambda: G.ZdiGeometry(np.linspace(np.pi, 0, 8), np.linspace(2 * np.pi, 0, 10)), np.linspace(np.pi, 0, 8), np.linspace(2 * np.pi, 0, 10)),
    "default": (lambda: G.ZdiGeometry(), np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)),
}
_facets = {}


def facets(name):
    if name not in _facets:
        f = c16.facets(*GEOS[name][1:])
        _facets[name] = f, ref.Harmonics(6, f[1], f[2])
    return _facets[name]


def statistics(v, area):
    v = np.abs(v)
    mean = float(np.sum(v * area)) / (4 * math.pi)
    return dict(max=float(np.max(v)), mean=mean, rms=math.sqrt(float(np.sum(v ** 2 * area)) / (4 * math.pi)),
                std=math.sqrt(float(np.sum((v - mean) ** 2 * area)) / (4 * math.pi)))


def judge(name, coeffs, dest):
    geo = GEOS[name][0]()
    mag = c06.make(coeffs)
    (area, pc, ac, n), h = facets(name)
    parts = ref.zdi_parts(coeffs, pc, ac, h)
    exp = dict(parts)
    strength = 0
    for c in ("radial", "polar", "azimuthal"):
        exp[c] = parts[c + "-poloidal"] + parts[c + "-toroidal"]
        strength = strength + exp[c] ** 2
    exp["field strength"] = np.sqrt(strength)
    d = None if dest is None else dict(dest)
    r = G.numerical_description(geo, mag) if d is None else G.numerical_description(geo, mag, d)
    if d is not None:
        require(r is d, "the dictionary given is not the one returned")
        for k, v in dest.items():
            require(k in d and (d[k] == v or k.startswith("magnetogram.")), "entry %s of the dictionary given has changed", k)
    want = {"magnetogram.%s.abs.%s" % (q, s) for q in exp for s in ("max", "mean", "rms", "std")}
    require(set(r) - set(dest or ()) <= want and want <= set(r), "reported %s", sorted(set(r) ^ want)[:5])
    stale = dict.fromkeys(want, -7.0)
    G.numerical_description(geo, mag, stale)
    require(stale == {k: r[k] for k in want}, "what was in the dictionary before shows in the result")
    scale = max(np.max(exp["field strength"]), max(max(map(abs, c[2:])) for c in coeffs), 1e-300)
    for q, v in exp.items():
        st = statistics(v, area)
        for s, e in st.items():
            g = r["magnetogram.%s.abs.%s" % (q, s)]
            tol = 1e-11 * scale if s != "std" else 2e-7 * scale
            require(np.isscalar(g) and abs(g - e) <= tol, "%s of %s is %r, expected %r", s, q, g, e)
        g = {s: r["magnetogram.%s.abs.%s" % (q, s)] for s in st}
        require(abs(g["rms"] ** 2 - g["mean"] ** 2 - g["std"] ** 2) <= 1e-10 * scale ** 2, "rms squared of %s is not the sum of squares of mean and deviation", q)


def run(ck):
    ck.rule = "a state is one (geometry, magnetogram, destination) whose 40 reported numbers were compared"

    def case(geo, name, coeffs, dest=None):
        cid = "%s %s%s" % (geo, name, "" if dest is None else " into a dictionary")
        ck.state(cid)
        ck.step(40)
        ck.case(cid, judge, geo, coeffs, dest)
    L = bound(3, 5)
    ex = [(l, m, a, b, g) for l, m, a, b, g in c06.example(5) if m >= 0]
    for geo in GEOS:
        big = geo == "default"
        for l in range(L + 1):
            for m in range(l + 1):
                for kind in range(3):
                    if l == 0 and kind:
                        continue
                    for u in (1, 1j):
                        if big and (l + m + kind) % 4:
                            continue
                        case(geo, "l=%d m=%d %s %s" % (l, m, c06.KINDS[kind], u), [(l, m) + tuple(u if i == kind else 0 for i in range(3))])
        for f in (1, -1, 1e-100, 1e-9, 1e6, 1e100):
            case(geo, "dense times %g" % f, [(l, m, a * f, b * f, g * f) for l, m, a, b, g in ex])
        case(geo, "zero", [(1, 0, 0, 0, 0)])
        case(geo, "negative orders", c06.example(2))
        case(geo, "constant", [(0, 0, -4, 0, 0)])
        for bits in range(1, 8):
            case(geo, "kinds %d" % bits, [(l, m) + tuple(v if bits >> i & 1 else 0 for i, v in enumerate((a, b, g))) for l, m, a, b, g in ex])
        case(geo, "dense", ex, {})
        case(geo, "dense", ex, {"other": 3, "magnetogram.total.energy.B2": 7})
        case(geo, "sparse", [(4, 4, 0, 1j, 0), (2, 1, 0, 0, 1e-3)], {"magnetogram.radial.abs.max": -1})
    ck.sample(dict(geometry="uneven", magnetogram=[[2, 1, "1j", 0, 0]]))
