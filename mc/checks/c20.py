"""C20: every point of a cube of coordinates (all octants, axes, origin), every direction of an angular grid, every array form."""
import itertools, math
import numpy as np
from mc.core import Mismatch, require, bound
from starwinds_magnetogram import coordinate_transforms as T

LEVEL = "model_checking"
EPS = 3e-8      # arccos next to the poles


def to_spherical(p):
    x, y, z = p
    r = math.hypot(math.hypot(x, y), z)
    return r, math.atan2(math.hypot(x, y), z), math.atan2(y, x)


def judge_points(pts, form):
    cols = [np.array(c) for c in zip(*pts)]
    if form == "list of scalars":
        out = [T.spherical_coordinates_from_rectangular(*map(float, p)) for p in pts]
        r, t, f = (np.array([float(o[i]) for o in out]) for i in range(3))
    else:
        args = [FORMS[form](c) for c in cols]
        before = [a.copy() for a in args]
        r, t, f = T.spherical_coordinates_from_rectangular(*args)
        for a, b in zip(args, before):
            require(np.array_equal(a, b), "the points were changed")
            require(r.shape == t.shape == f.shape == b.shape, "shapes %s %s %s for points of shape %s", r.shape, t.shape, f.shape, b.shape)
        back = T.rectangular_coordinates_from_spherical(r, t, f)
        for a, b in zip(args, back):
            require(b.shape == a.shape, "shape %s for points of shape %s", b.shape, a.shape)
        cols = [a.ravel() for a in args]
        r, t, f = r.ravel(), t.ravel(), f.ravel()
        back = [b.ravel() for b in back]
        for i in range(len(r)):
            n = max(abs(float(c[i])) for c in cols)
            for c, b, name in zip(cols, back, "xyz"):
                require(abs(b[i] - c[i]) <= EPS * n, "point %s comes back with %s = %r", [float(q[i]) for q in cols], name, b[i])
                if abs(float(cols[2][i])) < .9 * r[i]:
                    require(abs(b[i] - c[i]) <= 1e-13 * n, "point %s comes back with %s = %r", [float(q[i]) for q in cols], name, b[i])
    for i in range(len(r)):
        p = [float(c[i]) for c in cols]
        er, et, ef = to_spherical(p)
        require(abs(r[i] - er) <= 1e-14 * er, "radius of %s is %r", p, r[i])
        require(0 <= t[i] <= math.pi, "polar angle of %s is %r", p, t[i])
        require(-math.pi <= f[i] <= math.pi, "azimuth of %s is %r", p, f[i])
        if er > 0:
            require(abs(t[i] - et) <= (1e-14 if abs(p[2]) < .9 * er else EPS), "polar angle of %s is %r, expected %r", p, t[i], et)
            if p[0] == p[1] == 0:
                require(t[i] in (0, math.pi) and (t[i] == 0) == (p[2] > 0), "polar angle of %s on the axis is %r", p, t[i])
        if p[0] != 0 or p[1] != 0:
            d = (f[i] - ef) % (2 * math.pi)
            require(min(d, 2 * math.pi - d) <= 1e-14, "azimuth of %s is %r, expected %r", p, f[i], ef)


FORMS = {"array": lambda c: c, "2-d": lambda c: np.stack((c, c[::-1])), "column": lambda c: c[:, None], "3-d": lambda c: c[None, :, None],
         "list of scalars": None, "reversed view": lambda c: c[::-1], "integers": lambda c: c.astype(int), "read-only": lambda c: (lambda a: (a.setflags(write=False), a)[1])(c.copy())}


def judge_angles(r, t, f):
    x, y, z = T.rectangular_coordinates_from_spherical(r, t, f)
    e = r * math.sin(t) * math.cos(f), r * math.sin(t) * math.sin(f), r * math.cos(t)
    for a, b in zip((x, y, z), e):
        require(abs(float(a) - b) <= 1e-15 * abs(r) * 2, "(%r, %r, %r) is %s, expected %s", r, t, f, (x, y, z), e)
    b = T.spherical_coordinates_from_rectangular(x, y, z)
    require(abs(float(b[0]) - r) <= 1e-14 * r, "radius %r comes back as %r", r, b[0])
    if r == 0:
        return
    require(abs(float(b[1]) - t) <= EPS, "polar angle %r comes back as %r", t, b[1])
    if 1e-3 < t < math.pi - 1e-3:
        d = (float(b[2]) - f) % (2 * math.pi)
        require(min(d, 2 * math.pi - d) <= 1e-12, "azimuth %r comes back as %r", f, b[2])


def unit(t, f):
    st, ct, sf, cf = math.sin(t), math.cos(t), math.sin(f), math.cos(f)
    return np.array([[st * cf, st * sf, ct], [ct * cf, ct * sf, -st], [-sf, cf, 0.0]])


def judge_matrices(t, f, form=(float, float)):
    args = np.array(t, form[0]), np.array(f, form[1])
    before = [a.copy() for a in args]
    a, b = T.spherical_to_rectangular_transformation_matrix(*args), T.rectangular_to_spherical_transformation_matrix(*args)
    require(all(np.array_equal(x, y) for x, y in zip(args, before)), "the angles were changed")
    n = np.size(args[0])
    require(a.shape == b.shape == (n, 3, 3), "matrices of shape %s and %s for %d directions", a.shape, b.shape, n)
    tt, ff = np.broadcast_arrays(*map(np.atleast_1d, args))
    for i in range(n):
        u = unit(tt[i], ff[i])
        where = "polar angle %r, azimuth %r" % (tt[i], ff[i])
        for k, name in enumerate(("radial", "polar", "azimuthal")):
            e = np.eye(3)[k]
            require(np.max(np.abs(a[i] @ e - u[k])) <= 1e-15 * 4, "the %s unit vector at %s becomes %s, expected %s", name, where, a[i] @ e, u[k])
            require(np.max(np.abs(b[i] @ u[k] - e)) <= 1e-14, "the cartesian %s direction at %s becomes %s", name, where, b[i] @ u[k])
        require(np.max(np.abs(a[i] @ b[i] - np.eye(3))) <= 1e-14 and np.max(np.abs(b[i] @ a[i] - np.eye(3))) <= 1e-14,
                "the matrices at %s are not inverse to each other", where)
        require(np.max(np.abs(a[i].T @ a[i] - np.eye(3))) <= 1e-14 and abs(np.linalg.det(a[i]) - 1) <= 1e-14 and abs(np.linalg.det(b[i]) - 1) <= 1e-14,
                "the matrix at %s is not a rotation", where)
        for v in (np.array([1., 2, 3]), np.array([-1e3, 0, 1e-3])):
            require(abs(np.linalg.norm(a[i] @ v) / np.linalg.norm(v) - 1) <= 1e-14, "a vector's length changes at %s", where)


def run(ck):
    ck.rule = "a state is one point or direction in one array form, transformed both ways"
    V = bound((-1e5, -2.0, -1.0, -1e-9, -0.0, 0.0, .3, 1.0), (-1e9, -1e5, -2.0, -1.0, -1e-9, -0.0, 0.0, 1e-12, .3, 1.0, 7.0))
    cube = list(itertools.product(V, repeat=3))
    for form in FORMS:
        vals = [p for p in cube if form != "integers" or all(v == int(v) for v in p)]
        for lo in range(0, len(vals), 24):
            pts = vals[lo:lo + 24]
            ck.step(len(pts))
            for p in pts:
                ck.state(form, p)
            ck.case("points %s from %d" % (form, lo), judge_points, pts, form)
    for s in (1e-140, 1e-20, 1e20, 1e140):
        pts = [tuple(s * v for v in p) for p in itertools.product((-1.0, 0.0, .6, 1.0), repeat=3)]
        ck.step(len(pts))
        for p in pts:
            ck.state("scaled", p)
        ck.case("points of size %g" % s, judge_points, pts, "array")
    for a in (-0.0, 0.0):
        for b in (-0.0, 0.0):
            pts = [(-1.0, a, b), (1.0, a, b), (a, b, 1.0), (a, b, -1.0), (a, 1.0, b), (b, -1.0, a), (a, b, 0.0)]
            ck.state("signed zeros", str((a, b)))
            ck.case("signed zeros %s %s" % (a, b), judge_points, pts, "array")
    ts = [math.pi * i / bound(36, 96) for i in range(bound(37, 97))] + [1e-3, 2e-8, math.pi - 1e-3, 3.0, math.pi / 2 + 1e-8, math.pi / 2 - 3e-8]
    fs = [math.pi * i / bound(18, 48) for i in range(-bound(18, 48), bound(19, 49))] + [3.1, -3.1, 6.0, -9.0, 2 * math.pi - 1e-8, 3e-8]
    for t, f in itertools.product(ts, fs):
        for r in (0.0, 1.0, 2.5, 1e-10, 1e9):
            ck.step()
            ck.state(r, t, f)
            ck.case("r=%g theta=%.6f phi=%.6f" % (r, t, f), judge_angles, r, t, f)
        ck.step()
        ck.state("matrix", t, f)
        ck.case("matrices theta=%.6f phi=%.6f" % (t, f), judge_matrices, t, f)
    # whole numbers as angles, in every pair of number types, and as scalars
    types = (float, int, np.int32)
    for a, b in itertools.product(types, repeat=2):
        ck.step(12)
        ck.state("types", a, b)
        ck.case("matrices of whole angles %s %s" % (a, b), judge_matrices, [0, 1, 2, 3], [0, 1, 4, 6], (a, b))
        for t, f in itertools.product((0, 1, 2, 3), (0, 2, 5)):
            ck.case("matrices of whole angles %d %d %s %s" % (t, f, a, b), judge_matrices, t, f, (a, b))

            def one():
                for r in (1, 3, 1.5):
                    for c in ((lambda v, k: k(v)), (lambda v, k: np.array([v], k))):
                        x = [np.ravel(v)[0] for v in T.rectangular_coordinates_from_spherical(c(r, type(r)), c(t, a), c(f, b))]
                        e = r * math.sin(t) * math.cos(f), r * math.sin(t) * math.sin(f), r * math.cos(t)
                        require(max(abs(float(u) - v) for u, v in zip(x, e)) <= 5e-15, "(%r, %r, %r) is %s, expected %s", r, t, f, x, e)
            ck.case("coordinates of whole angles %d %d %s %s" % (t, f, a, b), one)
    for n in (1, 2, 3, 4, 9):
        for s in range(3):
            t = [ts[(7 * i + s) % len(ts)] for i in range(n)]
            f = [fs[(5 * i + 2 * s) % len(fs)] for i in range(n)]
            ck.step(2)
            ck.state("matrices", n, s)
            ck.case("%d matrices, set %d" % (n, s), judge_matrices, t, f)
            ck.case("%d matrices, set %d, one azimuth" % (n, s), judge_matrices, t, f[0])
    ck.sample(dict(point=[-1.0, 0.0, -0.0]))
