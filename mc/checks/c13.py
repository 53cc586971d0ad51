"""C13: words over a set of rotations, executed on coefficient sets, in lock step with the product of rotation matrices.

The generators include quarter turns about the axes (whose words make up the 24 rotations of the cube: the closed group is explored
completely), half turns, the identity, and generic rotations. In every state the vector field of the rotated set is compared
with the rigidly moved field of the original.
"""
import itertools, math
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from mc.checks import c06, c11
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import rotate as R
import quaternion

LEVEL = "model_checking"


def q(axis, deg):
    a = np.array(axis, float)
    a /= np.linalg.norm(a)
    h = math.radians(deg) / 2
    return quaternion.quaternion(math.cos(h), *(math.sin(h) * a))


def matrix(qq):
    w, x, y, z = qq.w, qq.x, qq.y, qq.z
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


g = np.random.default_rng(11)
X = g.normal(size=(9, 3))
X /= np.linalg.norm(X, axis=1)[:, None]


def vector_field(rows, x):
    """Cartesian field at unit vectors x of rows {(l, m): (alpha, beta, gamma)}."""
    t, p = np.arccos(np.clip(x[:, 2], -1, 1)), np.arctan2(x[:, 1], x[:, 0])
    return ref.cartesian(*ref.zdi_field([(l, m, *v) for (l, m), v in rows.items()], t, p), t, p)


def scalar(rows, i, x):
    """Complex function sum c Y of column i."""
    t, p = np.arccos(np.clip(x[:, 2], -1, 1)), np.arctan2(x[:, 1], x[:, 0])
    h = ref.Harmonics(max(k[0] for k in rows), t, p)
    return sum(v[i] * h.Y(l, m) for (l, m), v in rows.items())


def make(rows):
    w = len(next(iter(rows.values())))
    c = C.Coefficients(np.zeros(w, complex))
    for (l, m), v in rows.items():
        c.append(l, m, np.array(v))
    return c


def compare(c, rows, M, tol=1e-9):
    """c is rows rotated by M: f'(x) = f(M x)."""
    got = {k: tuple(map(complex, v)) for k, v in c.contents()}
    w = len(next(iter(rows.values())))
    require(c.default_coefficients.shape == (w,), "rows of shape %s", c.default_coefficients.shape)
    for i in range(w):
        s = math.sqrt(sum(abs(v[i]) ** 2 for v in rows.values())) or 1.0
        a, b = scalar(got, i, X), scalar(rows, i, X @ M.T)
        require(np.max(np.abs(a - b)) <= tol * s * 10, "column %d: the rotated function is off by %.3g", i, np.max(np.abs(a - b)) / s)
        for l in {k[0] for k in rows} | {k[0] for k in got}:
            na, nb = (math.fsum(abs(v[i]) ** 2 for k, v in d.items() if k[0] == l) for d in (got, rows))
            require(abs(na - nb) <= tol * s * s, "column %d, degree %d: summed squared magnitude %g, before %g", i, l, na, nb)
    if w == 3:
        a, b = vector_field(got, X), vector_field(rows, X @ M.T) @ M
        s = max(np.max(np.abs(b)), 1e-300)
        require(np.max(np.abs(a - b)) <= tol * 10 * s, "the vector field is not moved rigidly (%.3g)", np.max(np.abs(a - b)) / s)


def rows3(n=2, seed=1):
    return {(l, m): (a, b, c) for l, m, a, b, c in c06.example(n, seed=seed)}


GEN = {
    "z90": q((0, 0, 1), 90), "x90": q((1, 0, 0), 90), "y180": q((0, 1, 0), 180), "id": q((0, 0, 1), 0), "z-90": q((0, 0, 1), -90),
    "111/120": q((1, 1, 1), 120), "generic": q((1, -2, .5), 37), "small": q((0.3, 1, 2), 1e-3), "x180": q((1, 0, 0), 180), "neg": -q((0, 1, 0), 50),
}


def inv(qq):
    return quaternion.quaternion(qq.w, -qq.x, -qq.y, -qq.z)


def words(ck):
    base = rows3(2)
    names = list(GEN)
    seen = set()

    def explore(word, c, M, depth):
        if depth:
            for n in names:
                w2 = word + (n,)
                box = []

                def one():
                    before = c11.entries(c)
                    r = R.rotate_magnetogram(c, GEN[n])
                    require(r is not c and c11.entries(c) == before, "rotating changed its argument")
                    box.append(r)
                    compare(r, base, M @ matrix(GEN[n]))
                M2 = M @ matrix(GEN[n])
                ck.step()
                ck.case("word " + " ".join(w2), one)
                if not box:
                    box.append(R.rotate_magnetogram(c, GEN[n]))
                key = tuple(np.round(M2.ravel(), 6) + 0.0)
                new = ck.state("rotation", key)
                if (key, depth) not in seen:
                    seen.add((key, depth))
                    if new or depth > 1:
                        explore(w2, box[0], M2, depth - 1)
    explore((), make(base), np.eye(3), bound(3, 4))

    # the closed group of the cube
    group = {tuple(np.eye(3).astype(int).ravel()): ((), make(base), quaternion.quaternion(1, 0, 0, 0))}
    todo = list(group)
    while todo:
        k = todo.pop(0)
        w, c, qk = group[k]
        for n in ("z90", "x90"):
            M2 = np.array(k).reshape(3, 3) @ np.round(matrix(GEN[n])).astype(int)
            k2 = tuple(int(v) for v in M2.ravel())
            r = R.rotate_magnetogram(c, GEN[n])

            def one():
                compare(r, base, M2.astype(float), 1e-8)
                if k2 in group:
                    require(np.max(np.abs(vector_field({a: tuple(v) for a, v in r.contents()}, X)
                                          - vector_field({a: tuple(v) for a, v in group[k2][1].contents()}, X))) < 1e-8, "two words for the same rotation differ")
                direct = R.rotate_magnetogram(make(base), qk * GEN[n])
                a, b = c11.entries(direct), c11.entries(r)
                require(set(a) == set(b) and all(abs(x - y) < 1e-8 for kk in a for x, y in zip(a[kk], b[kk])), "the product rotation differs")
            ck.step(2)
            ck.state("cube", k2)
            ck.case("cube word %s %s" % (" ".join(w), n), one)
            if k2 not in group:
                group[k2] = (w + (n,), r, qk * GEN[n])
                todo.append(k2)
    ck.extra["cube_rotations"] = len(group)


def basis(ck):
    L = bound(6, 10)
    for l in range(L + 1):
        for m in range(-l, l + 1):
            for n in ("generic", "x90", "111/120", "y180"):
                def one():
                    rows = {(l, m): (2 - 1j,)}
                    c = R.rotate_magnetogram(make(rows), GEN[n])
                    compare(c, rows, matrix(GEN[n]))
                    for k, v in c.contents():
                        require(k[0] == l or not np.any(v), "degree %d leaks into %s", l, k)
                ck.step()
                ck.state("basis", l, m, n)
                ck.case("basis l=%d m=%d %s" % (l, m, n), one)


def sets(ck):
    pool = {
        "sparse x3": {(3, -2): (1j, 2, 3), (1, 0): (1, 0, -1j)},
        "x1": {(2, 1): (1,), (0, 0): (3j,), (1, -1): (2,)},
        "x2": {(2, 2): (1, 0), (1, 0): (0, 1)},
        "column zero": {(2, 2): (1, 0, 2), (1, 1): (1j, 0, 0)},
        "degree 0": {(0, 0): (1 + 1j, 2, 3)},
        "dense 5": rows3(5, 4),
        "single high": {(9, 4): (1, 1j, -1)},
        "x5": {(1, 1): (1, 2, 3, 4, 5), (2, -1): (1j,) * 5},
        "large": {k: tuple(x * 1e8 for x in v) for k, v in rows3(2).items()},
        "tiny": {k: tuple(x * 1e-120 for x in v) for k, v in {(1, 0): (1, 1j, 2), (2, -1): (3, 1, 1)}.items()},
    }
    for name, rows in pool.items():
        for n, qq in GEN.items():
            def one():
                c = make(rows)
                before = c11.entries(c)
                r = R.rotate_magnetogram(c, qq)
                if name != "tiny":
                    compare(r, rows, matrix(qq))
                back = R.rotate_magnetogram(r, inv(qq))
                again = R.rotate_magnetogram(c, qq)
                require(c11.entries(c) == before, "rotating changed its argument")
                b = c11.entries(back)
                s = max(abs(x) for v in rows.values() for x in v)
                for k in set(b) | set(rows):
                    e = rows.get(k, (0,) * len(before[next(iter(before))]))
                    require(all(abs(x - y) <= 1e-9 * s for x, y in zip(back.get(*k), e)), "rotating back gives %s at %s, expected %s", b.get(k), k, e)
                require(c11.entries(again) == c11.entries(r), "the same rotation gives another result")
            ck.step(3)
            ck.state("set", name, n)
            ck.case("set %s rotation %s" % (name, n), one)


def euler(ck):
    rows = rows3(2, 8)

    def Rz(d):
        c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
        return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])

    def Ry(d):
        c, s = math.cos(math.radians(d)), math.sin(math.radians(d))
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    angles = bound([0, 90, -35.75, 200, 360.5], [0, 90, -35.75, 200, 360, 725.25, 1e-3])
    for a, b, c in itertools.product(angles, repeat=3):
        def one():
            M = Rz(a) @ Ry(b) @ Rz(c)
            form = (tuple, list, np.array)[int(4 * (abs(a) + abs(b) + abs(c))) % 3]([a, b, c])
            r = R.rotate_magnetogram_euler_zyz_deg(make(rows), form)
            compare(r, rows, M)
            e = R.rotate_magnetogram(make(rows), quaternion.from_euler_angles(np.radians([a, b, c])))
            x, y = c11.entries(r), c11.entries(e)
            require(set(x) == set(y) and all(abs(u - v) < 1e-9 for k in x for u, v in zip(x[k], y[k])), "differs from the quaternion's result")
        ck.step(2)
        ck.state("euler", a, b, c)
        ck.case("euler angles %s" % ((a, b, c),), one)


def run(ck):
    ck.rule = "state = rotation reached by a word over the generators (or one set/rotation pair); transition = one rotation applied to real coefficients"
    words(ck)
    basis(ck)
    sets(ck)
    euler(ck)
    ck.sample(dict(word=["z90", "generic", "x90"]))
    ck.assumptions = ["the rotated function is f'(x) = f(Rx), R the rotation matrix of the quaternion"]
