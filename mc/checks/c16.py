"""C16: facets of every kind of corner grid up to a size, against closed forms; every direction of a set."""
import itertools, math
import numpy as np
from mc.core import Mismatch, require, bound
from mc import ref
from starwinds_magnetogram import geometry as G

LEVEL = "model_checking"


def facets(pl, az):
    """Exact solid angles, centres and normals, azimuth along the first axis."""
    area = np.array([[abs((math.cos(a) - math.cos(b)) * (d - c)) for a, b in zip(pl[:-1], pl[1:])] for c, d in zip(az[:-1], az[1:])])
    pc = np.array([[(a + b) / 2 for a, b in zip(pl[:-1], pl[1:])] for c in az[:-1]])
    ac = np.array([[(c + d) / 2 for a in pl[:-1]] for c, d in zip(az[:-1], az[1:])])
    n = np.stack([np.sin(pc) * np.cos(ac), np.sin(pc) * np.sin(ac), np.cos(pc)], -1)
    return area, pc, ac, n


DIRECTIONS = [np.array(d, float) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + \
             [np.array([1, 2, 3.]), np.array([-.2, .1, 5]), np.array([1e-3, 0, -1])]


def close(a, b, tol, what, *args):
    require(np.shape(a) == np.shape(b), what + ": shape %s, expected %s", *args, np.shape(a), np.shape(b))
    d = np.max(np.abs(np.asarray(a) - b), initial=0)
    require(d <= tol, what + ": off by %.3g", *args, d)


def judge(ck, make, pl, az, directions):
    given = np.array(pl), np.array(az)
    g = make()
    pl, az = given
    area, pc, ac, n = facets(pl, az)
    c = g.corners()
    close(c[0], np.tile(pl, (len(az), 1)), 1e-14, "polar angles of the corners")
    close(c[1], np.tile(az[:, None], (1, len(pl))), 1e-13, "azimuths of the corners")
    require(g.shape == (len(az), len(pl)), "shape %s", g.shape)
    for _ in range(2):
        close(g.areas(), area, 1e-14 * 4 * np.pi, "areas")
        span = abs((math.cos(pl[0]) - math.cos(pl[-1])) * (az[-1] - az[0]))
        require(abs(np.sum(g.areas()) - span) <= 1e-12 * max(1, abs(span)), "the areas add up to %.15g, not %.15g", np.sum(g.areas()), span)
        cc = g.centers()
        close(cc[0], pc, 1e-14, "polar angles of the centres")
        close(cc[1], ac, 1e-13, "azimuths of the centres")
        close(g.unit_normals(), n, 1e-13, "unit normals")
        close(np.stack(g.centers_cartesian(), -1), n, 1e-13, "centres")
        close(np.stack(g.corners_cartesian(), -1), ref.unit_vectors(c[0], c[1])[0], 1e-13, "cartesian corners")
        for d in directions:
            u = d / math.sqrt(sum(x * x for x in d))
            e = np.maximum(n @ u, 0)
            for s in (1, 3.7, 1e-6, 1e9, 1e-9, 1e-13, 1e-40, 1e-140, 1e16, 1e100):
                ck.step()
                arg = d * s
                before = arg.copy()
                f = g.projected_visible_area_fraction(arg)
                require(np.array_equal(arg, before), "the direction was changed")
                close(f, e, 1e-13, "visible fraction towards %s times %g", d.tolist(), s)
                require(np.all(f >= 0), "negative visible fraction")
                # facing away by more than rounding: exactly nothing
                if s == 1 and np.array_equal(d, np.round(d)):
                    close(g.projected_visible_area_fraction(d.astype(int)), e, 1e-13, "visible fraction towards integers %s", d.tolist())
                require(not np.any(f[n @ u < -1e-12]), "a facet facing away from %s is visible", d.tolist())


def run(ck):
    ck.rule = "a state is one corner grid; on each the areas, centres, normals and the visible fractions for %d directions are judged twice" % len(DIRECTIONS)

    def case(name, make, pl, az, directions=DIRECTIONS):
        ck.state(name)
        ck.step(6)
        ck.case(name, judge, ck, make, pl, az, directions)
    default = np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)
    case("default", lambda: G.ZdiGeometry(), *default)
    case("default by keyword", lambda: G.ZdiGeometry(polar_corners=None, azimuthal_corners=None), *default)
    N = bound(10, 24)
    for n in range(2, N + 1):
        case("polar %d" % n, lambda n=n: G.ZdiGeometry(n), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, 2 * n))
        for k in range(2, N + 1):
            case("counts %d %d" % (n, k), lambda n=n, k=k: G.ZdiGeometry(n, k), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, k),
                 DIRECTIONS[::bound(4, 1)])
    for n, k in ((65, 130), (33, 7), (5, 90), (181, 361)):
        case("counts %d %d" % (n, k), lambda n=n, k=k: G.ZdiGeometry(n, k), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, k), DIRECTIONS[:4])
    # uneven and partial grids: every increasing sequence over a set of corners
    P = (0.0, .3, 1.1, np.pi / 2, 2.5, np.pi)
    A = (-np.pi, -1.0, 0.0, .7, 2.0, np.pi)
    seqs = lambda S, sizes: [s for n in sizes for s in itertools.combinations(S, n)]
    polars, azimuths = seqs(P, range(2, 7)), seqs(A, range(2, 7))
    for i, pl in enumerate(polars):
        for j, az in enumerate(azimuths):
            if (i + j) % bound(7, 1):
                continue
            mk = lambda pl=pl, az=az: G.ZdiGeometry(np.array(pl), np.array(az))
            case("corners %s %s" % (pl, az), mk, pl, az, DIRECTIONS[(i * j) % 5::bound(7, 3)])
            # the same corners from the south, from the east, or both
            for n, (p, a) in enumerate(((pl[::-1], az), (pl, az[::-1]), (pl[::-1], az[::-1]))):
                if (i + j) % bound(21, 1) == 0 or bound(i == j, True):
                    case("descending corners %s %s" % (p, a), lambda p=p, a=a: G.ZdiGeometry(np.array(p), np.array(a)), p, a, DIRECTIONS[(i * j + n) % 9::9])
    for az in ((0, 2 * np.pi), (.5, .5 + 2 * np.pi), (-np.pi, 0, np.pi), (5, 6, 7, 8), (-20, -19, -16)):
        for pl in ((0, np.pi), (0, 1e-6, np.pi), (1, 1 + 1e-9), (0, 1, 2, 3)):
            case("corners %s %s" % (pl, az), lambda pl=pl, az=az: G.ZdiGeometry(np.array(pl, float), np.array(az, float)), pl, az)
            case("lists %s %s" % (pl, az), lambda pl=pl, az=az: G.ZdiGeometry(list(pl), list(az)), pl, az, DIRECTIONS[:3])

    # refused: more than once around
    def refused(pl, az):
        try:
            G.ZdiGeometry(np.array(pl), np.array(az))
        except AssertionError:
            return
        raise Mismatch("a grid that covers more than the sphere was accepted")
    for pl, az in (((0, 3.2), (0, 1)), ((-1, 3), (0, 1)), ((0, 1), (0, 6.3)), ((0, 1), (-3.2, 3.2)), ((0, 1, 3.3), (0, 3, 9))):
        ck.case("refused %s %s" % (pl, az), refused, pl, az)

    # geometries do not share anything
    def separate():
        a, b = G.ZdiGeometry(), G.ZdiGeometry()
        x = a.areas()
        x *= 0
        for v in a.corners() + a.centers():
            pass
        a.centers()[0][:] = 0
        close(b.areas(), facets(*default)[0], 1e-13, "areas of another geometry")
        close(a.areas(), facets(*default)[0], 1e-13, "areas after the caller changed a result")
        close(a.centers()[0], facets(*default)[1], 1e-13, "centres after the caller changed a result")
    ck.case("separate", separate)
    ck.sample(dict(polar=list(P), azimuth=list(A), direction=[1, 0, -1]))
