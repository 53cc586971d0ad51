"""C25: noise magnetograms over all degree ranges, slopes and random sources; Fibonacci point sets of every size."""
import math, random
from unittest import mock
import numpy as np
from mc.core import require, bound
from starwinds_magnetogram import coefficients as CO
from starwinds_magnetogram.fibonacci_sphere import fibonacci_sphere

LEVEL = "model_checking"
GOLDEN = math.pi * (3 - math.sqrt(5))


class Source:
    """A random source that deals out the values of a fixed stream, whatever the shape asked for."""

    def __init__(self, stream):
        self.stream, self.n = stream, 0

    def __call__(self, loc=0.0, scale=1.0, size=None):
        k = 1 if size is None else int(np.prod(size))
        v = [self.stream(self.n + i) for i in range(k)]
        self.n += k
        v = loc + scale * np.array(v)
        return v[0] if size is None else v.reshape(size)


STREAMS = {
    "count": lambda i: float(i + 1),
    "sign": lambda i: (-1.0) ** i * (i % 7 + 0.5),
    "zero": lambda i: 0.0,
    "real-only": lambda i: (i + 2.0) * (i % 2 == 0),
    "imaginary-only": lambda i: (i + 2.0) * (i % 2 == 1),
    "large": lambda i: 1e9 * (i - 3),
    "small": lambda i: 1e-9 * (i + 3),
}


def noise(lo, hi, beta, stream):
    src = Source(STREAMS[stream])
    args = {} if beta is None else {"beta": beta}
    s = CO.noise(degree_min=lo, degree_max=hi, noise_fn=src, **args)
    keys = [(l, m) for l in range(lo, hi + 1) for m in range(l + 1)]
    got = dict(s.contents())
    require(set(got) == set(keys), "entries %s, expected degrees %d to %d with orders 0 to the degree", sorted(got), lo, hi)
    require(s.size == len(keys), "size %s", s.size)
    require(src.n == 2 * len(keys), "%d numbers drawn for %d coefficients", src.n, len(keys))
    for i, (l, m) in enumerate(keys):
        z = complex(STREAMS[stream](2 * i), STREAMS[stream](2 * i + 1)) / (2 * l + 1) / float(l) ** (beta or 0)
        v = np.atleast_1d(s.get(l, m))
        require(v.shape == (1,), "row shape %s", v.shape)
        require(abs(v[0] - z) <= 1e-12 * abs(z), "coefficient (%d, %d) is %r, expected %r", l, m, v[0], z)
    if keys:
        require(s.degree_max == hi, "highest degree %s", s.degree_max)
        require(s.order_min == 0, "lowest order %s", s.order_min)


def default_noise(kw):
    a, b = CO.noise(**kw), CO.noise(**kw)
    lo, hi = kw.get("degree_min", 1), kw.get("degree_max", 15)
    keys = {(l, m) for l in range(lo, hi + 1) for m in range(l + 1)}
    for s in (a, b):
        got = dict(s.contents())
        require(set(got) == keys, "entries %s", sorted(got)[:10])
        z = np.array([np.atleast_1d(v)[0] * (2 * l + 1) * float(l) ** kw.get("beta", 0) for (l, m), v in got.items()])
        require(np.all(np.isfinite(z)) and np.all(z != 0), "coefficients not finite or zero")
        # 12 standard deviations of a normal variable: never reached
        require(np.all(abs(z.real) < 12) and np.all(abs(z.imag) < 12), "draws are not standard normal: %s", z)
        require(len(set(z.tolist())) == len(z), "the same draw is used twice")
    require(len(keys) == 0 or any(np.any(a.get(*k) != b.get(*k)) for k in keys), "two noise magnetograms are equal")


def points(n, kind, value):
    if kind == "plain":
        p = fibonacci_sphere(n)
    elif kind == "seed":
        old = random.getstate()
        random.seed(value)
        try:
            p = fibonacci_sphere(n, randomize=True)
        finally:
            random.setstate(old)
    else:
        with mock.patch("random.random", lambda: value):
            p = fibonacci_sphere(n, True)
    p = np.asarray(p)
    require(p.shape == (n, 3), "shape %s for %d points", p.shape, n)
    require(np.all(np.isfinite(p)), "points are not finite")
    require(np.all(abs(np.sqrt((p ** 2).sum(1)) - 1) < 1e-12), "points are not on the unit sphere")
    h = (2 * np.arange(n) + 1) / n - 1
    require(np.all(abs(p[:, 1] - h) < 1e-12), "heights %s", p[:5, 1])
    az = np.arctan2(p[:, 2], p[:, 0])
    tol = 1e-9 * max(1, n / 1000)
    off = lambda a, b: abs(np.exp(1j * a) - np.exp(1j * b))
    d = np.diff(az)
    bad = [i for i in range(n - 1) if off(d[i], GOLDEN) > tol]
    require(len(bad) <= 1, "%d consecutive points are not a golden angle apart: after %s", len(bad), bad[:5])
    for i in bad:
        require(off(d[i], (1 - n) * GOLDEN) <= tol, "step after point %d is %g", i, d[i])
    if n > 1:
        require(np.min(np.diff(p[:, 1])) > 1 / n, "points coincide")


def run(ck):
    ck.rule = ("noise over all degree ranges up to the bound x slopes x random sources; every number of points up to the bound, plain, "
               "seeded and with every listed outcome of the random source; a state is a distinct (range, slope, source) or (count, outcome)")
    top = bound(6, 12)
    for lo in range(0, top + 1):
        for hi in range(max(lo - 1, 0), top + 1):
            for beta in ((None, 0, 1, 2, 3, -1, 0.5, -1.5) if lo else (None, 0)):
                for stream in STREAMS:
                    ck.step()
                    ck.state("noise", lo, hi, beta, stream)
                    ck.case("noise/%d-%d/beta=%s/%s" % (lo, hi, beta, stream), noise, lo, hi, beta, stream)
    for kw in ({}, {"degree_max": 3}, {"degree_min": 4}, {"beta": 2}, {"degree_min": 15, "degree_max": 16, "beta": 1.5}):
        ck.step()
        ck.state("default", str(kw))
        ck.case("default-noise/%s" % kw, default_noise, kw)
    for hi in (20, 40):
        for stream in STREAMS:
            ck.step()
            ck.state("noise", 1, hi, 1, stream)
            ck.case("noise/1-%d/beta=1/%s" % (hi, stream), noise, 1, hi, 1, stream)
    N = bound(150, 700)
    sizes = list(range(1, N + 1)) + list(bound([500, 1000, 4096], [1000, 2500, 4096, 10007, 30000]))
    for n in sizes:
        modes = [("plain", None)]
        if n <= bound(60, 300):
            modes += [("seed", s) for s in range(bound(2, 5))]
            modes += [("value", v) for v in (0.0, 1 / n, 0.25, 0.5, 0.7853, (n - 1) / n, 1 - 2.0 ** -53)]
        elif n <= N:
            modes += [("value", 0.37)]
        for kind, v in modes:
            ck.step()
            ck.state("points", n, kind, v)
            ck.case("points/%d/%s/%s" % (n, kind, v), points, n, kind, v)
    ck.sample(dict(case="noise/1-3/beta=2/count"))
    ck.sample(dict(case="points/17/value/0.25"))
