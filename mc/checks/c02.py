"""C02: every (coefficient set, degree limit, lowest order, header, target) of a bounded space is written and read back.

Oracle: the rounded rows of the set (a plain dict), an independent parser of the written text, and the header's
own line and degree counts. The configuration space is enumerated completely.
"""
import itertools, os, pathlib
import numpy as np
from mc.core import Mismatch, require, bound, scratch
from mc import files
from starwinds_magnetogram import coefficients as C
from starwinds_magnetogram import reader_writer as RW

LEVEL = "model_checking"
SHARDS = 8

MAGNITUDES = [1.0, -2.5, 0.0, -0.0, 1.2345678901e-7, -9.9999996e-3, 9.9999994999e5, 1e100, -3.3333333e-100, 1e300, -1e-300,
              5e-324, 123456.5, -0.1, 7.0, 1.00000049999999, 1.0000005, 9.9999995, -1e15]


def sets():
    """name, {(l, m): row}, width"""
    def fill(keys, w, off):
        n = len(MAGNITUDES)
        it = itertools.count(off)
        return {k: tuple(complex(MAGNITUDES[(7 * next(it)) % n], MAGNITUDES[(5 * next(it) + j) % n]) for j in range(w)) for k in keys}
    shapes = {
        "empty": [],
        "l0": [(0, 0)],
        "l1": [(1, 0)],
        "dense1": [(l, m) for l in range(2) for m in range(l + 1)],
        "dense3 without l0": [(l, m) for l in range(1, 4) for m in range(l + 1)],
        "dense4": [(l, m) for l in range(5) for m in range(l + 1)],
        "all orders": [(l, m) for l in range(4) for m in range(-l, l + 1)],
        "sparse": [(3, 1), (1, 1), (5, 0)],
        "single high": [(12, 7)],
        "negative only": [(2, -2), (3, -1)],
        "unsorted": [(3, 3), (2, 0), (3, -2), (1, 0), (2, 2)],
        "sectoral": [(l, l) for l in range(6)],
    }
    if bound(0, 1):
        for bits in range(1, 2 ** 10):      # every subset of the ten entries with l <= 3, m >= 0
            ks = [(l, m) for l in range(4) for m in range(l + 1)]
            shapes["subset %d" % bits] = [k for i, k in enumerate(ks) if bits >> i & 1]
    for i, (n, keys) in enumerate(shapes.items()):
        for w in (1, 2, 3):
            if n.startswith("subset") and w == 2:
                continue
            yield "%s x%d" % (n, w), fill(keys, w, i + 11 * w), w
    yield "three-digit indices x1", {(101, 100): (1 + 2j,), (120, 0): (3j,)}, 1
    yield "real x3", {(2, 1): (1.5, 2, 3), (0, 0): (1, 0, -1)}, 3
    yield "equal rows x3", {k: (1 + 1j,) * 3 for k in [(1, 0), (1, 1), (2, 0)]}, 3
    yield "zero columns x3", {k: (1j, 0j, 0j) for k in [(1, 0), (1, 1), (2, 2)]}, 3
    yield "disjoint columns x3", {(1, 0): (1, 0, 0), (1, 1): (0, 2j, 0), (2, 0): (0, 0, 3)}, 3
    yield "wide x5", {(l, m): tuple(range(1, 6)) for l in range(3) for m in range(l + 1)}, 5


def make(d, w, real=False):
    c = C.Coefficients(np.zeros(w, dtype=float if real else complex))
    for (l, m), row in d.items():
        c.append(l, m, np.array(row))
    return c


def judge(ck, name, d, w, dmax, omin, header, target):
    c = make(d, w, name.startswith("real"))
    stored = max([0] + [k[0] for k in d])
    lim = stored if dmax is None else dmax
    low = 0 if omin is None else omin
    keys = [(l, m) for l in range(lim + 1) for m in range(max(low, -l), l + 1)]
    if not keys:
        return
    kw = {}
    if dmax is not None:
        kw["degree_max"] = dmax
    if omin is not None:
        kw["order_min"] = omin
    if header is not None:
        kw["write_swmf_header"] = header
    fn = target
    if isinstance(target, str) and os.path.dirname(target):
        os.makedirs(os.path.dirname(target), exist_ok=True)
    if str(target).startswith("existing"):
        with open(fn, "w") as f:
            f.write(files.render([{(l, m): 9j for l in range(20) for m in range(l + 1)}]))
    RW.write_magnetogram_file(c, fn, **kw)
    text = open(fn).read()
    exp = {k: tuple(files.rounded(complex(x)) for x in d.get(k, (0,) * w)) for k in keys}
    # the written text, read by the independent parser
    sets_ = files.parse(text)
    require(len(sets_) == w, "the file holds %d sets, expected %d", len(sets_), w)
    got = files.columns(sets_)
    require(set(got) == set(exp), "the file holds entries %s, expected %s", sorted(got)[:9], sorted(exp)[:9])
    for k in exp:
        require(got[k] == exp[k], "entry %s is written as %s, expected %s", k, got[k], exp[k])
    head, data = files.split_header(text)
    if header:
        require(len(head) == 5, "the SWMF header has %d lines", len(head))
        require(head[2].split()[0] == str(len(keys)), "header counts %s data lines, one set has %d", head[2], len(keys))
        require(head[3].split()[0] == str(lim), "header says maximum degree %s, expected %d", head[3], lim)
    else:
        require(not any(h.split()[:4] == ["n", "m", "g", "h"] for h in head), "a SWMF header was written unasked")
    # the written text, read by the package
    r = RW.read_magnetogram_file(fn)
    require(r.default_coefficients.shape == (w,), "read %s columns, expected %d", r.default_coefficients.shape, w)
    require(r.size == len(keys) and r.degree_max == lim, "read %d entries up to degree %d, expected %d and %d",
            r.size, r.degree_max, len(keys), lim)
    for k in keys:
        v = tuple(map(complex, r.get(*k)))
        require(r.has(*k) and v == exp[k], "entry %s is read back as %s, expected %s", k, v, exp[k])
    # the set itself is as before
    require(sorted(k for k, _ in c.contents()) == sorted(d), "writing changed the entries of the set")
    for k, row in d.items():
        require(tuple(map(complex, c.get(*k))) == tuple(map(complex, row)), "writing changed entry %s of the set", k)
    # writing what was read gives the same data again
    RW.write_magnetogram_file(r, fn, **kw)
    require(files.parse(open(fn).read()) == sets_, "writing the file that was read back changes the data")
    ck.state(name, dmax, omin, header, str(target))


def run(ck):
    ck.rule = "a state is one (set, degree limit, lowest order, header, target) that was written and read back"
    targets = ["out.dat", "existing.dat", pathlib.Path("path object.txt"), "sub/deep er/1 2 x.dat"]
    with scratch():
        for name, d, w in sets():
            stored = max([0] + [k[0] for k in d])
            dmaxs = [None] + sorted({0, 1, 2, max(stored - 1, 0), stored, stored + 1, stored + 3})
            omins = [None, 0, 1, 2, -1, -2, -stored - 2]
            if name.startswith("subset"):
                dmaxs, omins = [None, 2, 4], [None, -1]
            if stored > 50:
                dmaxs, omins = [None, 3, stored + 1], [None, 1, -1]
            for dmax, omin, header in itertools.product(dmaxs, omins, (None, True, False)):
                full = omin is None and header is not None and not name.startswith("subset")
                for t in targets if full else targets[:1]:
                    cid = "set=%s degree_max=%s order_min=%s header=%s target=%s" % (name, dmax, omin, header, t)
                    ck.step(3)
                    ck.case(cid, judge, ck, name, d, w, dmax, omin, header, t)
    ck.sample(dict(set="disjoint columns x3", degree_max=5, order_min=None, header=True))

    def header_fn():
        for n, L in itertools.product((1, 6, 496, 5151), (0, 2, 30, 100)):
            h = RW.create_swmf_header("name.dat", n, L)
            require(len(h) == 5 and h[0] == "name.dat", "header has %d lines", len(h))
            require(h[2].split() == [str(n), "1"] and h[3].split()[0] == str(L), "header lines are %s", h)
    ck.case("create_swmf_header", header_fn)
