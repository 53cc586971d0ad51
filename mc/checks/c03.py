"""C03: every sequence of lines up to a length, over an alphabet of line kinds, read by the package and by a model.

The model (mc.files.parse) is a two-state line automaton: ignore the line, or add it to the current set / start
the next. All sequences up to the bound are executed on the real reader (a breadth-first search over its histories),
with unix and dos line ends, with and without a final newline, and cut after every character for a sample file.
"""
import itertools
from mc.core import Mismatch, require, bound, scratch
from mc import files
from starwinds_magnetogram import reader_writer as RW

LEVEL = "model_checking"

LINES = {
    "a": "1 0 -2.5e+00  3.25",
    "b": "  2  1  1.5  -4",
    "c": "1\t1\t7\t8.5e-3",
    "a2": "1 0 100 200",
    "neg": "2 -1 5.0 6.0",
    "zero": "0 0 1 -1",
    "extra": "3 2 1 2 3 junk",
    "blank": "",
    "short": "1 0 2.0",
    "two": "4 2",
    "head": "General poloidal plus toroidal field",
    "count": "135 3 -3",
    "swmf": "0  0.0  -2  3  2",
    "floatl": "1.0 0 2.0 3.0",
    "floatm": "1 0.0 2.0 3.0",
    "word": "1 0 2.0 x",
    "comment": "# 1 0 2.0 3.0",
    "hashed": "#1 0 2.0 3.0",
    "accented": "\u03b5 Eridani, L\u00e9o",
    "gap": "1 1 1",
    "fortran": "1 0 1.0D+00 2.0",
    "plus": "+2 +2 +1. -.5",
    "bad": "1 2 3 4",
    "badneg": "2 -3 4 5",
    "negl": "-1 0 4 5",
    "big": "150 149 1e300 -1e-300",
    "spaces": "   \t ",
    "zeros": "02 00 0 0",
    "glued": "1 0 2.0 3.0#x",
    "remark": "2 2 1 1 # 1 0 5 5",
    "hash": "1# 0 2 3",
    "comma": "1, 0, 2.0, 3.0",
    "commas": "1,0,2.0,3.0",
    "semicolon": "2 2 1 2; 3",
    "expl": "1e0 0 2 3",
    "imaginary": "1 0 2.0 3.0j",
    "parentheses": "1 0 (2.0, 3.0)",
    "minus": "1 0 2.0 - 3.0",
    "exclaim": "! 1 0 2 3",
    "feed": "1 0 2\x0c3 ",
    "tabs": "\v2\t\t2 \v5 -5",
    "long": "2 0 1 2 3 4 5 6 7 8 9",
}
CORE = ["a", "b", "a2", "neg", "extra", "blank", "short", "head", "swmf", "floatl", "word", "bad"]


def judge(ck, text, fn="in.dat"):
    with open(fn, "w", newline="", encoding="utf-8") as f:
        f.write(text)
    try:
        p = files.parse(text)
        exp, width = files.columns(p), len(p)
    except files.BadLine:
        exp = None
    try:
        r = RW.read_magnetogram_file(fn)
    except Exception as e:
        if exp is None:
            ck.state("refused")
            return
        raise Mismatch("reading failed with %s: %s" % (type(e).__name__, e))
    if exp is None:
        # Refusing the file or ignoring the offending line are both fine; keeping it is not.
        p = files.parse(text, skip_bad=True)
        exp, width = files.columns(p), len(p)
    require(r.default_coefficients.shape == (width,), "the result has %s columns, expected %d", r.default_coefficients.shape, width)
    got = {k: tuple(map(complex, v)) for k, v in r.contents()}
    require(got == exp, "read %s, expected %s", got, exp)
    for k in exp:
        require(tuple(map(complex, r.get(*k))) == exp[k], "get%s differs", k)
    ck.state(width, tuple(sorted(exp.items())))


def run(ck):
    ck.rule = "a state is the (number of columns, entries) a file of the enumerated space denotes"
    with scratch():
        names = list(LINES)
        seqs = [()] + [(n,) for n in names] + list(itertools.product(names, repeat=2))
        seqs += list(itertools.product(bound(CORE, names), repeat=3))
        seqs += list(itertools.product(bound(["a", "b", "a2", "neg", "blank", "short", "floatl"], CORE), repeat=4))
        seqs += list(itertools.product(bound(["a", "b", "neg"], ["a", "b", "neg", "word", "zero"]), repeat=bound(6, 6)))
        for s in seqs:
            text = "\n".join(LINES[n] for n in s) + "\n"
            ck.step(len(s))
            ck.case("lines " + ",".join(s), judge, ck, text)
            if len(s) <= 2:
                ck.case("lines/crlf " + ",".join(s), judge, ck, text.replace("\n", "\r\n"))
                ck.case("lines/no newline " + ",".join(s), judge, ck, text[:-1])
                ck.case("lines/cr " + ",".join(s), judge, ck, text.replace("\n", "\r"))
        ck.sample(dict(lines=[LINES[n] for n in ("a", "b", "word", "a2", "neg")]))
        # whole files, cut at every line and every character
        for nsets, header, sep in itertools.product((1, 2, 3), (0, 1, 2), ("", None, "--")):
            d = [{(l, m): complex(10 * i + l, -m - .5) for l in range(1, 4) for m in range(l + 1)} for i in range(nsets)]
            h = [[], ["General poloidal plus toroidal field", "9 3 -3"],
                 RW.create_swmf_header("x.dat", 9, 3)][header]
            text = files.render(d, h, sep)
            cuts = range(len(text) + 1) if nsets <= bound(2, 3) and sep == "" else [i + 1 for i, ch in enumerate(text) if ch == "\n"]
            for i in cuts:
                ck.step()
                ck.case("cut sets=%d header=%d sep=%r at=%d" % (nsets, header, sep, i), judge, ck, text[:i])
        # sets of different sizes and orders of entries
        keys = [(1, 0), (1, 1), (2, 0)]
        for p in itertools.permutations(keys):
            for n in (1, 2, 3):
                for q in itertools.permutations(keys, n):
                    t = files.render([{k: complex(*k) for k in p}, {k: complex(9, k[1]) for k in q}, {k: 4j for k in p}])
                    ck.step()
                    ck.case("sets %s then %s" % (p, q), judge, ck, t)
        # many columns
        for n in (4, 5, 12):
            t = files.render([{k: complex(i, k[0]) for k in keys} for i in range(n)])
            ck.case("%d sets" % n, judge, ck, t)
