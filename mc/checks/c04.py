"""C04: the conversion command under every option combination, against an independent scaling of a parsed file."""
import itertools, math, os, subprocess, sys
from mc.core import Mismatch, require, bound, scratch, REPO
from mc import files, ref, cli
from starwinds_magnetogram.bin import convert_magnetogram as CM

LEVEL = "model_checking"
SHARDS = 8


def close(a, b):
    """b rounded to six decimals of its exponential form."""
    return abs(a - b) <= 5.1e-7 * abs(b) * 1.0000001 + 1e-320


def cclose(a, b):
    return close(a.real, b.real) and close(a.imag, b.imag)


def expected(cols, width, direction):
    """{(l, m): row} the output must hold for non-negative orders, or None when the input does not suit."""
    if direction != "forward" and width != 1:
        return None
    out = {}
    for (l, m), row in cols.items():
        f = ref.schmidt_factor(l, m)
        if direction == "forward":
            out[l, m] = (row[0] * f,)
        elif direction == "none":
            out[l, m] = row
        else:
            a = row[0] / f
            q = 2.5 ** -(2 * l + 1)
            b = a * (l + 1) * (1 - q) / (l + 1 + l * q)
            out[l, m] = (a, b if l else None, 0j)
    return out


def inputs():
    def val(i, l, m):
        return complex((-1) ** (l + i) * (1.25 * l + m + 10 * i + .375), .5 * m - l * i * .75 - .125)

    def sets(n, keys):
        return [{k: val(i, *k) for k in keys} for i in range(n)]
    dense = [(l, m) for l in range(1, 4) for m in range(l + 1)]
    for n in (1, 3):
        yield "dense3 x%d" % n, sets(n, dense)
        yield "l0 dense2 x%d" % n, sets(n, [(l, m) for l in range(3) for m in range(l + 1)])
        yield "sparse x%d" % n, sets(n, [(3, 1), (1, 1), (5, 0), (2, 2)])
        yield "unsorted x%d" % n, sets(n, dense[::-1])
        yield "single x%d" % n, sets(n, [(2, 1)])
        yield "degree 12 x%d" % n, sets(n, [(l, m) for l in range(1, 13) for m in range(l + 1)])
    yield "extreme x1", [{(1, 0): 1e-30 + 1e30j, (1, 1): complex(-0.0, 5e-10), (2, 2): 0j, (3, 3): 123456.789 - 1e100j, (3, 2): -7j}]
    yield "extreme x3", [{(1, 0): 1e-30 + 1e30j, (1, 1): 0j}, {(1, 0): 0j, (1, 1): 1}, {(1, 0): 1j, (1, 1): -1e9}]
    yield "two columns x2", sets(2, dense)
    yield "four columns x4", sets(4, dense)
    yield "six columns x6", sets(6, dense)
    yield "columns differ x3", [{(1, 0): 1j, (2, 0): 2j}, {(1, 0): 3, (1, 1): 4}, {(1, 0): 1}]
    yield "degree 45 x1", sets(1, [(45, 45), (45, 0), (44, 3), (1, 0)])


DIRECTIONS = {"forward": [], "back": ["--pfss-to-zdi"], "none": ["--no-conversion"], "none ": ["--no-conversion", "--pfss-to-zdi"]}
INPUT_NAMES = ["in.dat", "sub/a b.txt", "noext", "two.dots.dat", "sub/.hidden"]
MORE_NAMES = ["Star_V1.DAT", "star_wso.dat", "star_zdi.dat", "sub/star_WSO", "sub/v1.2/noext", "ends.", "sub/UPPER.Txt"]


def judge(ck, name, sets, swmf, direction, dmax, noheader, outmode, inname, flags=()):
    direction, dflags = direction.strip(), DIRECTIONS[direction]
    width, cols = len(sets), files.columns(sets)
    os.makedirs("sub/v1.2", exist_ok=True)
    os.makedirs("out", exist_ok=True)
    header = ["in.dat", "0 0.0 -2 3 2", "9 1", "3 2077 0.0", "n m g h nOrder CR dLon"] if swmf else ["General field", "9 3 -3"]
    with open(inname, "w") as f:
        f.write(files.render(sets, header))
    with open("unrelated.dat", "w") as f:
        f.write("other")
    post = "_zdi" if direction == "back" else "_wso"
    base, ext = os.path.splitext(os.path.basename(inname))
    if outmode in ("default", "default exists"):
        out, outarg = base + post + ext, []
    else:
        out = "out/result.dat" if outmode == "subfolder" else "result.dat"
        outarg = [os.path.abspath(out) if outmode == "absolute" else out]
    if outmode in ("default exists", "existing"):
        with open(out, "w") as f:
            f.write("existing contents\n" * 400)
    args = [os.path.abspath(inname) if outmode == "absolute" else inname] + outarg + dflags + list(flags)
    if dmax is not None:
        args += ["--degree-max", str(dmax)]
    if noheader:
        args += ["--no-header"]
    if len(args) % 2:                       # options first or last
        args = args[1 + len(outarg):] + args[:1 + len(outarg)]
    before = cli.snapshot()
    o = cli.call(CM.main, args)
    after = cli.snapshot()
    exp = expected(cols, width, direction)
    if outmode == "default exists":
        exp = None
    if exp is None:
        require(not o.ok, "%s was accepted", args)
        require(after == before, "a refused conversion changed files: %s", [k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0)])
        ck.state("refused", direction, outmode, width)
        return
    require(o.ok, "%s failed: %s %s", args, o.error, o.out[-200:])
    changed = [k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0)]
    require(changed == [out], "the conversion changed %s, expected %s", changed, out)
    text = after[out].decode()
    head, _ = files.split_header(text)
    lim = max(k[0] for k in cols) if dmax is None else dmax
    want_header = not noheader and direction != "back"
    is_swmf = any(h.split()[:4] == ["n", "m", "g", "h"] for h in head)
    require(is_swmf == want_header, "SWMF header %s", "missing" if want_header else "written although it does not apply")
    keys = [(l, m) for l in range(lim + 1) for m in range(l + 1)]
    if want_header:
        require(len(head) == 5 and head[2].split()[0] == str(len(keys)) and head[3].split()[0] == str(lim), "wrong header %s", head)
    got = files.parse(text)
    ow = 3 if direction == "back" else 1
    require(len(got) == ow, "the output has %d sets of coefficients, expected %d", len(got), ow)
    for i, s in enumerate(got):
        require(list(s) == keys, "set %d of the output lists %s, expected %s", i, list(s)[:9], keys[:9])
        for k in keys:
            e = exp.get(k, (0j,) * ow)[i]
            if e is not None:
                require(cclose(s[k], complex(e)), "%s: entry %s of set %d is %s, expected %s", args, k, i, s[k], e)
    ck.state(name, swmf, direction, dmax, noheader, outmode, inname)


def run(ck):
    ck.rule = "a state is one (input, direction, degree limit, header, output naming, input name) run of the command"

    def one(*a):
        with scratch():
            judge(ck, *a)
    for name, sets in inputs():
        stored = max(l for s in sets for l, m in s)
        dmaxs = [None, 0, 1, stored, stored + 3]
        for direction, dmax, noheader, outmode in itertools.product(DIRECTIONS, dmaxs, (False, True),
                                                                      ("named", "default", "existing", "subfolder", "absolute", "default exists")):
            cid = "input=%s direction=%s degree_max=%s no_header=%s output=%s" % (name, direction, dmax, noheader, outmode)
            ck.step()
            ck.case(cid, one, name, sets, False, direction, dmax, noheader, outmode, "in.dat")
        for direction, inname, outmode, swmf in itertools.product(DIRECTIONS, INPUT_NAMES + (MORE_NAMES if name.startswith("sparse") else []), ("default", "absolute", "default exists"), (False, True)):
            ck.step()
            ck.case("input=%s direction=%s output=%s input_name=%s swmf_input=%s" % (name, direction, outmode, inname, swmf),
                    one, name, sets, swmf, direction, None, False, outmode, inname)
        for flags in (["-q"], ["-v"], ["--quiet"], ["--verbose"]):
            ck.step()
            ck.case("input=%s flags=%s" % (name, flags), one, name, sets, False, "forward", 2, False, "default", "in.dat", flags)
        if bound(0, 1):
            for dmax in range(0, stored + 4):
                for direction, nh in itertools.product(DIRECTIONS, (False, True)):
                    ck.step()
                    ck.case("input=%s direction=%s degree_max=%d nh=%d all" % (name, direction, dmax, nh), one, name, sets, True,
                            direction, dmax, nh, "named", "in.dat")
    ck.sample(dict(command="in.dat --pfss-to-zdi --degree-max 6", input="sparse x1"))

    def information():
        """Asking for help or the version converts and writes nothing, whatever else is given."""
        with scratch():
            open("in.dat", "w").write(files.render([{(1, 0): 1j}]))
            before = cli.snapshot()
            for flag in ("--version", "-h", "--help"):
                for a in ([flag], ["in.dat", "out.dat", flag], [flag, "in.dat"]):
                    o = cli.call(CM.main, a)
                    require(o.ok and o.out.strip(), "%s ends with %s and prints %r", a, o.error, o.out)
                    require(cli.snapshot() == before, "%s changed the files", a)
    ck.step()
    ck.case("help and version", information)

    def unreadable():
        with scratch():
            os.mkdir("folder")
            open("binary.dat", "wb").write(bytes(range(128, 256)) * 9)
            open("bad.dat", "w").write("1 2 3 4\n")
            before = cli.snapshot()
            for a in (["missing.dat"], ["folder"], ["binary.dat"], ["bad.dat"], [], ["missing.dat", "x.dat", "--no-conversion"],
                      ["--nonsense", "in.dat"], ["bad.dat", "--degree-max", "two"]):
                for d in DIRECTIONS.values():
                    o = cli.call(CM.main, a + d)
                    require(not o.ok, "%s was accepted", a + d)
                    require(cli.snapshot() == before, "a refused conversion wrote files")
                    ck.step()
    ck.case("unsuitable input", unreadable)

    def subprocess_runs():
        """The real command as a process: exit status and output."""
        sets = dict(inputs())
        with scratch():
            open("in.dat", "w").write(files.render(sets["dense3 x3"]))
            open("one.dat", "w").write(files.render(sets["dense3 x1"]))
            for args, ok in ((["in.dat"], True), (["in.dat", "--pfss-to-zdi"], False), (["one.dat", "b.dat", "--pfss-to-zdi"], True),
                             (["in.dat", "in.dat"], False)):
                p = subprocess.run([sys.executable, "-m", "starwinds_magnetogram.bin.convert_magnetogram"] + args,
                                   env=dict(os.environ, PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                require((p.returncode == 0) == ok, "%s: exit status %s: %s", args, p.returncode, p.stdout[-300:])
                ck.step()
    ck.case("as a process", subprocess_runs)
