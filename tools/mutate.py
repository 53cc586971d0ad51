#!/usr/bin/env python3
"""Small changes of the code under test, tried against the checks: those no check notices are listed for inspection.

    tools/mutate.py [-j N] [-o OUT] [-s STEP] FILE ...     files below starwinds_magnetogram; every STEP-th change of each

This is not part of any check: it shows where the checks are blind.
"""
import argparse, ast, concurrent.futures as cf, json, os, pathlib, queue, shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PKG = "starwinds_magnetogram"
CHECKS = {
    "coefficients.py": "C03 C02 C11 C25 C01 C07 C13 C19", "reader_writer.py": "C03 C02 C04 C05", "converter.py": "C11 C04 C12 C14 C19",
    "zdi_magnetogram.py": "C08 C23 C06 C07 C17 C21 C19", "associated_legendre.py": "C09 C06 C14 C08", "pfss_magnetogram.py": "C09 C10 C11 C19",
    "geometry.py": "C23 C16 C17 C15 C19", "longitudinal_field.py": "C17 C19", "parker_solution.py": "C18 C19",
    "coordinate_transforms.py": "C20 C10 C07", "fibonacci_sphere.py": "C25", "rotate.py": "C13 C19", "image_converter.py": "C15 C19",
    "plot_lsd.py": "C22", "plot_zdi.py": "C21", "plot_pfss.py": "C21", "plots.py": "C24 C21", "colorbar_manual_tickmarks.py": "C24 C21",
    "bin/convert_magnetogram.py": "C04 C05", "bin/plot_magnetogram.py": "C21", "bin/plot_lsd.py": "C22", "bin/generic_arguments.py": "C04 C05 C21 C22",
}
CMP = {ast.Lt: ("<=", ">="), ast.LtE: ("<", ">"), ast.Gt: (">=", "<="), ast.GtE: (">", "<"), ast.Eq: ("!=",), ast.NotEq: ("==",),
       ast.Is: ("is not",), ast.IsNot: ("is",), ast.In: ("not in",), ast.NotIn: ("in",)}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "//", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&"}
DROP = {"abs", "conj", "real", "copy", "atleast_1d", "asarray", "sqrt", "mean", "maximum", "sin", "cos", "sum", "real_if_close", "list", "tuple", "sorted", "float", "int", "squeeze", "ravel", "reshape", "transpose"}


def mutants(src):
    tree = ast.parse(src)
    starts = [0]
    for line in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    raw = src.encode()
    span = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*span(n))].decode()
    out = []

    def rep(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, raw[:a] + new.encode() + raw[b:]))

    def is_log(n):
        return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or text(n).startswith(("log.", "print(", "logging.")))

    skip = set()
    for n in ast.walk(tree):
        if is_log(n) or isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)):
            skip |= {id(k) for k in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                rep(n, f"({text(n.left)} {o} {text(n.comparators[0])})", "compare " + o)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr) | (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "operator " + BIN[type(n.op)])
            rep(n, f"({text(n.left)})", "left only")
            rep(n, f"({text(n.right)})", "right only")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
            rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "operator " + BIN[type(n.op)])
            rep(n, f"({text(n.right)})", "right only")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            rep(n, "(" + f" {o} ".join("(%s)" % text(v) for v in n.values) + ")", o)
            for i in range(len(n.values)):
                rep(n, "(" + (" and " if o == "or" else " or ").join("(%s)" % text(v) for k, v in enumerate(n.values) if k != i) + ")", "one less")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, f"({text(n.operand)})", "sign or not dropped")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, complex):
            for k in ({0: (1, -1), 1: (0, 2)}.get(n.value, (n.value + 1, n.value - 1)) if isinstance(n.value, int) else (n.value * 1.3 + .1, -n.value)):
                rep(n, f"({k!r})", f"constant {k!r}")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, repr(not n.value), "constant")
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            if name in DROP:
                if n.args:
                    rep(n, f"({text(n.args[0])})", f"{name} dropped")
                elif isinstance(n.func, ast.Attribute):
                    rep(n, f"({text(n.func.value)})", f"{name} dropped")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                args = [text(a) for a in n.args]
                args[:2] = args[1::-1]
                rep(n, text(n.func) + "(" + ", ".join(args + [text_kw(k, text) for k in n.keywords]) + ")", "arguments swapped")
            for i in range(len(n.keywords)):
                kws = [text_kw(k, text) for j, k in enumerate(n.keywords) if j != i]
                rep(n, text(n.func) + "(" + ", ".join([text(a) for a in n.args] + kws) + ")", f"without {n.keywords[i].arg}")
            swap = {"sin": "cos", "cos": "sin", "min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "real": "imag", "imag": "real", "zeros": "ones", "zeros_like": "ones_like", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "append": "insert", "nanmax": "nanmin"}
            if name in swap and isinstance(n.func, ast.Attribute):
                rep(n.func, f"{text(n.func.value)}.{swap[name]}", swap[name])
            elif name in swap:
                rep(n.func, swap[name], swap[name])
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if True")
            rep(n.test, "False", "if False")
        elif isinstance(n, ast.IfExp):
            rep(n, f"({text(n.body)})", "if True")
            rep(n, f"({text(n.orelse)})", "if False")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)):
            rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple):
            rep(n.value, ", ".join(text(e) for e in n.value.elts[::-1]), "reversed")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            rep(n, text(n.value), "slice dropped")
        elif isinstance(n, ast.For):
            rep(n.iter, f"list({text(n.iter)})[1:]", "first skipped")
            rep(n.iter, f"list({text(n.iter)})[:-1]", "last skipped")
    seen, res = {raw}, []
    for line, what, code in sorted(out, key=lambda o: o[:2]):
        if code not in seen:
            seen.add(code)
            try:
                compile(code, "x", "exec")
            except SyntaxError:
                continue
            res.append((line, what, code))
    return res


def text_kw(k, text):
    return f"{k.arg}={text(k.value)}" if k.arg else f"**{text(k.value)}"


def judge(f, line, what, code, slot):
    tree = slot / "repo"
    p = tree / PKG / f
    old = p.read_bytes()
    res = dict(file=f, line=line, what=what, old=old.decode().splitlines()[line - 1].strip(), new=code.decode().splitlines()[line - 1].strip())
    p.write_bytes(code)
    try:
        for c in CHECKS[f].split():
            pr = subprocess.Popen([str(slot / "verif" / "check.sh"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                                  env=dict(os.environ, MC_REPO=str(tree), MC_FAIL_FAST="1", MC_SHARDS="1", VERIF_TIER="quick", MPLCONFIGDIR=str(slot / "mpl"), TMPDIR=str(slot / "tmp")))
            try:
                out, _ = pr.communicate(timeout=700)
            except subprocess.TimeoutExpired:
                os.killpg(pr.pid, 9)
                pr.wait()
                res["caught"] = c + " (time)"
                break
            if "VIOLATION" in out or pr.returncode != 0:
                res["caught"] = c
                if "VIOLATION" not in out:
                    res["odd"] = out[-300:]
                break
    finally:
        p.write_bytes(old)
        for x in (slot / "tmp").iterdir():
            shutil.rmtree(x) if x.is_dir() else x.unlink()
    return res


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-j", type=int, default=8)
    a.add_argument("-o", default="/tmp/mutants.jsonl")
    a.add_argument("-s", type=int, default=1)
    a.add_argument("-n", action="store_true", help="only count")
    a.add_argument("files", nargs="*")
    a = a.parse_args()
    jobs = []
    for f in a.files or CHECKS:
        ms = mutants((pathlib.Path("/repo") / PKG / f).read_text())
        print(f, len(ms), flush=True)
        jobs += [(f,) + m for m in ms[::a.s]]
    if a.n:
        return
    root = pathlib.Path(tempfile.mkdtemp(prefix="mut_", dir="/tmp"))
    q = queue.Queue()
    try:
        for i in range(a.j):
            s = root / str(i)
            (s / "tmp").mkdir(parents=True)
            (s / "mpl").mkdir()
            subprocess.run(["cp", "-a", "/repo", str(s / "repo")], check=True)
            subprocess.run(["git", "clone", "-q", str(VERIF), str(s / "verif")], check=True)
            q.put(s)

        def run(j):
            s = q.get()
            try:
                r = judge(*j, s)
            except Exception as e:
                r = dict(file=j[0], line=j[1], what=j[2], error=repr(e))
            finally:
                q.put(s)
            with open(a.o, "a") as o:
                o.write(json.dumps(r) + "\n")
            if not r.get("caught"):
                print("SURVIVES %(file)s:%(line)s %(what)s | %(old)s  ->  %(new)s" % dict(dict(old="", new=""), **r), flush=True)
        with cf.ThreadPoolExecutor(a.j) as ex:
            list(ex.map(run, jobs))
    finally:
        shutil.rmtree(root)


main()
