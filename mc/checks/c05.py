"""C05: exhaustive fault injection into the file operations of the conversion command.

Every open/read/write/close of every conversion is a fault point. First each configuration runs without a fault and
its sequence of file operations is recorded; then it is run again once per (operation, failure mode), and once per
pair of operations, in a fresh scratch folder. Failure modes: the operation fails before doing anything; a write is
torn in the middle and then fails; an unbuffered write is cut short (it writes half, says so and the disk is full from
then on); the process dies (that operation and every later one raises, and buffered output is lost).
Conversions that fail by themselves (unsuitable input or options) run with every kind of output name, too.
"""
import builtins, errno, io, itertools, os
from mc.core import Mismatch, require, bound, scratch
from mc import files, cli
from mc.checks import c04
from starwinds_magnetogram.bin import convert_magnetogram as CM

LEVEL = "fault_enumeration"


class Died(BaseException):
    """The process is gone at this point."""


class Faults:
    """Installs wrappers around the file operations on paths below the current folder."""

    RENAMES = ("rename", "replace", "remove", "unlink", "link", "symlink", "truncate", "mkdir")

    def __init__(self, plan=()):
        self.plan = dict(plan)      # index of the operation -> mode
        self.log = []               # operations seen
        self.dead = False
        self.full = False           # the disk is full
        self.fds = {}               # descriptors opened below the current folder: name, writing
        self.first_output = None    # index of the first operation that opens something for writing or changes names
        self.root = os.path.realpath(".")
        self.injected = 0

    def inside(self, path):
        try:
            return os.path.realpath(os.fspath(path)).startswith(self.root + os.sep)
        except TypeError:
            return False

    def point(self, what, output=False):
        if self.dead:
            raise Died(what)
        i = len(self.log)
        self.log.append(what)
        if output and self.first_output is None:
            self.first_output = i
        mode = self.plan.get(i)
        if mode is not None:
            self.injected += 1
            if mode == "die":
                self.dead = True
                raise Died(what)
        return mode

    def error(self, what):
        return OSError(errno.EIO, "injected failure", what)

    def __enter__(self):
        self.saved = builtins.open, io.open, os.open, {n: getattr(os, n) for n in self.RENAMES}, os.write, os.close
        real_open, _, real_osopen, real_os, real_write, real_close = self.saved

        def opener(file, mode="r", *a, **k):
            if isinstance(file, int) and file in self.fds:
                name, writing = self.fds[file]
                return FaultyFile(real_open(file, mode, *a, **k), self, name, writing)
            if not isinstance(file, (str, bytes, os.PathLike)) or not self.inside(file):
                return real_open(file, mode, *a, **k)
            writing = any(c in mode for c in "wax+")
            what = "open %s %s" % (os.path.basename(os.fspath(file)), mode)
            if self.point(what, writing):
                raise self.error(what)
            return FaultyFile(real_open(file, mode, *a, **k), self, os.path.basename(os.fspath(file)), writing)

        def osopen(path, flags, *a, **k):
            if not self.inside(path):
                return real_osopen(path, flags, *a, **k)
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR))
            what = "os.open %s" % os.path.basename(path)
            if self.point(what, writing):
                raise self.error(what)
            fd = real_osopen(path, flags, *a, **k)
            self.fds[fd] = os.path.basename(path), writing
            return fd

        def oswrite(fd, data):
            if fd not in self.fds:
                return real_write(fd, data)
            what = "write raw " + self.fds[fd][0]
            mode = self.point(what)
            if mode in ("torn", "short"):
                n = real_write(fd, bytes(data)[:len(data) // 2])
                self.full = mode == "short"
                if mode == "short":
                    return n
            if mode or self.full:
                raise self.error(what)
            return real_write(fd, data)

        def osclose(fd):
            self.fds.pop(fd, None)
            return real_close(fd)

        builtins.open = io.open = opener
        os.open, os.write, os.close = osopen, oswrite, osclose
        for n, f in real_os.items():
            def wrapped(*a, _n=n, _f=f, **k):
                if not (a and isinstance(a[0], (str, os.PathLike)) and self.inside(a[0])):
                    return _f(*a, **k)
                if self.point("os." + _n, True):
                    raise self.error("os." + _n)
                return _f(*a, **k)
            setattr(os, n, wrapped)
        return self

    def __exit__(self, *a):
        builtins.open, io.open, os.open = self.saved[:3]
        os.write, os.close = self.saved[4:]
        for n, f in self.saved[3].items():
            setattr(os, n, f)


class FaultyFile:
    def __init__(self, f, faults, name, writing):
        self.__dict__.update(_f=f, _x=faults, _n=name, _w=writing, _closed=False, _pending=[])

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def _read(self, op, *a):
        if self._x.point("%s %s" % (op, self._n)):
            raise self._x.error(op)
        return getattr(self._f, op)(*a)

    def read(self, *a):
        return self._read("read", *a)

    def readline(self, *a):
        return self._read("readline", *a)

    def readlines(self, *a):
        return self._read("readlines", *a)

    def __iter__(self):
        return self

    def __next__(self):
        return self._read("__next__")

    # Output is kept back until flush or close, as a buffered file does: it is lost when the process dies.
    def write(self, s):
        raw = isinstance(self._f, io.RawIOBase)
        mode = self._x.point(("write raw " if raw else "write ") + self._n)
        if mode == "short" or self._x.full:
            if self._x.full:
                raise self._x.error("write")
            self._x.full = True
            return self._f.write(s[:len(s) // 2])
        if raw and not mode:
            return self._f.write(s)
        if mode:
            if mode == "torn":
                self._f.write("".join(self._pending) + s[:len(s) // 2] if isinstance(s, str) else b"".join(self._pending) + s[:len(s) // 2])
                self._f.flush()
                self._pending.clear()
            raise self._x.error("write")
        self._pending.append(s)
        return len(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def _drain(self):
        for s in self._pending:
            self._f.write(s)
        self._pending.clear()

    def flush(self):
        if self._x.point("flush " + self._n):
            raise self._x.error("flush")
        self._drain()
        self._f.flush()

    def truncate(self, *a):
        if self._x.point("truncate " + self._n):
            raise self._x.error("truncate")
        self._drain()
        return self._f.truncate(*a)

    def seek(self, *a):
        self._drain()
        return self._f.seek(*a)

    def close(self):
        if self._closed:
            return
        self.__dict__["_closed"] = True
        try:
            mode = self._x.point("close " + self._n)
        except Died:
            self._f.close()
            raise
        if mode:
            if mode == "torn" and self._pending:
                s = self._pending[0]
                self._f.write(s[:len(s) // 2])
            self._f.close()
            raise self._x.error("close")
        self._drain()
        self._f.close()

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, et, ev, tb):
        self.close()
        return False

    def __del__(self):
        try:
            self._f.close()
        except Exception:
            pass


SETS3 = [{k: complex(i + k[0], -k[1] - .5) for k in [(1, 0), (1, 1), (2, 0), (2, 2)]} for i in range(3)]
OLD = "previous contents of the output\n" * 20

# relation of the output name to the input: how the scratch folder is laid out, the arguments, the file written
# (None: the conversion must be refused)


def layout(relation, inname, post):
    """(output arguments, file that may change)"""
    base, ext = os.path.splitext(os.path.basename(inname))
    default = base + post + ext
    if relation == "new":
        return ["out.dat"], "out.dat"
    if relation == "existing":
        open("out.dat", "w").write(OLD)
        return ["out.dat"], "out.dat"
    if relation == "default":
        return [], default
    if relation == "default exists":
        open(default, "w").write(OLD)
        return [], None
    if relation == "default exists, empty":
        open(default, "w").close()
        return [], None
    if relation == "default is input link":
        os.symlink(inname, default)
        return [], None
    if relation == "default is hard link":
        os.link(inname, default)
        return [], None
    if relation == "default is a folder":
        os.mkdir(default)
        return [], None
    if relation == "same":
        return [inname], None
    if relation == "relative":
        return [os.path.join(".", inname)], None
    if relation == "parent":
        os.mkdir("dir")
        return [os.path.join("dir", "..", inname)], None
    if relation == "double slash":
        return [".//" + inname], None
    if relation == "absolute":
        return [os.path.abspath(inname)], None
    if relation == "symlink":
        os.symlink(inname, "alias.dat")
        return ["alias.dat"], None
    if relation == "symlink chain":
        os.symlink(inname, "alias0.dat")
        os.symlink("alias0.dat", "alias.dat")
        return ["alias.dat"], None
    if relation == "folder symlink":
        os.symlink(".", "here")
        return ["here/" + inname], None
    if relation == "hard link":
        os.link(inname, "alias.dat")
        return ["alias.dat"], None
    if relation == "link to other":
        open("other.dat", "w").write(OLD)
        os.symlink("other.dat", "out.dat")
        return ["out.dat"], "other.dat"
    if relation == "folder":
        os.mkdir("out.dat")
        return ["out.dat"], None
    if relation == "missing folder":
        return ["nowhere/out.dat"], None
    if relation == "similar name":
        open(inname + "x", "w").write(OLD)
        return [inname + "x"], inname + "x"
    if relation == "case differs":
        return [inname.swapcase()], inname.swapcase()
    raise KeyError(relation)


RELATIONS = ["new", "existing", "default", "default exists", "default exists, empty", "default is input link", "default is hard link", "default is a folder",
             "same", "relative", "parent", "double slash", "absolute", "symlink", "symlink chain", "folder symlink", "hard link",
             "link to other", "folder", "missing folder", "similar name", "case differs"]
INPUTS = ["file", "symlink", "hard link", "in folder"]
DIRECTIONS = {"forward": ([], "_wso"), "back": (["--pfss-to-zdi"], "_zdi"), "none": (["--no-conversion"], "_wso")}


def execute(direction, relation, inkind, extra, plan):
    """One run in the current (fresh) folder. Returns outcome, faults, snapshots, the name written, the input's name."""
    sets = SETS3 if direction == "forward" else SETS3[:1]
    content = files.render(sets)
    inname = "in.dat"
    if inkind == "in folder":
        os.mkdir("data")
        inname = "data/in.dat"
    if inkind == "symlink":
        os.mkdir("data")
        open("data/real.dat", "w").write(content)
        os.symlink("data/real.dat", inname)
    elif inkind == "hard link":
        open("real.dat", "w").write(content)
        os.link("real.dat", inname)
    else:
        open(inname, "w").write(content)
    open("bystander.dat", "w").write("1 0 1 1\n")
    dflags, post = DIRECTIONS[direction]
    outargs, target = layout(relation, inname, post)
    before = cli.snapshot()
    died = False
    with Faults(plan) as x:
        try:
            o = cli.call(CM.main, [inname] + outargs + dflags + extra)
        except Died:
            died = True
            o = cli.Outcome("died")
    after = cli.snapshot()
    return o, x, before, after, target, died, sets


def judge(ck, direction, relation, inkind, extra, plan, log=None):
    with scratch():
        o, x, before, after, target, died, sets = execute(direction, relation, inkind, extra, plan)
        if log is not None:
            n = max(plan) + 1
            require(x.log[:n] == log[:n], "the run diverged before the fault: %s / %s", x.log, log)
        changed = [k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)]
        for k in before:
            require(k in after, "%s has disappeared", k)
            if k.endswith("in.dat") or k.endswith("real.dat"):
                require(after[k] == before[k], "the input %s was damaged (%r)", k, after[k] and after[k][:60])
        if not plan:
            if target is None:
                require(not o.ok, "the conversion was not refused")
                require(not changed, "a refused conversion changed %s", changed)
            else:
                require(o.ok, "the conversion failed: %s", o.error)
                require(changed == [target], "the conversion changed %s, expected %s", changed, target)
                complete(after[target], sets, direction, extra)
            return x.log
        # with faults
        if target is None:
            require(not changed, "a refused conversion changed %s", changed)
        names = [k for k in changed if k != target]
        leftover = [k for k in names if k not in before]
        require([k for k in names if k not in leftover] == [], "files changed: %s", names)
        require(not o.ok, "operation %s failed, and the conversion reported success", [x.log[i] for i in plan if i < len(x.log)])
        if target in before and (x.first_output is None or min(plan) <= x.first_output):
            require(after[target] == before[target], "a failure before output began changed the existing output")
        return x.log


def complete(data, sets, direction, extra):
    got = files.parse(data.decode())
    exp = c04.expected(files.columns(sets), len(sets), direction)
    ow = 3 if direction == "back" else 1
    lim = int(extra[extra.index("--degree-max") + 1]) if "--degree-max" in extra else 2
    keys = [(l, m) for l in range(lim + 1) for m in range(l + 1)]
    require(len(got) == ow, "the output holds %d sets", len(got))
    for i, s in enumerate(got):
        require(sorted(s) == keys, "the output is incomplete: %s", sorted(s))
        for k in keys:
            e = exp.get(k, (0j,) * ow)[i]
            require(e is None or c04.cclose(s[k], complex(e)), "entry %s is %s, expected %s", k, s[k], e)


MODES = ("fail", "torn", "short", "die")


def explore(ck, conf, args, plan, log, more):
    """Every way of adding up to `more` faults after those of plan (log: the operations of the run with plan)."""
    for i in range(max(plan, default=-1) + 1, len(log)):
        for mode in MODES:
            if mode == "torn" and not log[i].startswith(("write", "close")):
                continue
            if mode == "short" and not log[i].startswith("write raw"):
                continue
            p = dict(plan)
            p[i] = mode
            ck.step()
            ck.state(conf, sorted(p.items()))
            box = []
            cid = "%s faults=%s" % (conf, ",".join("%d:%s(%s)" % (k, v, log[k]) for k, v in sorted(p.items())))
            ck.case(cid, lambda: box.append(judge(ck, *args, p, log)))
            if more > 1 and mode != "die":
                if not box:
                    try:
                        box.append(judge(ck, *args, p, log))
                    except Exception:
                        continue
                explore(ck, conf, args, p, box[0], more - 1)


def run(ck):
    ck.rule = "a case is one run of the command with one set of failing operations; distinct by (configuration, failing operations and modes)"
    longest = 0
    for direction, relation, inkind in itertools.product(DIRECTIONS, RELATIONS, INPUTS):
        if relation == "case differs" and inkind == "in folder":
            continue
        extras = [[], ["--no-header", "--degree-max", "3"]] if inkind == "file" else [[]]
        for extra in extras:
            conf = "direction=%s output=%s input=%s %s" % (direction, relation, inkind, " ".join(extra))
            box = []
            ck.step()
            ck.case(conf, lambda: box.append(judge(ck, direction, relation, inkind, extra, {})))
            if not box:
                # replaying one fault case: record the fault-free log silently
                try:
                    box.append(judge(ck, direction, relation, inkind, extra, {}))
                except Exception:
                    continue
            log = box[0]
            ck.state(conf)
            longest = max(longest, len(log))
            ck.sample(dict(configuration=conf, operations=log[:12]))
            explore(ck, conf, (direction, relation, inkind, extra), {}, log,
                    bound(2, 3) if inkind == "file" and relation in ("existing", "default", "same", "hard link") else bound(1, 2))
    ck.extra["longest_operation_log"] = longest
    unsuitable(ck)


BAD = {      # contents of the input, options
    "degree below zero": (files.render(SETS3[:1]), ["--degree-max", "-1"]),
    "degree far below zero": (files.render(SETS3), ["--degree-max", "-7", "--no-header"]),
    "three sets where one is expected": (files.render(SETS3), None),
    "order beyond degree": ("h\n1 0 1 1\n1 2 3 4\n", []),
    "order below minus degree": ("h\n1 0 1 1\n2 -3 3 4\n", []),
    "missing": (None, []),
    "a folder": ("folder", []),
    "degree not a number": (files.render(SETS3[:1]), ["--degree-max", "two"]),
    "unknown option": (files.render(SETS3[:1]), ["--no-such-option"]),
}


def unsuitable(ck):
    """Conversions that fail by themselves, before output begins: every file stays as it is, and no success is reported."""
    for direction, relation, (name, (content, extra)) in itertools.product(
            DIRECTIONS, ("new", "existing", "default", "default exists", "link to other", "similar name"), BAD.items()):
        if extra is None and direction == "forward":
            continue

        def one():
            with scratch():
                if content == "folder":
                    os.mkdir("in.dat")
                elif content is not None:
                    with open("in.dat", "wb" if isinstance(content, bytes) else "w") as f:
                        f.write(content)
                flags, post = DIRECTIONS[direction]
                outargs, target = layout(relation, "in.dat", post)
                before = cli.snapshot()
                with Faults() as x:
                    o = cli.call(CM.main, ["in.dat"] + outargs + flags + (extra or []))
                after = cli.snapshot()
                require(not o.ok, "the conversion was not refused")
                changed = [k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)]
                require(not changed, "a refused conversion changed %s", changed)
        ck.step()
        ck.state("unsuitable", direction, relation, name)
        ck.case("unsuitable %s direction=%s output=%s" % (name, direction, relation), one)
