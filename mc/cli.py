"""Running the package's commands inside this process, in a scratch folder."""
import contextlib, io, logging, os, sys


def snapshot(root="."):
    """{path: contents} of everything below root (links by their target, folders as None)."""
    res = {}
    for d, dirs, fs in os.walk(root):
        for n in dirs:
            p = os.path.join(d, n)
            res[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else None
        for n in fs:
            p = os.path.join(d, n)
            if os.path.islink(p):
                res[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    res[os.path.relpath(p, root)] = f.read()
    return res


class Outcome:
    def __init__(self, error, out=""):
        self.error, self.out = error, out
    ok = property(lambda s: s.error is None)


@contextlib.contextmanager
def logs():
    """Logging is on, as for a user of a command, and goes nowhere; levels set inside are undone."""
    root, pkg = logging.getLogger(), logging.getLogger("starwinds_magnetogram")
    old = root.handlers[:], root.level, pkg.level, root.manager.disable
    root.handlers[:] = [logging.NullHandler()]
    logging.disable(logging.NOTSET)
    try:
        yield
    finally:
        root.handlers[:] = old[0]
        root.setLevel(old[1])
        pkg.setLevel(old[2])
        logging.disable(old[3])


def call(main, argv, prog="command"):
    """Run main() with the given arguments. An exception or a non-zero exit is an error outcome."""
    old = sys.argv
    sys.argv = [prog] + [str(a) for a in argv]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), logs():
            try:
                rc = main()
            except SystemExit as e:
                if e.code not in (None, 0):
                    return Outcome("exit %r" % (e.code,), buf.getvalue())
                return Outcome(None, buf.getvalue())
            except Exception as e:
                return Outcome("%s: %s" % (type(e).__name__, e), buf.getvalue())
        # console scripts do sys.exit(main())
        if rc not in (None, 0, False):
            return Outcome("returns %r" % (rc,), buf.getvalue())
        return Outcome(None, buf.getvalue())
    finally:
        sys.argv = old
