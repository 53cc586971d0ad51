"""Shared machinery of the checks: case bookkeeping, exploration, reporting, evidence.

Every check is a program that enumerates a bounded space completely, drives the real package in /repo through
every element, and compares what it observes with an independent reference model (mc/ref.py or a model inside
the check). A *case* is one element of that space (an operation history, an option combination, an input shape,
a fault position); it is judged by a function that raises Mismatch.
"""
import os, sys, json, pickle, time, traceback, hashlib, signal, collections, itertools, contextlib, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ONLY = os.environ.get("MC_ONLY")          # replay: judge this case only
THOROUGH = TIER == "thorough"

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def bound(quick, thorough):
    return thorough if THOROUGH else quick


class Mismatch(Exception):
    """The real code disagrees with the property."""


def require(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def _known_findings():
    """{(property, key): text} of the committed known findings."""
    res = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    tok = line[len("known: "):].split(None, 2)
                    d = dict(t.split("=", 1) for t in tok[:2])
                    res[(d["property"], d["key"])] = tok[2] if len(tok) > 2 else ""
    except FileNotFoundError:
        pass
    return res


class Check:
    MAX_REPORTED = 20

    def __init__(self, pid, level="model_checking", limit_s=None):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.extra = {}
        self.assumptions = []
        self.exhaustive = True
        self.rule = ""
        self._known = _known_findings()
        signal.signal(signal.SIGALRM, self._alarm)
        signal.alarm(int(limit_s or (840 if not THOROUGH else 6 * 3600)))
        self._current = None
        self.shard, self.shards = 0, 1      # see run_sharded
        self._index = 0
        self._judging = False

    # -- bookkeeping ------------------------------------------------------------------------------
    def state(self, *key):
        """Count a distinct state (hash of a canonical description)."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=12).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        if self._judging or self.shard == 0:     # steps of the enumeration itself are the same in every worker
            self.transitions += n

    def sample(self, obj, every=None):
        if len(self.samples) < 6:
            self.samples.append(obj)

    # -- judging ----------------------------------------------------------------------------------
    def case(self, cid, fn, *args, known=None, replay=None):
        """Judge one case: fn raises Mismatch (or anything else) when the property fails on it.

        known: key under which this very case may be listed in known_findings.txt.
        """
        if ONLY is not None and cid != ONLY:
            return True
        self._index += 1
        if self._index % self.shards != self.shard:
            return True
        self.cases += 1
        self._current = cid
        self._judging = True
        try:
            fn(*args)
            ok = True
        except (KeyboardInterrupt, SystemExit) as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            ok = False
            msg = "the code called sys.exit(%r)" % (e.code,)
            tb = traceback.format_exc()
        except Mismatch as e:
            ok, msg, tb = False, str(e), traceback.format_exc()
        except BaseException as e:
            ok, msg, tb = False, "unexpected %s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc()
        self._current = None
        self._judging = False
        self.traces += 1
        if ok:
            return True
        self.fail(cid, msg, tb, known=known, replay=replay)
        return False

    def fail(self, cid, msg, tb="", known=None, replay=None):
        if callable(known):
            known = known()
        if known is not None and (self.pid, known) in self._known:
            self.known_hit.setdefault(known, 0)
            self.known_hit[known] += 1
            return
        if len(self.violations) >= self.MAX_REPORTED:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        n = sum(v is not None for v in self.violations)
        path = os.path.join(d, "%s-%s%d.json" % (self.pid, "%d-" % self.shard if self.shards > 1 else "", n))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, case=cid, tier=TIER, message=msg, detail=_jsonable(replay), traceback=tb,
                           rerun="cd %s && ./check.sh --replay %s" % (VERIF, path)), f, indent=1)
        self.violations.append(path)
        print("  case %s: %s" % (cid, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        if os.environ.get("MC_FAIL_FAST"):      # for tools/mutate.py: the first violation is enough
            os.killpg(0, signal.SIGKILL)

    def too_many(self):
        return len(self.violations) >= self.MAX_REPORTED

    def _alarm(self, *_):
        print("time limit reached in case %s" % self._current)
        self.fail(self._current or "?", "the case did not finish within the time limit (possible endless loop)")
        self.exhaustive = False
        self.finish()
        os._exit(1)

    # -- several processes ------------------------------------------------------------------------
    SHARED = ("states", "transitions", "traces", "cases", "samples", "violations", "known_hit", "extra", "exhaustive", "rule", "assumptions")

    def results(self):
        return {k: getattr(self, k) for k in self.SHARED}

    def merge(self, res):
        self.states |= res["states"]
        for k in ("transitions", "traces", "cases"):
            setattr(self, k, getattr(self, k) + res[k])
        self.violations += res["violations"]
        for k, n in res["known_hit"].items():
            self.known_hit[k] = self.known_hit.get(k, 0) + n
        self.exhaustive = self.exhaustive and res["exhaustive"]
        self.samples = self.samples or res["samples"]
        self.rule = self.rule or res["rule"]
        self.assumptions = self.assumptions or res["assumptions"]
        for k, v in res["extra"].items():
            self.extra.setdefault(k, v)

    # -- end --------------------------------------------------------------------------------------
    _pipe = None

    def finish(self):
        signal.alarm(0)
        if self._pipe is not None:      # a worker hands its results to its parent
            with os.fdopen(self._pipe, "wb") as f:
                pickle.dump(self.results(), f)
            return 1 if self.violations else 0
        if self.level in ("exploration", "fault_enumeration"):
            cov = dict(evaluations=self.cases, distinct_nontrivial=len(self.states))
            if self.transitions not in (self.cases, 0):
                cov["calls_judged"] = self.transitions
        else:
            cov = dict(states=len(self.states), transitions=self.transitions, traces_validated_against_impl=self.traces)
        cov.update(samples=self.samples or ["(none)"], exhaustive=bool(self.exhaustive), rule=self.rule)
        cov.update(self.extra)
        if self.known_hit:
            cov["known_findings"] = list(self.known_hit)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=_jsonable(cov), assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, self._known[(self.pid, k)]))
        print("%s %s: cases=%d states=%d transitions=%d violations=%d %.1fs" % (
            self.pid, TIER, self.cases, len(self.states), self.transitions, len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def _jsonable(o):
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o if not isinstance(o, float) or o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, complex):
        return repr(o)
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return repr(o.tolist()) if o.size < 200 else "array%s" % (o.shape,)
        if isinstance(o, np.generic):
            return _jsonable(o.item())
    except ImportError:
        pass
    return repr(o)


def bfs(ck, initial, ops, build, canon, max_depth, judge):
    """Explicit-state search over operation histories.

    A state is the history that reaches it; build(history) recreates the real and the model object from scratch,
    canon(model) is the canonical form, judge(history, real, model) raises on a mismatch. Histories are
    extended only from states not seen before at the same or a smaller depth.
    """
    seen = {}
    frontier = collections.deque()
    for h in initial:
        frontier.append((h, 0))
    while frontier and not ck.too_many():
        hist, depth = frontier.popleft()
        k = ck_one(ck, hist, build, judge, canon)
        if k is None:
            continue
        if k in seen:
            continue
        seen[k] = depth
        ck.state(k)
        if depth >= max_depth:
            continue
        for op in ops:
            frontier.append((hist + (op,), depth + 1))
    return seen


def ck_one(ck, hist, build, judge, canon):
    box = {}

    def run():
        real, model = build(hist)
        box["k"] = canon(model)
        judge(hist, real, model)
    ck.step()
    cid = "/".join(map(str, hist))
    if ONLY is not None and cid != ONLY:
        try:
            box["k"] = canon(build(hist)[1])
        except Exception:
            pass
        return box.get("k")
    ok = ck.case(cid, run, replay=dict(history=[str(h) for h in hist]))
    return box.get("k") if ok else None


@contextlib.contextmanager
def scratch():
    """A scratch folder, entered as the current folder and removed afterwards."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="mc_")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def quiet():
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")


def package_origin():
    import starwinds_magnetogram
    f = os.path.realpath(starwinds_magnetogram.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("package comes from %s, not from %s" % (f, REPO))


def run_sharded(ck, run, n):
    """Judge the cases of run in n processes, which all walk the same enumeration and take every n-th case each."""
    sys.stdout.flush()
    workers = []
    for i in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            ck.shard, ck.shards, ck._pipe = i, n, wr
            signal.alarm(int(840 if not THOROUGH else 6 * 3600))
            guarded(ck, run)
            ck.finish()
            sys.stdout.flush()
            os._exit(0)
        os.close(wr)
        workers.append((pid, rd))
    for pid, rd in workers:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            ck.merge(pickle.loads(data))
        else:
            ck.exhaustive = False
            ck.fail("(worker)", "a process judging the cases died")


def main(run, pid, level="model_checking", shards=1):
    quiet()
    package_origin()
    ck = Check(pid, level)
    shards = min(shards, os.cpu_count() or 1, int(os.environ.get("MC_SHARDS") or 99))
    if shards > 1 and ONLY is None:
        signal.alarm(0)
        run_sharded(ck, run, shards)
    else:
        guarded(ck, run)
    rc = ck.finish()
    sys.stdout.flush()
    os._exit(rc)


def guarded(ck, run):
    try:
        run(ck)
    except Exception:
        # Nothing in a check is expected to raise outside a case: if it does, the code under test has
        # broken an assumption the whole enumeration rests on.
        ck.exhaustive = False
        ck.fail("(enumeration)", "the enumeration could not be completed: %s" % traceback.format_exc()[-600:],
                traceback.format_exc())
