#!/usr/bin/env python3
"""Write seeded/<id>/ from bug_defs.py and try each planted bug in a scratch copy of /repo.

    tools/plant.py [-t] [-j N] [ID ...]     -t: also run the repository's stable tests
"""
import argparse, concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys, tempfile

sys.dont_write_bytecode = True
from bug_defs import BUGS

VERIF = pathlib.Path(__file__).resolve().parent.parent
OUT = pathlib.Path("/tmp/bugres")


def sh(cmd, cwd=None, env=None, timeout=1800):
    e = dict(os.environ, **(env or {}))
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def demo_files(id_, b):
    d = VERIF / "seeded" / id_
    d.mkdir(parents=True, exist_ok=True)
    (d / "demo.py").write_text(b["demo"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                               'PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    (d / "demo.sh").chmod(0o755)
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"],
                                             "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    return d


def one(id_, tests, cpus):
    b = BUGS[id_]
    d = demo_files(id_, b)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="bug_", dir="/tmp"))
    tree = tmp / "repo"
    res = {"id": id_, "property": b["property"]}
    try:
        sh(["cp", "-a", "/repo", str(tree)])
        for f, old, new in b["edits"]:
            p = tree / f
            s = p.read_text()
            if s.count(old) != 1:
                res["error"] = f"{f}: found {s.count(old)} times: {old[:60]!r}"
                return res
            p.write_text(s.replace(old, new))
        _, diff = sh(["git", "diff"], cwd=tree)
        (d / "patch.diff").write_text(diff)
        bind = lambda cmd: ["taskset", "-c", cpus, "unshare", "-Urm", "bash", "-c", f"mount --bind {tree} /repo && cd /repo && {cmd}"]
        res["demo0"] = sh(["bash", str(d / "demo.sh")], cwd="/repo")[0]
        rc, out = sh(bind(f"bash {d}/demo.sh"))
        res["demo1"] = rc
        res["demo_out"] = out[-300:]
        rc, out = sh(["taskset", "-c", cpus, str(VERIF / "check.sh"), b["property"]],
                     env={"MC_REPO": str(tree), "VERIF_TIER": "quick", "VERIF_SEED": "1",
                          "MC_EVIDENCE": str(tmp)})
        res["check"] = rc
        res["check_out"] = "\n".join(out.strip().splitlines()[-4:])[-600:]
        if tests:
            rc, out = sh(bind(f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {tmp}/out.json"))
            try:
                passed = set(json.load(open(tmp / "out.json"))["passed"])
                missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
                res["tests_failed"] = sorted(missing)[:5]
                res["n_failed"] = len(missing)
            except Exception as e:
                res["tests_failed"] = [repr(e), out[-300:]]
        return res
    finally:
        shutil.rmtree(tmp)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-t", action="store_true"); a.add_argument("-j", type=int, default=4)
    a.add_argument("ids", nargs="*")
    a = a.parse_args()
    ids = a.ids or list(BUGS)
    ids = [i for k in ids for i in BUGS if i == k or i.startswith(k + "-")] if a.ids else ids
    OUT.mkdir(exist_ok=True)
    n = os.cpu_count() // a.j
    slots = [",".join(str(s * n + k) for k in range(n)) for s in range(a.j)]
    import queue
    q = queue.Queue(); [q.put(s) for s in slots]

    def run(i):
        s = q.get()
        try:
            return one(i, a.t, s)
        except Exception as e:
            return {"id": i, "error": repr(e)}
        finally:
            q.put(s)
    with cf.ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(run, ids):
            (OUT / (r["id"] + ".json")).write_text(json.dumps(r, indent=1))
            ok = r.get("demo0") == 0 and r.get("demo1") not in (0, None)
            print(r["id"], "ERROR " + r["error"] if "error" in r else
                  f"demo {'ok' if ok else 'BAD %s/%s' % (r['demo0'], r['demo1'])} "
                  f"check {'caught' if r['check'] == 1 else 'MISSED' if r['check'] == 0 else 'RC%d' % r['check']}"
                  + (f" tests {'pass' if not r['tests_failed'] else 'FAIL %s %s' % (r.get('n_failed'), r['tests_failed'][:2])}" if a.t else ""), flush=True)


main()
