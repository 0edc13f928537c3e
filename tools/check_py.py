#!/usr/bin/env python3
"""check_py.py Y01 [quick|thorough] | check_py.py replay FILE

Builds the Python module and the reference from /repo's working tree, explores sessions of the module in several
processes and writes evidence/Y01.json. Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict."""
import json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from check import ROOT

BUILD = os.environ.get("VH_BUILD_PY", os.path.join(ROOT, ".build-py"))
PYTHON = "/usr/bin/python3"
WORKERS = min(8, os.cpu_count() or 1)
DRIVER = os.path.join(ROOT, "tools", "py_driver.py")


def build():
    os.makedirs(BUILD, exist_ok=True)
    env = check.cargo_env()
    env["PYTHON_SYS_EXECUTABLE"] = PYTHON
    env["CARGO_TARGET_DIR"] = BUILD
    env["CARGO_PROFILE_RELEASE_DEBUG"] = "0"
    out = open(os.path.join(BUILD, "log"), "w+")
    p = subprocess.Popen(["cargo", "build", "--release", "--offline", "--locked", "-q", "--manifest-path", "/repo/py/Cargo.toml"],
                         env=env, stdout=out, stderr=subprocess.STDOUT)
    binaries = check.build("Y01", ["plain"])
    if p.wait() != 0 or binaries is None:
        out.seek(0)
        print("\n".join([l for l in out.read().splitlines() if "warning" not in l][-60:]))
        print("ERROR the Python module or its reference does not build against /repo")
        sys.exit(2)
    d = os.path.join(BUILD, "module")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "granne.so")
    if os.path.lexists(dst):
        os.remove(dst)
    os.link(os.path.join(BUILD, "release", "libgranne.so"), dst)
    # python3-sys 0.6 refers to a function that CPython 3.12 no longer has (it has nothing to do any more)
    stub = os.path.join(d, "stub.c")
    with open(stub, "w") as f:
        f.write("int _PyUnicode_Ready(void *o) { return 0; }\n")
    if subprocess.call(["gcc", "-shared", "-fPIC", "-o", os.path.join(d, "stub.so"), stub]) != 0:
        print("ERROR no C compiler for the stub")
        sys.exit(2)
    return d, binaries["plain"]


def scratch():
    """A directory for the files of this run, in memory when there is room."""
    try:
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize >= 4 << 30:
            return tempfile.mkdtemp(prefix="vh-Y01-", dir="/dev/shm")
    except OSError:
        pass
    return tempfile.mkdtemp(prefix="vh-Y01-")


SCRATCH = None


def env():
    e = check.cargo_env()
    e["TMPDIR"] = e["VH_SCRATCH"] = SCRATCH
    e["RAYON_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def explore(d, vh, tier):
    """Runs the workers; returns their results and those who died."""
    procs = []
    for i in range(WORKERS):
        res, st = os.path.join(BUILD, "result-%d" % i), os.path.join(BUILD, "state-%d" % i)
        for f in (res, st):
            if os.path.exists(f):
                os.remove(f)
        procs.append((subprocess.Popen([PYTHON, DRIVER, d, vh, tier, str(i), str(WORKERS), res, st], env=env(),
                                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), res, st))
    last = {i: ("", time.time()) for i in range(WORKERS)}
    hung = set()
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.2)
        for i, (p, _, st) in enumerate(procs):
            if p.poll() is None:
                now = open(st).read() if os.path.exists(st) else ""
                if now != last[i][0]:
                    last[i] = (now, time.time())
                elif time.time() - last[i][1] > 60:
                    hung.add(i)
                    p.kill()
    results, dead = [], []
    for i, (p, res, st) in enumerate(procs):
        if os.path.exists(res):
            results.append(json.load(open(res)))
        else:
            try:
                s = json.loads(open(st).read().splitlines()[0])
            except (OSError, IndexError, ValueError):
                s = None
            dead.append((p.returncode, i in hung, s))
    return results, dead


def main():
    if sys.argv[1] == "replay":
        d, vh = build()
        r = subprocess.call([PYTHON, DRIVER, d, vh, "replay", os.path.abspath(sys.argv[2])], env=env())
        sys.exit(0 if r == 0 else 1)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    evfile = os.path.join(ROOT, "evidence", "Y01.json")
    if os.path.exists(evfile):
        os.remove(evfile)
    d, vh = build()
    results, dead = explore(d, vh, tier)
    if any(s is None for _, _, s in dead):
        print("ERROR a worker did not start (%s)" % dead[0][0])
        sys.exit(2)
    bad = [b for r in results for b in r["bad"]]
    for code, hung, s in dead:
        bad.append({"session": s["session"], "message": "the interpreter %s" % ("hangs" if hung else "dies (status %s)" % code)})
    if any(b["message"].startswith("HARNESS") or "HARNESS" in b["message"] for b in bad):
        print("ERROR " + [b["message"] for b in bad if "HARNESS" in b["message"]][0])
        sys.exit(2)
    total = sum(r["sessions"] for r in results) + sum(s["n"] for _, _, s in dead)
    ops = sum(r["operations"] for r in results)
    print("Y01 %s: %d sessions, %d operations, %.1f s" % (tier, total, ops, time.time() - t0))
    for k, b in enumerate(bad[:3]):
        f = os.path.join(ROOT, "replays", "Y01-%d.json" % k)
        json.dump({"check": "Y01", "session": b["session"], "message": b["message"]}, open(f, "w"), indent=1)
        print("  %s -- %s" % (json.dumps(b["session"])[:300], b["message"]))
        print("VIOLATION property=Y01 replay=%s" % f)
    ev = dict(property="Y01", tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="exploration", wall_s=round(time.time() - t0, 3),
              violations=len(bad), assumptions=["one worker thread (RAYON_NUM_THREADS=1), so that builds are repeatable", "CPython 3.12 of this system"],
              coverage=dict(evaluations=total, operations=ops, distinct_nontrivial=sum(r["nontrivial"] for r in results),
                            rule="a case is one session (a sequence of operations on the module, every result compared with the core library's); non-trivial are those with at least two elements, words or lines; sessions are distinct by construction",
                            bound="all sequences of up to %d of %d builder operations from an empty and a five element builder in 3 configurations, followed by everything observable, for 3 element types; all sequences of up to %d of 8 operations of Embeddings; corpora of up to %d of 6 lines; larger builds; wrong arguments" % ((4, 9, 4, 3) if tier != "thorough" else (5, 11, 5, 4)),
                            samples=[x for r in results for x in r["samples"]][:6], exhaustive=not bad))
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    SCRATCH = scratch()
    try:
        main()
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
