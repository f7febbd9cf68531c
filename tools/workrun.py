"""Builds and runs the work counter (work/): the library with a callback at every basic block, for C26."""
import json
import os
import signal
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

TRIPLE = "x86_64-unknown-linux-gnu"
LIMIT = 77


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(root, target):
    t = os.path.join(target, "work")
    os.makedirs(t, exist_ok=True)
    obj = os.path.join(t, "rtw.o")
    cwd = os.path.join(root, "work")
    r = run(["gcc", "-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fPIE", "-c", "rt.c", "-o", obj], cwd=cwd)
    if r.returncode != 0:
        raise RuntimeError("compiling rt.c failed:\n" + r.stdout[-3000:])
    env = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true")
    env["RUSTFLAGS"] = ("-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
                        "-Cllvm-args=-sanitizer-coverage-trace-pc -Clink-arg=" + obj)
    import check
    stamp = os.path.join(t, "repo.sha256")
    h = check.repo_hash() + open(os.path.join(cwd, "rt.c")).read()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        run(["cargo", "clean", "--offline", "--release", "--target", TRIPLE, "-p", "fast_paths", "-p", "work"], cwd=cwd, env=env)
    with open(stamp, "w") as f:
        f.write(h)
    r = run(["cargo", "build", "--offline", "--locked", "--release", "--target", TRIPLE], cwd=cwd, env=env)
    if r.returncode != 0:
        raise RuntimeError("building the work counter failed:\n" + r.stdout[-5000:])
    return os.path.join(t, TRIPLE, "release", "work")


def check(root, target, tier, cap, scratch, say, error):
    """-> (list of (profile, result), violation or None)"""
    try:
        binary = build(root, target)
    except RuntimeError as e:
        raise error(str(e))
    names = json.loads(run([binary, "names"]).stdout)
    # does the counter count?
    r = run([binary, "selftest"], timeout=120)
    if r.returncode != 0:
        raise error("the work counter does not count: " + r.stdout[-2000:])
    t0 = time.time()
    one = 200 if tier == "quick" else 1200
    env = dict(os.environ, TMPDIR=scratch)

    def case(i):
        if time.time() - t0 > cap:
            return None
        t = time.time()
        p = subprocess.Popen([binary, "run", tier, str(i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env,
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=one)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            return "late", err, time.time() - t
        return p.returncode, out if p.returncode in (0, 1) else err, time.time() - t

    with ThreadPoolExecutor(8) as pool:
        done = list(pool.map(case, range(len(names))))
    spaces, violation = [], None
    for i, d in enumerate(done):
        if d is None:
            continue
        rc, text, wall = d
        bad = None
        if rc in (0, 1):
            try:
                r = json.loads(text.strip().splitlines()[-1])
            except (ValueError, IndexError):
                # a panic ends with status 101
                raise error("no result for %s: %s" % (names[i], text[-2000:]))
            bad = r["violation"]
            table = "\n".join("%s nodes: %s" % (x["nodes"], ", ".join("%s %d" % tuple(y) for y in x["work"])) for x in r["table"])
            spaces.append(dict(
                space="work/" + names[i], bounds={"sizes": r["sizes"]}, cases=1, executed=1, complete=bad is None, states=r["calls"],
                calls=r["calls"], traces=r["calls"], nontrivial=r["calls"], distinct_outcomes=len(r["table"]), wall_s=round(wall, 2),
                notes="", digest=0, samples=[table.splitlines()[-1][:600]]))
        else:
            last = text.strip().splitlines()[-1] if text.strip() else "?"
            table = text[-3000:]
            if rc == LIMIT:
                bad = "%s: stopped, the work is far beyond what the graph of a quarter of the size suggests" % last
            elif rc == "late":
                bad = "%s: no end within %d s" % (last, one)
            elif rc == -signal.SIGKILL:
                raise error("%s was killed" % names[i])
            else:
                bad = "the process ended with status %s: %s" % (rc, text.strip()[-600:])
        if bad and not violation:
            violation = dict(space="work/" + names[i], case=i, profile="release, counting basic blocks", message=bad,
                             describe="Work is counted in executed basic blocks of the library plus bytes moved / 16.\n" + table,
                             replay_cmd="python3 check.py --build && '%s' run %s %d" % (binary, tier, i))
    if not spaces and not violation:
        raise error("nothing was executed")
    return [("release, counting basic blocks", dict(spaces=spaces, violation=violation, known=[], engine_error=None))], violation
