"""Builds and runs the controlled-scheduler engine (sched/) for C15."""
import os
import re
import subprocess
import time

TRIPLE = "x86_64-unknown-linux-gnu"


def build(root, target):
    rt = os.path.join(target, "rt")
    os.makedirs(rt, exist_ok=True)
    obj = os.path.join(rt, "rt.o")
    src = os.path.join(root, "sched", "rt.c")
    r = subprocess.run(["gcc", "-O2", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fPIE", "-c", src, "-o", obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("compiling rt.c failed:\n" + r.stdout[-3000:])
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(target, "sched")
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=" + obj
    stamp = os.path.join(target, "sched.stamp")
    import check
    h = check.repo_hash() + str(os.path.getmtime(src))
    old = open(stamp).read() if os.path.exists(stamp) else ""
    cwd = os.path.join(root, "sched")
    if old and old != h:
        subprocess.run(["cargo", "+nightly", "clean", "--offline", "--release", "--target", TRIPLE, "-p", "fast_paths", "-p", "sched"],
                       cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--locked", "--target", TRIPLE],
                       cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("building sched failed:\n" + r.stdout[-5000:])
    with open(stamp, "w") as f:
        f.write(h)
    return os.path.join(env["CARGO_TARGET_DIR"], TRIPLE, "release", "sched")


def check(root, target, tier, scratch, say, error):
    """-> (coverage, violation or None)"""
    try:
        binary = build(root, target)
    except RuntimeError as e:
        raise error(str(e))
    types = subprocess.run([binary, "types"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    facts = {tuple(l.split()[:2]): l.split()[2] for l in types if l}
    if facts.get(("probe-cell", "Sync")) != "false" or facts.get(("probe-rc", "Send")) != "false":
        raise error("the type probe does not work: %r" % facts)
    for t, m in (("FastGraph", "Sync"), ("FastGraph", "Send"), ("InputGraph", "Send"), ("PathCalculator", "Send")):
        if facts.get((t, m)) != "true":
            return {}, dict(space="types", case=0, profile="sched", message="%s is not %s: it cannot be shared between threads any more" % (t, m),
                            describe="fn needs<T: %s>() {}\nfn main() { needs::<fast_paths::%s>(); } // does not compile" % (m, t))
    r = subprocess.run([binary, "selftest"], stdout=subprocess.PIPE, text=True, timeout=120)
    if r.returncode != 0:
        raise error("scheduler self test: " + r.stdout)
    selftest = r.stdout.strip()
    workers = 8
    cap = 240 if tier == "quick" else 1100
    grid = 20
    files, procs = [], []
    for k in range(workers):
        f = open(os.path.join(scratch, "sched%d" % k), "w+")
        files.append(f)
        procs.append(subprocess.Popen(
            [binary, "run", "--worker", str(k), "--of", str(workers), "--tier", tier, "--cap", str(cap), "--grid", str(grid)],
            stdout=f, stderr=subprocess.STDOUT, start_new_session=True))
    t_end = time.time() + cap + 400
    while any(p.poll() is None for p in procs) and time.time() < t_end:
        if any(p.poll() == 1 for p in procs):
            break
        time.sleep(0.1)
    late = False
    for p in procs:
        if p.poll() is None:
            late = late or time.time() >= t_end
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
    total = dict(schedules=0, points=0, accesses=0, scenarios=0, conflicts=0, incomplete=0, scenarios_total=0)
    samples, violation = [], None
    capped = False
    for w, f in enumerate(files):
        k = w
        f.seek(0)
        text = f.read()
        total["scenarios_total"] = max([total["scenarios_total"]] + [int(x) for x in re.findall(r"^scenarios (\d+)$", text, re.M)])
        for m in re.finditer(r"^done (\d+) (\S+) schedules=(\d+) points=(\d+) accesses=(\d+) conflicts=(\d+) complete=(\w+) preemptions=(\d+) freed=(\w+)$", text, re.M):
            total["scenarios"] += 1
            total["schedules"] += int(m[3])
            total["points"] += int(m[4])
            total["accesses"] += int(m[5])
            total["conflicts"] += int(m[6])
            total["incomplete"] += m[7] != "true"
            if len(samples) < 3 and k in (0, 3, 6) and m[1] not in ("0",):
                samples.append({"threads": m[2], "schedules": int(m[3]), "accesses": int(m[5]), "conflicting granules": int(m[6])})
                k = -1
        v = re.search(r"^violation (\d+) (\S+)\n(.*)", text, re.M | re.S)
        if v:
            if violation is None or int(v[1]) < violation["case"]:
                violation = dict(space="sched " + v[2], case=int(v[1]), profile="sched", message=v[3].split("\n")[0],
                                 describe="threads %s (calls as in sched/src/ops.rs)\n%s" % (v[2], v[3]),
                                 replay_cmd="python3 check.py --build && %s run --tier %s --worker %s --of 1000000 --grid %d" % (
                                     os.path.relpath(binary, root), tier, v[1], grid))
        elif procs[w].returncode not in (0, -9):
            raise error("sched worker ended with %s:\n%s" % (procs[w].returncode, text[-2000:]))
        capped = capped or "\ncapped" in text
    if violation is None and late:
        raise error("the scheduler engine did not finish")
    say("C15 threads: %(scenarios)d/%(scenarios_total)d scenarios, %(schedules)d schedules, %(accesses)d accesses, %(conflicts)d conflicting granules" % total)
    extra = dict(states=total["points"], transitions=total["accesses"], traces=total["schedules"], samples=samples,
                 complete=not capped and total["incomplete"] == 0,
                 detail=dict(total, selftest=selftest,
                             rule="every scenario = calls per thread x process history (cold/warm); all schedules up to equivalence (conflicts, at most 2 preemptions), plus one preemption at %d evenly spaced accesses" % grid),
                 assumptions=["sequentially consistent memory; code of std that is not generic is not instrumented (cross-checked by preemptions at evenly spaced accesses)"])
    return extra, violation
