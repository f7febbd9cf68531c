#!/usr/bin/env python3
"""Supervisor of the checks: builds the explorers from /repo's working tree, runs them, turns process
deaths and hangs into reproduced counterexamples, writes the evidence and the replay file.

usage: check.py ID [--tier quick|thorough]      (run in /verif)
       check.py --build                          builds everything
exit status: 0 held on everything explored, 1 violation, 2 the check itself failed
"""
import hashlib
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
EVIDENCE = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
WORKERS = 8
GB = 1 << 30
# address space of one worker process
WORKER_GB = 10
# a violation that does not repeat alone is tried after this many of the cases before it
BEFORE = 3000

sys.path.insert(0, os.path.join(ROOT, "tools"))


def say(*a):
    print(*a, flush=True)


class CheckError(Exception):
    pass


def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb * GB, mem_gb * GB))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()

    return f


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


# ---------------------------------------------------------------- building


def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def cargo_env():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTFLAGS", None)
    return env


def build(profiles):
    """(Re)builds the explorer; cargo's own staleness check relies on file times, so a changed content hash
    forces a rebuild of the library."""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "repo.sha256")
    h = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        if old:
            for prof in ("release", "checked"):
                subprocess.run(
                    ["cargo", "clean", "--offline", "-p", "fast_paths", "--profile", prof],
                    cwd=os.path.join(ROOT, "mc"), env=cargo_env(),
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        with open(stamp, "w") as f:
            f.write(h)
    bins = {}
    for prof in profiles:
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--profile", prof],
            cwd=os.path.join(ROOT, "mc"), env=cargo_env(),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("building the explorer (%s) failed:\n%s" % (prof, r.stdout[-6000:]))
        bins[prof] = os.path.join(TARGET, prof, "mc")
    return bins


# ---------------------------------------------------------------- known findings


def known_findings(prop):
    """lines 'KNOWN property=C01 profile=release SPACE#INDEX | what fails'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN property=%s " % prop):
                rest = line[len("KNOWN property=%s " % prop):]
                key, _, what = rest.partition(" | ")
                out[key.strip()] = what.strip()
    return out


# ---------------------------------------------------------------- exploring


class Explorer:
    def __init__(self, prop, tier, scratch, known):
        self.prop, self.tier, self.scratch, self.known = prop, tier, scratch, known

    def slots(self, path):
        try:
            data = open(path, "rb").read()
        except OSError:
            return []
        n = len(data) // 24
        return [struct.unpack_from("<QQQ", data, 24 * k) for k in range(n)]

    def names(self, binary):
        r = subprocess.run([binary, "names", self.prop, self.tier], stdout=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise CheckError("cannot list the spaces")
        return json.loads(r.stdout)

    def replay(self, binary, space, case, timeout, before=0):
        """-> (verdict, text): ok / violation / died / hangs / engine"""
        p = subprocess.Popen(
            [binary, "case", self.prop, self.tier, space, str(case), "--scratch", self.scratch,
             "--from", str(max(0, case - before))],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
            preexec_fn=limits(WORKER_GB))
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            stop(p)
            return "hangs", "no answer within %d s" % timeout
        if p.returncode == 0:
            return "ok", text
        if p.returncode == 1:
            return "violation", text
        if p.returncode == 2:
            return "engine", text
        if p.returncode == -signal.SIGKILL:
            return "killed", text
        return "died", text + "\nthe process ended with status %d" % p.returncode

    def explore(self, binary, profile, cap):
        """-> (result json or None, violation or None)"""
        names = self.names(binary)
        slots = os.path.join(self.scratch, "slots")
        out = os.path.join(self.scratch, "out.json")
        known = os.path.join(self.scratch, "known")
        with open(known, "w") as f:
            for k in self.known:
                f.write(k + "\n")
        failures = []
        for attempt in range(2):
            for f in (slots, out):
                if os.path.exists(f):
                    os.remove(f)
            err = open(os.path.join(self.scratch, "stderr"), "w+")
            p = subprocess.Popen(
                [binary, "explore", self.prop, self.tier, "--slots", slots, "--out", out, "--cap", str(cap),
                 "--scratch", self.scratch, "--known", known, "--workers", str(WORKERS)],
                stdout=err, stderr=err, preexec_fn=limits(WORKER_GB))
            last = {}
            suspects = []
            hung = False
            t_end = time.time() + cap + 2700
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                for w, (s, c, _) in enumerate(self.slots(slots)):
                    if last.get(w, (None,))[0] != (s, c):
                        last[w] = ((s, c), now)
                    elif s > 0 and now - last[w][1] > names[s - 1]["timeout"]:
                        suspects.append((s, c))
                        hung = True
                if hung or now > t_end:
                    stop(p)
                    break
            if not hung and p.returncode in (0, 1, 2) and os.path.exists(out):
                r = json.load(open(out))
                if r["engine_error"]:
                    raise CheckError("explorer: %s" % r["engine_error"])
                v = r["violation"]
                if v is None:
                    return r, None
                n = names_timeout(names, v["space"])
                before, note = 0, ""
                verdict, text = self.replay(binary, v["space"], v["case"], n)
                if verdict not in ("violation", "died", "hangs"):
                    before = BEFORE
                    note = "(needs the preceding cases of the exploration: alone, this case passes)"
                    verdict, text = self.replay(binary, v["space"], v["case"], n + 120, before)
                    if verdict in ("violation", "died", "hangs"):
                        note = "(alone, this case passes; fails after the %d cases before it)" % min(before, v["case"])
                return r, dict(space=v["space"], case=v["case"], message=v["message"] + " " + note,
                               describe=v["describe"], profile=profile, before=before)
            # died or hung
            if not hung:
                suspects = [(s, c) for s, c, _ in self.slots(slots) if s > 0]
            err.seek(0)
            tail = err.read()[-1500:]
            say("explorer %s; replaying %d suspect case(s)" % ("hung" if hung else "ended with status %s" % p.returncode, len(suspects)))
            for s, c in suspects:
                n = names[s - 1]
                # chunks: the case in the slot is exact
                verdict, text = self.replay(binary, n["name"], c, n["timeout"])
                if verdict in ("violation", "died", "hangs"):
                    what = {"violation": "violation", "died": "the process dies (stack overflow, abort or out of memory)",
                            "hangs": "does not terminate within %d s" % n["timeout"]}[verdict]
                    return None, dict(space=n["name"], case=c, message=what, describe=text[-6000:], profile=profile)
            where = [(names[s - 1]["name"], c) for s, c in suspects]
            if not hung and p.returncode not in (3, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
                # ended by something other than the code under test
                if attempt == 1:
                    break
                say("the explorer ended with status %s; once more\n%s" % (p.returncode, tail))
                failures.append(None)
                continue
            failures.append((hung, where))
        if len(failures) == 2 and None not in failures:
            # worker processes run nothing but cases, one after the other
            hung, where = failures[1]
            what = "does not terminate" if hung else "the process dies"
            return None, dict(
                space=where[0][0] if where else "?", case=where[0][1] if where else 0, profile=profile, before=BEFORE,
                message="a worker process %s (in two runs of two; the case passes when it is executed alone, so that it depends on the cases before it)" % what,
                describe="cases of the workers at that time: %s\n%s" % (where, tail))
        raise CheckError("the explorer ended with status %s and no suspect case reproduces it\n%s" % (p.returncode, tail))


class Differs:
    """Do the builds observe the same? Compares the digests of the spaces that were explored completely in both."""

    def __init__(self, prop, tier, bins, scratch):
        self.prop, self.tier, self.bins, self.scratch = prop, tier, bins, scratch

    def digest(self, prof, space, a, b):
        r = subprocess.run(
            [self.bins[prof], "digest", self.prop, self.tier, space, str(a), str(b), "--scratch", self.scratch],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=1200)
        if r.returncode != 0:
            raise CheckError("digest of %s %d..%d in the %s build ended with status %s" % (space, a, b, prof, r.returncode))
        return r.stdout.strip()

    def compare(self, results):
        (p1, r1), (p2, r2) = results
        of = {s["space"]: s for s in r2["spaces"]}
        for s in r1["spaces"]:
            o = of.get(s["space"])
            if o is None or not s["space"].startswith("menu/") or not (s["complete"] and o["complete"]):
                continue
            if s["cases"] != o["cases"]:
                raise CheckError("the builds enumerate different cases in %s" % s["space"])
            if s["digest"] == o["digest"]:
                continue
            a, b = 0, s["cases"]
            same = lambda x, y: self.digest(p1, s["space"], x, y) == self.digest(p2, s["space"], x, y)
            while b - a > 1:
                m = (a + b) // 2
                if not same(a, m):
                    b = m
                elif not same(m, b):
                    a = m
                else:
                    raise CheckError("the outcomes of %s differ between the builds, but no case repeats it" % s["space"])
            if len({self.digest(p1, s["space"], a, b) for _ in range(3)}) > 1:
                raise CheckError("the outcome of case %d of %s is not reproducible" % (a, s["space"]))
            d = subprocess.run([self.bins[p1], "case", self.prop, self.tier, s["space"], str(a), "--scratch", self.scratch],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout
            cmd = " && ".join("target/%s/mc digest %s %s '%s' %d %d" % (p, self.prop, self.tier, s["space"], a, b) for p in (p1, p2))
            return dict(space=s["space"], case=a, profile="%s and %s" % (p1, p2), describe=d,
                        message="the build with debug assertions and overflow checks gives another outcome than the release build",
                        replay_cmd=cmd)
        return None


def names_timeout(names, space):
    for n in names:
        if n["name"] == space:
            return n["timeout"]
    return 60


def write_replay(prop, tier, v):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.txt" % prop)
    with open(path, "w") as f:
        f.write("property: %s\ntier: %s\nbuild profile: %s\nspace: %s\ncase: %s\n\n%s\n\n%s\n\nreplay:\n  cd %s && %s\n" % (
            prop, tier, v.get("profile"), v["space"], v["case"], v["message"], v["describe"],
            ROOT, v.get("replay_cmd") or "python3 check.py --build && mkdir -p /tmp/mc-scratch && target/%s/mc case %s %s '%s' %s --from %d --scratch /tmp/mc-scratch" % (
                v.get("profile"), prop, tier, v["space"], v["case"], max(0, int(v["case"]) - v.get("before", 0)))))
    return path


ASSUMPTIONS = [
    "exhaustive within the stated bounds only; larger inputs are covered by the structured families, not by all inputs",
    "the reference model (shortest paths by relaxation, list-of-edges editing model, line reader) is trusted",
    "rustc/LLVM compile the harness build of /repo like a user's build (same sources, path dependency, no hooks)",
]


def main():
    args = sys.argv[1:]
    if args == ["--build"]:
        build(["release", "checked"])
        import schedrun
        schedrun.build(ROOT, TARGET)
        import w32run
        w32run.build(ROOT, TARGET)
        import workrun
        workrun.build(ROOT, TARGET)
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    profiles = ["release", "checked"] if prop in ("C14", "C23") else ["release"]
    cap = {"quick": 400, "thorough": 1500}[tier]
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=base)
    known = known_findings(prop)
    violation = None
    results = []
    extra = {}
    try:
        bins = build(profiles) if prop not in ("C20", "C26") else {}
        if prop == "C20":
            import w32run
            results, violation = w32run.check(ROOT, TARGET, tier, cap, scratch, say, CheckError)
            profiles = []
        if prop == "C26":
            import workrun
            results, violation = workrun.check(ROOT, TARGET, tier, cap, scratch, say, CheckError)
            profiles = []
        if prop == "C15":
            import schedrun
            extra, violation = schedrun.check(ROOT, TARGET, tier, scratch, say, CheckError)
        for prof in profiles if violation is None else []:
            ex = Explorer(prop, tier, scratch, known)
            r, v = ex.explore(bins[prof], prof, cap)
            if r:
                results.append((prof, r))
                for k in r["known"]:
                    say("KNOWN-FINDING: property=%s %s" % (prop, k))
            if v:
                violation = v
                break
        if prop == "C23" and violation is None:
            violation = Differs(prop, tier, bins, scratch).compare(results)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    write_evidence(prop, tier, seed, results, extra, violation, time.time() - t0)
    if violation:
        path = write_replay(prop, tier, violation)
        say("%s: %s #%s: %s" % (prop, violation["space"], violation["case"], violation["message"]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    n = sum(s["executed"] for _, r in results for s in r["spaces"])
    say("%s held: %d executions in %d spaces, %.1f s" % (prop, n, sum(len(r["spaces"]) for _, r in results), time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, results, extra, violation, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    spaces = [dict(s, profile=prof) for prof, r in results for s in r["spaces"]]
    total = lambda k: sum(s[k] for s in spaces)
    samples = []
    for s in spaces:
        if s["samples"]:
            samples.append({"space": s["space"], "case": s["samples"][len(s["samples"]) // 2]})
    detail = [{k: s[k] for k in ("space", "profile", "bounds", "cases", "executed", "complete", "states", "calls", "traces",
                                 "nontrivial", "distinct_outcomes", "wall_s", "notes")} for s in spaces]
    complete = all(s["complete"] for s in spaces) and not violation
    if prop in ("C13", "C25"):
        level = "fault_enumeration"
        cov = {
            "evaluations": total("executed" if prop == "C13" else "states"),
            "distinct_nontrivial": total("nontrivial"),
            "rule": "every byte position of the stored object x (stream ends, stream fails) x (storing, loading), every part of the "
                    "JSON document x (missing, mistyped, out of range), and complete transfers in pieces; non-trivial if a fault was "
                    "delivered or a part spoiled" if prop == "C25" else "case = (graph, format, fault kind, byte or call position); all positions of every kind are enumerated and differ "
                    "pairwise; non-trivial if the injected fault was actually delivered to the library during the call",
            "samples": samples[:12],
        }
    else:
        level = "model_checking"
        cov = {
            "states": total("states") + extra.get("states", 0),
            "transitions": total("calls") + extra.get("transitions", 0),
            "traces_validated_against_impl": total("traces") + extra.get("traces", 0),
            "samples": (extra.get("samples", []) + samples)[:16],
        }
    cov["exhaustive"] = bool(complete and extra.get("complete", True))
    cov["executions"] = total("executed")
    cov["spaces"] = detail
    if extra:
        cov["schedules"] = extra.get("detail")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": ASSUMPTIONS + extra.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    if violation:
        ev["violation"] = violation
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % prop))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        say("check error: %s" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)
