"""Builds the explorer for 32-bit WebAssembly (w32/) with the standard library from rust-src, and runs it in node (C20)."""
import json
import os
import re
import shutil
import subprocess

TRIPLE = "wasm32-unknown-unknown"


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def vendor(cwd, target, env):
    """A directory with the crates of w32 (from cargo's cache) and those of the standard library (from rust-src): cargo
    wants them from one place."""
    d = os.path.join(target, "vendor")
    done = os.path.join(d, ".done")
    if os.path.exists(done):
        return d
    shutil.rmtree(d, ignore_errors=True)
    r = run(["cargo", "+nightly", "vendor", "--offline", "--locked", "--versioned-dirs", d], cwd=cwd, env=env)
    if r.returncode != 0:
        raise RuntimeError("collecting the crates failed:\n" + r.stdout[-3000:])
    root = run(["rustc", "+nightly", "--print", "sysroot"], cwd=cwd, env=env).stdout.strip()
    std = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    for c in os.listdir(std):
        if not os.path.exists(os.path.join(d, c)):
            os.symlink(os.path.join(std, c), os.path.join(d, c))
    open(done, "w").close()
    return d


class Broken(Exception):
    """the library does not compile for the platform"""


def build(root, target, profile="release"):
    """-> (wasm file, native partner)"""
    cwd = os.path.join(root, "w32")
    t = os.path.join(target, "w32")
    os.makedirs(t, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    import check
    stamp = os.path.join(t, "repo.sha256")
    h = check.repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old and old != h:
        # cargo looks at file times only
        for extra in ([], ["--target", TRIPLE]):
            for p in ("release", "checked"):
                run(["cargo", "+nightly", "clean", "--offline", "-p", "fast_paths", "--profile", p] + extra, cwd=cwd, env=env)
    with open(stamp, "w") as f:
        f.write(h)
    r = run(["cargo", "build", "--offline", "--locked", "--release", "--bin", "native"], cwd=cwd, env=env)
    if r.returncode != 0:
        raise RuntimeError("building the 64-bit partner failed:\n" + r.stdout[-4000:])
    d = vendor(cwd, t, env)
    r = run(["cargo", "+nightly", "build", "--offline", "--locked", "--profile", profile, "--lib",
             "-Zbuild-std=std,panic_unwind", "--target", TRIPLE,
             "--config", "source.crates-io.replace-with='w32vendor'", "--config", "source.w32vendor.directory='%s'" % d],
            cwd=cwd, env=dict(env, RUSTFLAGS="-Cpanic=unwind"))
    if r.returncode != 0:
        if re.search(r"could not compile `fast_paths`", r.stdout):
            raise Broken(r.stdout[-4000:])
        raise RuntimeError("building for WebAssembly failed:\n" + r.stdout[-4000:])
    return os.path.join(t, TRIPLE, profile, "w32.wasm"), os.path.join(t, "release", "native")


def check(root, target, tier, cap, scratch, say, error):
    """-> (list of (profile, result), violation or None)"""
    results = []
    for profile in ["release", "checked"]:
        try:
            wasm, native = build(root, target, profile)
        except Broken as e:
            return results, dict(space="build", case=0, profile="wasm32 " + profile,
                                 message="the library does not compile for wasm32-unknown-unknown, but it does for x86_64",
                                 describe=str(e), replay_cmd="python3 check.py C20")
        except RuntimeError as e:
            raise error(str(e))
        out = os.path.join(scratch, "out.json")
        if os.path.exists(out):
            os.remove(out)
        js = os.path.join(root, "w32", "run.js")
        cmd = ["node", "--max-old-space-size=4096", js, wasm, native, tier]
        p = subprocess.Popen(cmd + [out, "--cap", str(cap)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            text, _ = p.communicate(timeout=cap + 600)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise error("the 32-bit explorer does not end")
        if not os.path.exists(out):
            raise error("the 32-bit explorer ended with status %d:\n%s" % (p.returncode, text[-3000:]))
        r = json.load(open(out))
        if r["engine_error"]:
            raise error("32-bit explorer: %s" % r["engine_error"])
        results.append(("wasm32 " + profile, r))
        v = r["violation"]
        if v:
            q = cmd + ["case", v["space"], str(v["case"]), str(v["case"] + 1)]
            note = ""
            try:
                if run(q, timeout=300).returncode == 0:
                    note = " (alone, this case passes: it depends on the cases before it)"
            except subprocess.TimeoutExpired:
                pass
            return results, dict(space=v["space"], case=v["case"], profile="wasm32 " + profile, message=v["message"] + note,
                                 describe=v["describe"],
                                 replay_cmd="python3 check.py --build && " + " ".join("'%s'" % x for x in q))
    return results, None
