#!/usr/bin/env python3
"""builds and confirms planted bugs.  seed.py FILE.py [id ...]: FILE defines SEEDS = {id: dict(property, needs, breaks,
edits=[(file, old, new)], demo=python source using lib.py, or sh=shell source)}; each is confirmed in a scratch copy of
/repo (builds, stable tests pass, demo 0 without and nonzero with it) and then written to /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n'
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUST_BACKTRACE="1")


def sh(cmd, cwd, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env or ENV)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def one(a):
    sid, s = a
    d = tempfile.mkdtemp(prefix="seed.")
    try:
        r = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        demo = os.path.join(d, "demo")
        os.mkdir(demo)
        if "demo" in s:
            shutil.copy(os.path.join(V, "tools", "demo", "lib.py"), demo)
            open(os.path.join(demo, "demo.py"), "w").write(s["demo"])
            open(os.path.join(demo, "demo.sh"), "w").write(SH)
        else:
            open(os.path.join(demo, "demo.sh"), "w").write(s["sh"])
        for n, t in s.get("files", {}).items():
            open(os.path.join(demo, n), "w").write(t)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(r, "target"))
        fp = f"rm -rf {r}/target/debug/.fingerprint/splr-*; "
        rc, out = sh(fp + "cargo test --workspace --no-run --locked --offline", r, env)
        if rc:
            return sid, "clean build fails " + out[-300:]
        rc, out = sh(os.path.join(demo, "demo.sh"), r, env, 300)
        if rc:
            return sid, "demo fails on the unchanged tree: " + out[-600:]
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if old not in t:
                return sid, f"text not found in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new, 1))
        patch = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        rc, out = sh(fp + "cargo test --workspace --no-run --locked --offline", r, env)
        if rc:
            return sid, "does not build: " + out[-1500:]
        rc, out = sh(os.path.join(demo, "demo.sh"), r, env, 300)
        if rc == 0:
            return sid, "demo does not fail"
        why = out[-200:]
        rc, out = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 4", r, env)
        if rc:
            return sid, "tests fail: " + "\n".join(l for l in out.splitlines() if "FAILED" in l or "panicked" in l)[-600:]
        dst = os.path.join(V, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(demo, dst)
        open(os.path.join(dst, "patch.diff"), "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return sid, "KEPT (" + why.strip().replace("\n", " ")[-160:] + ")"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    todo = [(k, v) for k, v in m.SEEDS.items() if not sys.argv[2:] or k in sys.argv[2:]]
    with mp.Pool(4) as p:
        for sid, r in p.imap_unordered(one, todo):
            print(sid, "::", r, flush=True)
