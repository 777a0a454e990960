"""Build the MIR driver if needed, run it over /repo's current working tree, load the result."""
import os, subprocess, sys, tempfile, shutil, hashlib, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
DRIVER_SRC = os.path.join(VERIF, "driver", "main.rs")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    if os.path.isdir("/root/.cargo/bin"):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def driver():
    h = hashlib.sha256(open(DRIVER_SRC, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "mirdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2024", DRIVER_SRC, "-o", tmp],
                       env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("driver does not build:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env(), capture_output=True,
                          text=True, check=True).stdout.strip()


def extract(extra=(), keep=None, targets=("--lib", "--bins"), release=True):
    """compile /repo with the driver; returns the directory of JSON files (caller removes)"""
    drv = driver()
    work = keep or tempfile.mkdtemp(prefix="splrmir.")
    out = os.path.join(work, "mir")
    os.makedirs(out, exist_ok=True)
    e = env()
    e["MIRDUMP_OUT"] = out
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["CARGO_TARGET_DIR"] = os.path.join(work, "target")
    cmd = ["cargo", "+nightly", "check", "--offline", "--locked"] + (["--release"] if release else []) + \
        list(targets) + list(extra)
    r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
    shutil.rmtree(os.path.join(work, "target"), ignore_errors=True)
    if r.returncode != 0 or not os.path.exists(os.path.join(out, "splr.lib.json")):
        shutil.rmtree(work, ignore_errors=True)
        raise BuildError("/repo does not compile under the analysis driver:\n" + r.stderr[-3000:])
    return work, out


def load():
    from mir import Prog
    work, out = extract()
    try:
        return Prog(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    print(driver())
