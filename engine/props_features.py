"""P25: every single-feature variant of the crate type-checks."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from rules import *
from registry import prop
import extract


def features(repo):
    import tomllib
    d = tomllib.load(open(os.path.join(repo, "Cargo.toml"), "rb"))
    return d.get("features", {})


def variants(feat, tier):
    default = list(feat.get("default", []))
    opt = [f for f in feat if f != "default" and f not in default]
    out = [("default", ["--lib", "--bins"])]

    def minus(*xs):
        rest = [f for f in default if f not in xs]
        return ["--lib", "--bins", "--no-default-features", "--features", ",".join(rest)]
    for f in default:
        out.append(("without " + f, minus(f)))
    out.append(("without all", ["--lib", "--bins", "--no-default-features"]))
    for f in opt:
        out.append(("with " + f, (["--lib"] if f == "no_IO" else ["--lib", "--bins"]) + ["--features", f]))
    if tier == "thorough":
        ok = [f for f in default if f != "LRB_rewarding"]
        for i, f in enumerate(ok):
            for g in ok[i + 1:]:
                out.append((f"without {f},{g}", minus(f, g)))
            out.append((f"no_IO without {f}", ["--lib"] + minus(f)[2:4] + [minus(f)[4] + ",no_IO"]))
    return out


def check(repo, name, args, base):
    tgt = os.path.join(base, name.replace(" ", "_").replace(",", "+"))
    e = extract.env()
    e["CARGO_TARGET_DIR"] = tgt
    r = subprocess.run(["cargo", "check", "--offline", "--locked", "--message-format=json"] + args, cwd=repo, env=e,
                       capture_output=True, text=True)
    shutil.rmtree(tgt, ignore_errors=True)
    errs = set()
    if r.returncode != 0:
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"].get("level") != "error":
                continue
            msg = m["message"]
            sp = [s for s in msg.get("spans", []) if s.get("is_primary")]
            if not sp:
                continue
            s = sp[0]
            x = s
            while x.get("expansion") and not x["file_name"].startswith("src/"):
                x = x["expansion"]["span"]
            code = (msg.get("code") or {}).get("code") or "syntax"
            errs.add((code, x["file_name"], f"{x['file_name']}:{x['line_start']}", msg["message"]))
        if not errs:
            errs.add(("build", "", "", r.stderr.strip().splitlines()[-1][:200] if r.stderr.strip() else "cargo failed"))
    return name, errs


@prop("P25", "type checking of every single-feature variant of the crate by the compiler",
      "Each variant is decided by the type checker over all of its code. Combinations differing from the default in two or "
      "more features are covered in part in the thorough tier only; nothing is said about what a variant does.")
def p25(c):
    repo = extract.REPO
    feat = features(repo)
    base = tempfile.mkdtemp(prefix="splrfeat.")
    try:
        vs = variants(feat, c.tier)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda v: check(repo, v[0], v[1], base), vs))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    c.floor("variants", 25, len(res))
    for name, errs in res:
        if not errs:
            c.ob("compiles", True, "", name, "Cargo.toml")
        done = set()
        for code, file, where, msg in sorted(errs):
            if code not in done:
                done.add(code)
                c.ob("compiles", False, f"{where}: the crate {name} does not compile: {msg[:120]}",
                     f"{name.replace(' ', '_')}:{code}", where)
    c.extra["variants"] = [n for n, _ in res]
    # the features named in the code exist
    import re as _re
    names = set()
    for dp, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".rs"):
                txt = open(os.path.join(dp, f)).read()
                txt = _re.sub(r"//[^\n]*", "", txt)
                for m in _re.finditer(r'feature\s*=\s*"([^"]+)"', txt):
                    names.add((m.group(1), os.path.relpath(os.path.join(dp, f), repo)))
    for n, f in sorted(names):
        c.ob("named", n in feat, f"{f}: feature {n} is not declared", f"{n}", f)
