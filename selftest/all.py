#!/usr/bin/env python3
"""applies each case of cases.py to a scratch copy of /repo and runs every rule on it.
usage: selftest/all.py [-p P04,P05] [name-substring ...]"""
import os, sys, json, shutil, subprocess, tempfile, multiprocessing as mp, importlib, io, contextlib, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, "engine")]
sys.dont_write_bytecode = True


def one(a):
    case, props = a
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="splrself.")
    try:
        subprocess.run(["cp", "-a"] + [f"/repo/{x}" for x in ("src", "Cargo.toml", "Cargo.lock", "README.md", "cnfs", "tests")] + [d], check=True)
        if "patch" in case:
            r = subprocess.run(["git", "apply", "--unsafe-paths", "-p1", case["patch"]], cwd=d, capture_output=True, text=True)
            if r.returncode:
                return case, None, "patch: " + r.stderr
        for f, old, new in case.get("edits", []):
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return case, None, f"text not found in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new, 1))
        import extract
        extract.REPO = d
        import run, rules
        from mir import Prog
        try:
            w, out = extract.extract()
        except extract.BuildError as e:
            return case, None, "BUILD " + str(e)[-1200:]
        P = Prog(out)
        shutil.rmtree(w, ignore_errors=True)
        reg = run.load_props()
        fired = {}
        for p in props or sorted(set(reg) - {"P25"}):
            c = rules.Ctx(P, p, "quick")
            c.repo = d
            try:
                reg[p][0](c)
                v = [(x["key"], x["msg"]) for x in c.viol]
            except rules.Missing as e:
                v = [(x["key"], x["msg"]) for x in c.viol] + [("anchor", str(e))]
            except extract.BuildError as e:
                v = [("build", str(e)[-300:])]
            except Exception as e:
                import traceback
                v = [("analysis", traceback.format_exc()[-600:])]
            kn = run.known_findings(p)
            v = [x for x in v if x[0] not in kn]
            if v:
                fired[p] = v
        return case, fired, "%.0fs" % (time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    props = None
    if a and a[0] == "-p":
        props = a[1].split(",")
        a = a[2:]
    from cases import CASES
    import glob
    for f in sorted(glob.glob(os.path.join(HERE, "cases_*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    cases = list(CASES)
    sd = os.path.join(V, "seeded")
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = os.path.join(sd, s, "meta.json")
        if os.path.exists(m):
            cases.append({"name": "seeded-" + s, "patch": os.path.join(sd, s, "patch.diff"),
                          "fires": {json.load(open(m))["property"]}})
    cases = [c for c in cases if not a or any(x in c["name"] for x in a)]
    bad = 0
    with mp.Pool(int(os.environ.get("JOBS", "7"))) as pool:
        for case, fired, msg in pool.imap_unordered(one, [(c, props) for c in cases]):
            want = set(case.get("fires", ()))
            if fired is None:
                print("BROKEN ", case["name"], msg)
                bad += 1
                continue
            got = set(fired)
            if props:
                want &= set(props)
            ok = (want <= got) if want else (not got or (bool(case.get("fires")) and bool(props)))
            if not ok:
                bad += 1
            print("ok     " if ok else ("MISSED " if want else "ALARM  "), case["name"], "want", sorted(want), "got", sorted(got), msg)
            if (not ok) or len(cases) == 1:
                for p in got:
                    for k, m in fired[p][:3]:
                        print("        ", p, k, m[:400])
            sys.stdout.flush()
    print(len(cases), "cases,", bad, "not as expected")


if __name__ == "__main__":
    main()
