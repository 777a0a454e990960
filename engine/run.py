"""python3 run.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load_props():
    import importlib
    for f in sorted(os.listdir(HERE)):
        if f.startswith("props_") and f.endswith(".py"):
            importlib.import_module(f[:-3])
    from registry import PROPS
    return PROPS


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=" + pid + " "):
                key, _, txt = line[len("finding: property=" + pid + " "):].partition(" :: ")
                out[key.replace("key=", "", 1)] = txt
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    props = load_props()
    fn, technique, note = props[pid]
    import rules
    from extract import load, BuildError
    viol = []
    c = None
    prog = None
    try:
        prog = load() if "--mir" not in sys.argv else __import__("mir").Prog(sys.argv[sys.argv.index("--mir") + 1])
        c = rules.Ctx(prog, pid, tier)
        fn(c)
        viol = c.viol
    except rules.Missing as e:
        viol = (c.viol if c else []) + [{"key": "anchor:" + str(e).split(" (")[0], "rule": "anchor",
                                         "msg": "anchor missing: " + str(e), "where": "", "path": []}]
    except BuildError as e:
        viol = [{"key": "build", "rule": "build", "msg": str(e), "where": "", "path": []}]
    except Exception as e:
        viol = (c.viol if c else []) + [{"key": "analysis:" + type(e).__name__, "rule": "analysis",
                                         "msg": "the analysis could not decide this tree: " +
                                         traceback.format_exc()[-1500:], "where": "", "path": []}]
    # one report per key
    seen, uniq = set(), []
    for v in viol:
        if v["key"] not in seen:
            seen.add(v["key"])
            uniq.append(v)
    known = known_findings(pid)
    new = [v for v in uniq if v["key"] not in known]
    for v in uniq:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={pid} {known[v['key']]}")
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    for old in os.listdir(ev):
        if old.startswith(pid + "-") and old.endswith(".replay.txt"):
            os.remove(os.path.join(ev, old))
    for i, v in enumerate(new):
        rp = os.path.join(ev, f"{pid}-{i}.replay.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}\nrule {v['rule']}\nkey {v['key']}\nwhere {v['where']}\n{v['msg']}\n")
            if v["path"]:
                f.write("path:\n  " + "\n  ".join(v["path"]) + "\n")
            f.write(f"re-run: cd {VERIF} && ./check {pid}\n")
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  [{v['rule']}] {v['msg']}")
        for s in v["path"][:14]:
            print("     via", s)
    obs = c.obs if c else []
    byrule = {}
    for r, w, ok, k in obs:
        a = byrule.setdefault(r, [0, 0])
        a[0] += 1
        a[1] += ok
    samples = []
    have = set()
    for r, w, ok, k in obs:
        if r not in have and len(samples) < 12:
            have.add(r)
            samples.append({"rule": r, "instance": k, "at": w, "held": ok})
    fl = list((c._flat if c else {}).values())
    cov = {
        "explanation": technique + ": every obligation below is decided from the MIR of /repo's current tree.",
        "bodies_in_program": len(prog.bodies) if prog else 0,
        "functions_analysed": len(c.functions) if c else 0,
        "flow_graphs": len(fl),
        "flow_graph_nodes": sum(len(f.nodes) for f in fl),
        "product_states": sum(len(f.pn) for f in fl),
        "obligations": len(obs),
        "discharged": sum(1 for o in obs if o[2]),
        "instances_per_rule": {r: a[0] for r, a in byrule.items()},
        "functions": sorted({prog.bodies[u].key for u in c.functions if u in prog.bodies})[:80] if c and prog else [],
        "samples": samples,
    }
    if c:
        cov.update(c.extra)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": [note, "rustc's MIR for the default features of the release profile is the program"],
               "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print(f"{pid}: {len(obs)} obligations, {sum(1 for o in obs if o[2])} discharged, "
          f"{len(uniq)} reported ({len(uniq) - len(new)} known), {time.time() - t0:.1f}s")
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
