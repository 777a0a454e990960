"""P20 determinism, P21 isolation of instances, P22 effects on the outside world: effect analysis over every call of the library."""
from rules import *
from registry import prop


def externals(c, crate="splr.lib"):
    """(body, line, uid of the callee outside the crate, descriptor, terminator) of every such call or function value"""
    for b in c.prog.bodies.values():
        if b.crate != crate:
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            t = blk["t"]
            if t[0] != "call":
                continue
            for i, op in enumerate([t[2]] + list(t[3])):
                fn = op_fn(op)
                if fn is None:
                    continue
                r = fn.get("res") or fn
                if r.get("local", fn["local"]) or r["uid"].startswith("splr::"):
                    continue
                yield b, t[1], r["uid"], fn, t


def ext_name(fn):
    return callee_keys(fn.get("res") or fn)[0]


def sources(c, prefixes, names=()):
    for b, line, uid, fn, t in externals(c):
        if any(uid.startswith(p) for p in prefixes) or (last(ext_name(fn)) in names):
            yield b, line, uid, fn, t


CLOCK = ("std::time", "instant::")
HASH = ("std::collections::hash", "hashbrown")
HASH_ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "retain", "into_keys", "into_values",
             "difference", "union", "intersection", "symmetric_difference", "extract_if"}


@prop("P20", "effect analysis: every call leaving the crate is classified, uses of clock values and hash iteration are checked by dataflow",
      "Decides that no function of the library reads a clock, a random source, an address or the environment except the "
      "listed ones, that clock values only decide when a run or a simplification pass stops, and that iteration over hash "
      "tables cannot show its order. The determinism of the standard library (sorting, heaps) is taken for granted.")
def p20(c):
    # 1. sources
    R = "source"
    table = {"State.default": ("now",), "State.is_timeout": ("elapsed",), "State.elapsed": ("elapsed", "now", "duration_since", "sub", "saturating_duration_since", "checked_duration_since"),
             "State.fmt": ("elapsed",), "State.clone": ("clone",)}
    n = 0
    for b, line, uid, fn, t in sources(c, CLOCK):
        nm = last(ext_name(fn))
        if nm in ("from_secs", "as_secs_f64", "as_millis", "from_millis", "as_secs", "from_secs_f64"):
            continue
        for o in c.owner(b):
            n += 1
            c.ob(R, nm in table.get(o, ()), f"{b.file}:{line}: {o} reads the clock ({nm})", f"clock:{o}", b.where(line))
    c.floor(R, 4, n)
    m = 0
    for b, line, uid, fn, t in sources(c, ("std::env", "std::random", "std::hash::random", "std::thread", "std::sync", "core::sync",
                                           "std::net", "std::os", "core::hash::build_hasher", "std::alloc", "std::process",
                                           "core::any", "std::backtrace", "alloc::sync"), ()):
        for o in c.owner(b):
            m += 1
            c.ob(R, o == "Config.inject_from_args" and uid.startswith(("std::env", "std::process")),
                 f"{b.file}:{line}: {o} depends on the environment ({uid})", f"env:{o}:{uid.split('::')[1]}", b.where(line))
    for b, line, uid, fn, t in sources(c, (), ("hash_one", "build_hasher", "finish", "new_pointer", "addr", "expose_provenance",
                                               "type_id", "current", "available_parallelism")):
        if last(ext_name(fn)) == "finish" and "hash" not in uid:
            continue
        c.ob(R, False, f"{b.file}:{line}: {b.key} uses {uid}", f"addr:{b.key}", b.where(line))
    # the file system
    for b, line, uid, fn, t in externals(c):
        nm = last(ext_name(fn))
        if uid.startswith("std::path") and nm in ("exists", "try_exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata",
                                                  "canonicalize", "read_dir", "read_link") or \
                uid.startswith("std::fs") and nm in ("exists", "metadata", "symlink_metadata", "canonicalize", "read_dir", "read_link",
                                                     "modified", "accessed", "created", "permissions"):
            for o in c.owner(b):
                c.ob(R, o == "Config.inject_from_args" or b.file.endswith(("build.rs", "cnf.rs", "cnf/mod.rs")),
                     f"{b.file}:{line}: {o} asks the file system ({uid})", f"fs:{o}:{nm}", b.where(line))
    # 2. addresses turned into numbers
    casts = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib":
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            for s in blk["s"]:
                rv = s[3] if len(s) > 3 else s[-1]
                if isinstance(rv, list) and rv and rv[0] == "cast":
                    casts += 1
                    c.ob("address", "Expose" not in rv[1] and not (rv[1] == "Transmute" and rv[4].startswith(("*", "&"))
                                                                  and rv[3] in ("usize", "u64")),
                         f"{b.where()}: an address becomes a number", "cast:" + b.key, b.where())
    c.floor("address", 20, casts)
    # 3. what clock values decide
    CLK = ("elapsed", "is_timeout", "now", "duration_since")
    mention = lambda t: has_call(t, *CLK) or has_field(t, "start")
    k = 0
    for b, line in set(c.callers("State.elapsed", "StateIF.elapsed", "State.is_timeout", "StateIF.is_timeout",
                                 crate="splr.lib")):
        for o in c.owner(b):
            k += 1
            c.ob("clock-use", o in ("search", "Eliminator.eliminate", "Solver.solve"),
                 f"{b.file}:{line}: {o} asks for the time", "user:" + o, b.where(line))
            if o not in {x.key for x in c.prog.bodies.values()}:
                continue
            try:
                F = c.flat(o)
            except Missing:
                continue
            stops(c, F, mention)
    c.floor("clock-use", 2, k)
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or "Instant" not in " ".join(b.locals):
            continue
        for o in c.owner(b):
            c.ob("clock-use", o in table or o in ("State.instantiate",), f"{b.where()}: {o} handles the start time",
                 "instant:" + o, b.where())
    # 4. hash iteration
    hash_iteration(c)


def stops(c, F, mention):
    """a decision on the clock only ends the loop; clock values are stored nowhere"""
    CLK = ("elapsed", "is_timeout", "now", "duration_since")
    CLEAR = {"clear_clause_queue", "clear_var_queue"}
    n = 0
    for s in F.nodes:
        if s.id not in F.at:
            continue
        if s.kind == "switch":
            ok = None
            for pi in F.at[s.id]:
                outs = [(j, e) for j, e in F.ps[pi]]
                if not any(e is not None and any(mention(f[0]) for f in F.edge_facts(s, e)) for j, e in outs):
                    continue
                n += 1
                # at least one side must be a plain stop
                good = False
                sides = 0
                for j, e in outs:
                    sides += 1
                    seen, st, fine = set(), [j], True
                    while st and fine:
                        x = st.pop()
                        if x in seen:
                            continue
                        seen.add(x)
                        nd = F.nodes[F.pn[x]]
                        if nd.kind == "call":
                            b2 = c.prog.resolve(nd.data[3] if len(nd.data) > 3 and isinstance(nd.data[3], dict) else {}, "") \
                                if False else None
                            nm = last(nd.data[0][0])
                            own = [q for q in nd.data[0] if c.prog.fns(q, "splr.lib")]
                            if own and nm not in CLEAR and c.prog.fns(own[0], "splr.lib")[0].trait not in FOREIGN_TRAITS \
                                    and nm not in ("elapsed",):
                                fine = False
                        for y, _ in F.ps[x]:
                            if F.pn[y] == s.id or any(F.pn[y] == h for h in loops_of(F)):
                                fine = False
                            st.append(y)
                    good |= fine
                ok = good or sides < 2 if ok is None else (ok and (good or sides < 2))
            if ok is not None:
                c.ob("clock-use", ok, f"{c.where(F, s.id)}: a decision on the time does more than stop", "decides:" + F.root.key,
                     c.where(F, s.id))
        elif s.kind == "assign":
            pl = s.data[0]
            if pl[1] and mention(F.rv_term(s.data[1], 0, (), s)):
                t = F.place_term(pl)
                c.ob("clock-use", not (t[0] == "field" or t[0] == "index"), f"{c.where(F, s.id)}: stores a time in {tstr(t)[:60]}",
                     "stores:" + F.root.key, c.where(F, s.id))
        elif s.kind == "call":
            own = [q for q in s.data[0] if c.prog.fns(q, "splr.lib")]
            if own and last(s.data[0][0]) not in ("flush", "log", "elapsed", "is_timeout") and \
                    c.prog.fns(own[0], "splr.lib")[0].trait not in FOREIGN_TRAITS:
                for a in s.data[1]:
                    t = F.term(a)
                    c.ob("clock-use", not has_call(t, *CLK), f"{c.where(F, s.id)}: passes a time to {s.data[0][0]}",
                         "passes:" + F.root.key, c.where(F, s.id))
    return n


def reachable(c, roots):
    out = set()
    st = [b for r in roots for b in c.prog.fns(r, "splr.lib")]
    while st:
        b = st.pop()
        if b.uid in out:
            continue
        out.add(b.uid)
        for cb in c.prog.closures.get(b.uid, []):
            st.append(cb)
        for blk in b.blocks:
            t = blk["t"]
            if t[0] != "call":
                continue
            for op in [t[2]] + list(t[3]):
                fn = op_fn(op)
                if fn is None:
                    continue
                x = c.prog.resolve(fn, b.crate)
                if x is not None:
                    st.append(x)
                elif fn["local"] and fn["uid"] in c.prog.traitmeth:
                    for u in c.prog.traitimpl.get(fn["uid"], []):
                        if u in c.prog.bodies:
                            st.append(c.prog.bodies[u])
    return out


API = ["Solver.solve", "Solver.build", "Solver.try_from", "Certificate.try_from", "Solver.add_clause",
                         "Solver.add_assignment", "Solver.add_var", "Solver.reset", "Solver.iter", "SolverIter.next",
                         "Solver.validate", "Solver.save_certification", "Solver.dump_cnf", "CNF.load", "CNF.save",
                         "CNF.add_clause", "CNF.from_vec_i32", "CNF.dump_to_string", "Logger.new", "Logger.dump", "ClauseDB.dump_cnf"]


def hash_iteration(c):
    live = reachable(c, API)
    n = 0
    for b, line, uid, fn, t in externals(c):
        if not uid.startswith(HASH):
            continue
        nm = last(ext_name(fn))
        if nm not in HASH_ITER:
            continue
        if b.uid not in live:
            continue
        n += 1
        root = b
        while root.kind == "closure" and root.parent in c.prog.bodies:
            root = c.prog.bodies[root.parent]
        F = c.flat(root)
        mine = [x for x in c.calls(F, ext_name(fn)) if F.nodes[x].line == line]
        dead = any(x.kind in ("call", "diverge") and ext_name(fn) in x.data[0] and x.line == line and x.id not in F.at
                   for x in F.nodes)
        c.ob("hash-order", bool(mine) or dead, f"{b.where(line)}: iteration over a hash table the analysis does not reach",
             "unreached:" + root.key, b.where(line))
        for x in mine:
            why = ordered_use(c, F, x)
            c.ob("hash-order", why is None, f"{c.where(F, x)}: the order of a hash table can show: {why}", "iter:" + root.key,
                 c.where(F, x))
    c.floor("hash-order", 3, n)


FREE = {"any", "all", "count", "len", "is_empty", "min", "max"}
INT = ("usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize")


def ordered_use(c, F, x):
    """None if the order of the iteration at node x cannot be observed, else a reason"""
    me = F.call_term(F.nodes[x])
    S = strip(me)
    mention = lambda t: has(strip(t), lambda s: s == S)
    consumed = False
    for k in [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and n.id != x]:
        a = c.args(F, k)
        if not a or not mention(a[0]):
            continue
        nm = last(F.nodes[k].data[0][0])
        tt = strip(a[0])
        direct = tt == S or (tt[0] == "call" and last(tt[1]) in ("into_iter", "map", "filter", "filter_map", "cloned", "copied",
                                                                 "enumerate"))
        if not direct:
            continue
        if nm in ("map", "filter", "filter_map", "cloned", "copied", "into_iter"):
            continue
        if nm in FREE:
            consumed = True
            continue
        if nm in ("sum", "product"):
            ty = F.nodes[k].body.locals[0] if False else None
            d = F.nodes[k].data
            ga = " ".join(str(z) for z in d) if False else ""
            dest = dest_type(F, k)
            if dest in INT:
                consumed = True
                continue
            return f"a sum of {dest or 'values'} is rounded in that order"
        if nm in ("collect",):
            dest = dest_type(F, k) or ""
            if any(h in dest for h in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap")):
                consumed = True
                continue
            ct = F.call_term(F.nodes[k])
            srt = [q for q in F.nodes if q.kind == "call" and q.id in F.at and "sort" in last(q.data[0][0]) and
                   q.data[1] and strip(F.term(q.data[1][0])) == strip(ct)]
            p = F.path_after(k, lambda i: F.nodes[F.pn[i]].kind == "return", lambda i: F.pn[i] in {q.id for q in srt})
            if srt and p is None:
                consumed = True
                continue
            return "it is collected in that order"
        if nm == "next":
            r = loop_around(F, k)
            if r is None:
                return "an arbitrary element is taken"
            why = commutative(c, F, k, r)
            if why:
                return why
            consumed = True
            continue
        return f"it is passed to {nm}"
    return None if consumed else "its use is not understood"


def dest_type(F, k):
    n = F.nodes[k]
    try:
        d = n.data[2]
        loc = d[0][1] if isinstance(d[0], (tuple, list)) else d[0]
        return n.body.locals[loc]
    except Exception:
        return None


def commutative(c, F, nx, r):
    """the loop body touches only the element's own entries and counters"""
    h, body = r
    it = strip(F.call_term(F.nodes[nx]))
    elem = lambda t: has(strip(t), lambda s: s == it)
    for m in body:
        n = F.nodes[m]
        if n.id == nx:
            continue
        if n.kind == "switch":
            # what happens to an element depends on how many came before it
            for s in subterms(F.term(n.data[0])):
                if s and s[0] == "var":
                    ds = [d for d in F.defs.get(s[1], []) if d.id in F.at]
                    if any(d.id in body for d in ds) and any(d.id not in body for d in ds):
                        return f"line {n.line} decides by {tstr(s)[:40]}, which is carried from one element to the next"
        if n.kind == "assign":
            pl = n.data[0]
            if not pl[1]:
                # a local that outlives the iteration: only counting is harmless
                ds = [d for d in F.defs.get(pl[0], []) if d.id in F.at]
                if len(ds) > 1 and any(d.id not in body for d in ds):
                    t = F.rv_term(n.data[1], 0, (), n)
                    if not (t[0] == "bin" and t[1].startswith("Add") and any(constval(z) is not None for z in t[2:])) and \
                            not (t[0] == "field" and t[1][0] == "bin") and constval(t) is None:
                        return f"line {n.line} carries a value from one element to the next"
                continue
            t = F.place_term(pl)
            if not elem(t) and t[0] in ("field", "index"):
                v = F.rv_term(n.data[1], 0, (), n)
                if constval(v) is None and not (v[0] == "bin" and v[1].startswith("Add") and constval(v[3]) is not None):
                    return f"line {n.line} writes {tstr(t)[:50]}"
        elif n.kind == "call":
            for i, a in enumerate(n.data[1]):
                if a[0] in ("c", "m") and F._is_mut(a):
                    t = F.term(a)
                    nm = last(n.data[0][0])
                    if elem(t) or (nm in ("index_mut", "entry", "insert", "remove", "get_mut") and
                                   any(elem(F.term(z)) for z in n.data[1][1:])):
                        continue
                    if nm == "next":
                        continue
                    return f"line {n.line} calls {n.data[0][0]} for one element after the other"
        elif n.kind == "switch":
            pass
    # leaving early picks an element
    tests = c._header_tests(F, h, body)
    for m in body - tests:
        for i in F.at.get(m, ()):
            for j, e in F.ps[i]:
                if F.pn[j] not in body and F.nodes[m].kind not in ("assert",) and F.nodes[F.pn[j]].kind not in ("diverge", "unreachable"):
                    p = F._find(j, lambda z: F.nodes[F.pn[z]].kind == "return", lambda z: False)
                    if p is not None and not only_found(F, j, body, elem):
                        return f"line {F.nodes[m].line} stops at the first fitting element"
    return None


def only_found(F, j, body, elem):
    """leaving the loop says that there is a fitting element, not which one: nothing after it mentions the element
    and the loop writes nothing but constants"""
    for n in F.nodes:
        if n.id not in F.at:
            continue
        if n.id in body:
            if n.kind == "assign" and n.data[0][1] and not isinstance(constval(F.rv_term(n.data[1], 0, (), n)), (int, bool)):
                t = F.place_term(n.data[0])
                if t[0] in ("field", "index"):
                    return False
            if n.kind == "call" and last(n.data[0][0]) != "next" and any(
                    a[0] in ("c", "m") and F._is_mut(a) for a in n.data[1]):
                return False
    seen, todo = {j}, [j]
    while todo:
        i = todo.pop()
        n = F.nodes[F.pn[i]]
        if n.id not in body:
            if n.kind == "call" and any(elem(F.term(a)) for a in n.data[1]):
                return False
            if n.kind == "assign" and elem(F.rv_term(n.data[1], 0, (), n)):
                return False
        for k, _ in F.ps[i]:
            if k not in seen and F.pn[k] not in body:
                seen.add(k)
                todo.append(k)
    return True


# ------------------------------------------------------------------ P21
SHARED = ("std::sync", "core::sync", "alloc::sync", "alloc::rc", "std::rc", "core::cell", "std::cell", "std::thread",
          "std::env::set", "std::env::remove", "std::os", "core::intrinsics")
BADTY = ("Rc<", "Arc<", "RefCell<", "Cell<", "Mutex<", "RwLock<", "Atomic", "*const", "*mut", "&'static mut", "OnceCell",
         "OnceLock", "LazyLock", "LazyCell", "Weak<", "dyn ")


@prop("P21", "type and effect analysis: statics, field types of everything a solver owns, and calls with shared effects",
      "Decides that the library has no mutable or interior-mutable global, that no type a solver owns can share memory with "
      "another solver, that no clone shares a file, and that no function changes process-wide state.")
def p21(c):
    d = c.prog.lib
    for s in d["statics"]:
        nm, ty = s["path"], s["ty"]
        mut = s["mut"] or not s.get("freeze")
        c.ob("global", not mut and not any(x in ty for x in BADTY), f"{s['file']}:{s['line']}: global variable {nm} is shared by all solvers", "static:" + nm, nm)
    refs = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib":
            continue
        refs += 1
        txt = str(b.blocks)
        c.ob("global", "'mutstatic': True" not in txt, f"{b.where()}: {b.key} uses a mutable global", "use:" + b.key, b.where())
    c.floor("global", 300, refs)
    n = 0
    for b, line, uid, fn, t in externals(c):
        n += 1
        bad = uid.startswith(SHARED) or last(ext_name(fn)) in ("try_clone", "set_current_dir", "set_var", "leak", "set_hook",
                                                              "into_raw", "from_raw", "transmute", "forget") \
            or "thread::local" in uid
        if bad:
            for o in c.owner(b):
                c.ob("shared-call", False, f"{b.file}:{line}: {o} calls {uid}", f"{o}:{uid}", b.where(line))
    c.ob("shared-call", n > 200, "too few calls were classified", "count")
    # everything a solver owns
    seen = set()
    st = ["Solver", "CNF", "Config", "SolverIter"]
    m = 0
    while st:
        nm = st.pop()
        if nm in seen or nm not in c.prog.adts:
            continue
        seen.add(nm)
        a = c.prog.adts[nm]
        for v in a["variants"]:
            for f in v[1]:
                m += 1
                ty = f[1]
                bad = [x for x in BADTY if x in ty]
                c.ob("owned", not bad, f"{a['file']}:{a['line']}: {nm}.{f[0]} has type {ty}, which can be shared",
                     f"{nm}.{f[0]}", f"{a['file']}:{a['line']}")
                for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", ty):
                    if w in c.prog.adts:
                        st.append(w)
    c.floor("owned", 100, m)
    for must in ("AssignStack", "ClauseDB", "State", "CertificationStore"):
        c.ob("owned", must in seen, f"{must} is not reached from Solver", "reach:" + must)
    # a clone of the proof store does not share the file
    for b in c.prog.fns("CertificationStore.clone", "splr.lib"):
        F = c.flat(b)
        for k in [x.id for x in F.nodes if x.kind == "call" and x.id in F.at]:
            c.ob("clone", last(F.nodes[k].data[0][0]) in ("default", "clone", "new", "len"), f"{c.where(F, k)}: the clone opens or shares a file",
                 "store:" + last(F.nodes[k].data[0][0]), c.where(F, k))
        for k in c.calls(F, "PathBuf.clone", "Option.clone"):
            c.ob("clone", False, f"{c.where(F, k)}: a cloned solver writes to the same proof file", "target", c.where(F, k))


# ------------------------------------------------------------------ P22
QUIET = ("quiet_mode", "splr_interface")


@prop("P22", "effect analysis: every file, stream and process operation of the library is found and checked against its guard",
      "Decides which functions of the library open files, print or end the process, that the proof file is opened only when "
      "asked for and under the configured name, and that progress output happens only when configured. Effects inside the "
      "standard library are taken from its documentation.")
def p22(c):
    files = {"CNFReader.try_from": ("open",), "CNF.load": ("open",), "CNF.save": ("create",),
             "CertificationStore.instantiate": ("create",), "Logger.new": ("create",), "ClauseDB.dump_cnf": ("create",)}
    n = 0
    for b, line, uid, fn, t in sources(c, ("std::fs",)):
        nm = last(ext_name(fn))
        for o in c.owner(b):
            n += 1
            c.ob("files", nm in files.get(o, ()), f"{b.file}:{line}: {o} does {uid}", f"{o}:{nm}", b.where(line))
    c.floor("files", 5, n)
    for b, line, uid, fn, t in sources(c, ("std::process", "std::net", "std::thread", "std::os", "std::env", "std::sys")):
        for o in c.owner(b):
            c.ob("process", o == "Config.inject_from_args", f"{b.file}:{line}: {o} calls {uid}", f"{o}:{uid}", b.where(line))
    # command-line parsing is not used by the library itself
    c.who_calls("process", ("Config.inject_from_args",), {"main"}, "ends the process", "args")
    # nobody ends the process
    prints = {"CNF.load", "CNFReader.try_from", "Config.inject_from_args", "Logger.dump"}
    guarded = {"State.progress", "State.progress_header", "State.flush"}
    k = 0
    off = F_any(lambda f: not f[1] and f[0][0] == "true" and has_field(f[0], "quiet_mode"))
    on = F_any(lambda f: f[1] and f[0][0] == "true" and has_field(f[0], "splr_interface"))
    live = reachable(c, API + ["Config.inject_from_args"])
    for b, line, uid, fn, t in sources(c, ("std::io::stdio",)):
        if b.uid not in live:
            continue
        for o in c.owner(b):
            k += 1
            if o in guarded:
                F = c.flat(o)
                ns = [x.id for x in F.nodes if x.kind == "call" and x.id in F.at and x.line == line and x.body.uid == b.uid and
                      last(x.data[0][0]) in ("_print", "_eprint", "stdout", "stderr", "flush")]
                if not ns:
                    # inside a closure: the closure's parent must be guarded at its use; take the whole function
                    ns = [x.id for x in F.nodes if x.id in F.at and x.line == line and x.kind == "call"]
                c.only_if("output", F, ns, off, "the quiet mode being off", "quiet:" + o)
                c.only_if("output", F, ns, on, "the progress report being asked for", "interface:" + o)
            else:
                c.ob("output", o in prints or o.startswith("Logger"), f"{b.file}:{line}: {o} writes to a standard stream",
                     "prints:" + o, b.where(line))
    c.floor("output", 10, k)
    # warnings only on failures
    F = c.flat("CNFReader.try_from")
    ns = [x.id for x in F.nodes if x.kind == "call" and x.id in F.at and last(x.data[0][0]) == "_print"]
    c.only_if("output", F, ns, lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err", "a read failure", "reader")
    # the proof file
    from props_proof import pathname
    P = c.flat("CertificationStore.instantiate")
    cr = c.calls(P, "File.create", "OpenOptions.open", "File.options")
    c.floor("proof-file", 1, len(cr))
    c.only_if("proof-file", P, cr, lambda f: f[1] and f[0][0] == "true" and has_field(f[0], "use_certification"),
              "proof output being enabled", "guard")
    for x in cr:
        t = pathname(c, P, x)
        c.ob("proof-file", has_field(t, "io_odir") and has_field(t, "io_pfile") and has_call(t, "join"),
             f"{c.where(P, x)}: creates {tstr(t)[:80]}", "name", c.where(P, x))
    # files are opened under the caller's name
    for fn, nm in (("CNFReader.try_from", "open"), ("CNF.load", "open"), ("CNF.save", "create"), ("Logger.new", "create"),
                   ("ClauseDB.dump_cnf", "create")):
        if not c.prog.fns(fn, "splr.lib"):
            continue
        G = c.flat(fn)
        for x in c.calls(G, "File." + nm):
            t = strip(c.args(G, x)[0])
            while is_call(t, "as_ref", "deref", "borrow", "to_path_buf", "to_owned", "clone"):
                t = strip(t[2][0])
            c.ob("name", t[0] == "arg", f"{c.where(G, x)}: opens {tstr(t)[:80]}", fn, c.where(G, x))
    # ... and the name is the caller's up to the interface
    via = ("dump_cnf", "CNFReader.try_from", "CNF.load", "CNF.save", "Logger.new")
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or not any(fn and any(k == v or last(k) == v for k in c.prog.callkeys(fn, b.crate) for v in via)
                                            for fn in (op_fn(t[2]) for _, t in body_calls(b))):
            continue
        G = c.flat(b)
        for n in G.nodes:
            if n.kind != "call" or n.id not in G.at or not any(k == v or last(k) == v for k in n.data[0] for v in via):
                continue
            a = c.args(G, n.id)
            if not a:
                continue
            if any(last(k) in ("load", "try_from") for k in n.data[0]):
                a = a[:1]
            else:
                a = a[-1:] if "Logger.new" not in n.data[0] else a
            for t in a:
                lits = [constval(x) for x in subterms(t) if x and x[0] == "const" and isinstance(constval(x), str) and constval(x)]
                c.ob("name", not lits, f"{c.where(G, n.id)}: {n.data[0][0]} gets the file name {lits[:1]}",
                     f"via:{b.key}", c.where(G, n.id))
    B = c.flat("Solver.build")
    tf = c.calls(B, "CNFReader.try_from")
    c.floor("name", 1, len(tf))
    for x in tf:
        t = c.args(B, x)[0]
        c.ob("name", has_field(t, "cnf_file"), f"{c.where(B, x)}: reads {tstr(t)[:80]}", "cnf", c.where(B, x))
