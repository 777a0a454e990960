"""P01 SAT answers, P02 UNSAT answers, P03 error discipline, P16 limits."""
from rules import *
from registry import prop

SOLVE_INL = ("search",)


def adt_sites(c, adt, variant, crate="splr.lib"):
    """(body, line) of every construction of adt::variant in the source bodies"""
    out = []
    for b in c.prog.bodies.values():
        if b.crate != crate or b.trait in ("Clone", "PartialEq", "Debug", "PartialOrd", "Hash"):
            continue
        for blk in b.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1].get("k") == "adt" and \
                        short(s[3][1]["adt"]) == adt and s[3][1]["variant"] == variant:
                    out.append((b, s[1]))
        for pb in b.promoted:
            for blk in pb["blocks"]:
                for s in blk["s"]:
                    if s[0] == "=" and s[3][0] == "agg" and s[3][1].get("k") == "adt" and \
                            short(s[3][1]["adt"]) == adt and s[3][1]["variant"] == variant:
                        out.append((b, b.line))
    return out


def adt_nodes(c, F, adt, variant):
    return [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[1][0] == "agg"
            and n.data[1][1].get("k") == "adt" and short(n.data[1][1]["adt"]) == adt
            and n.data[1][1]["variant"] == variant]


def between(c, rule, F, a, b, fact, what, key):
    """every path from node a to node b crosses an edge establishing fact"""
    eo = c.edge_ok(F, [fact])
    p = F.path_after(a, lambda i: F.pn[i] == b, lambda i: False, eo)
    return c.ob(rule, p is None, f"{c.where(F, b)}: reached from {c.where(F, a)} without {what}", key,
                c.where(F, b), F.show(p) if p else None)


def variants_of(c, fn_key, adt="SolverError", depth=0, seen=None):
    """over-approximation of the SolverError variants a call can return: all variants constructed in the
    function, its closures and the local callees whose return type carries a SolverError"""
    seen = set() if seen is None else seen
    b = fn_key if isinstance(fn_key, Body) else c.fn(fn_key)
    if b.uid in seen:
        return set()
    seen.add(b.uid)
    c.functions.add(b.uid)
    out = set()
    bodies = [b] + [x for x in c.prog.closures.get(b.uid, [])]
    for x in list(bodies):
        bodies += [y for y in c.prog.closures.get(x.uid, []) if y not in bodies]
    for x in bodies:
        for blk in x.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[3][0] == "agg" and s[3][1].get("k") == "adt" and short(s[3][1]["adt"]) == adt:
                    out.add(s[3][1]["variant"])
                if s[0] == "=":
                    out |= _fnvals(s[3])
        for bi, t in body_calls(x):
            for a in t[3]:
                f = op_fn(a)
                if f and short(f.get("p", "").rsplit("::", 1)[0]) == adt:
                    out.add(short(f["p"]))
            f = op_fn(t[2])
            r = c.prog.resolve(f, x.crate) if f else None
            if r is not None and adt in r.d.get("sig", "").split("->")[-1]:
                out |= variants_of(c, r, adt, depth + 1, seen)
            elif r is not None and not c.is_known(r):
                out |= variants_of(c, r, adt, depth + 1, seen)
    return out


def _fnvals(rv):
    """tuple constructors used as functions"""
    out = set()

    def go(o):
        if isinstance(o, list) and len(o) == 2 and o[0] == "k" and isinstance(o[1], dict) and "fn" in o[1]:
            p = o[1]["fn"].get("p", "")
            if "SolverError::" in p:
                out.add(short(p))
    for x in rv[1:]:
        go(x)
        if isinstance(x, list):
            for y in x:
                go(y)
    return out


@prop("P01", "path-sensitive must-precede and value-flow analysis over MIR",
      "Decides that a satisfiable answer can only be built after the model was extended, validated clause by clause and "
      "found free of falsified clauses, and that the reported values are that model over variables 1..n; trusts the "
      "driver's MIR dump and the listed std iterator semantics.")
def p01(c):
    P = c.prog
    # construction sites
    sites = adt_sites(c, "Certificate", "SAT")
    c.floor("sat-sites", 1, len(sites))
    for b, line in sites:
        for o in c.owner(b):
            c.ob("sat-sites", o == "Solver.solve", f"{b.file}:{line}: {o} builds a satisfiable answer itself",
                 o, b.where(line))
    F = c.flat("Solver.solve", SOLVE_INL)
    sats = adt_nodes(c, F, "Certificate", "SAT")
    c.floor("sat-guard", 1, len(sats))
    ext = c.calls(F, "AssignStack.extend_model")
    val = c.calls(F, "ClauseDB.validate")
    c.before("sat-order", F, ext, sats, "extending the model to eliminated variables", "extend")
    c.before("sat-order", F, val, sats, "validating the model", "validate")
    c.before("sat-order", F, ext, val, "extending the model", "extend-before-validate")
    c.only_if("sat-guard", F, sats, F_is("None", "validate"), "the validator finding no falsified clause", "validated")
    for v in val:
        a = c.args(F, v)
        c.ob("sat-value", is_call(a[1], "extend_model"), f"{c.where(F, v)}: validates {tstr(a[1])}, not the extended "
             "model", "validated-model", c.where(F, v))
        # between validation and the answer neither the model nor the clauses change
        muts = [n.id for n in F.nodes if n.id in F.at and n.kind == "call" and
                any(k in ("ClauseDB.vivify", "Eliminator.simplify", "ClauseDB.reduce", "AssignStack.extend_model",
                          "ClauseDB.new_clause", "ClauseDB.remove_clause") for k in n.data[0])]
        for s in sats:
            for m in muts:
                p = F.path_after(v, lambda i: F.pn[i] == m, lambda i: False)
                q = F.path_after(m, lambda i: F.pn[i] == s, lambda i: F.pn[i] in val) if p else None
                c.ob("sat-order", not (p and q), f"{c.where(F, m)}: runs between the validation and the answer",
                     "nothing-between", c.where(F, m))
    # nor is the validated vector written to
    hold = {}
    for n in F.nodes:
        if n.id in F.at and n.kind in ("assign", "call"):
            d = n.data[0] if n.kind == "assign" else n.data[2]
            if d and not d[1]:
                hold.setdefault(d[0], []).append(n)
    mine, grow = set(), True
    while grow:
        grow = False
        for loc, ds in hold.items():
            if loc in mine:
                continue
            for n in ds:
                src = n.id in ext if n.kind == "call" else n.data[1][0] == "use" and n.data[1][1][0] in ("c", "m") and \
                    n.data[1][1][1][0] in mine and not n.data[1][1][1][1]
                if src:
                    mine.add(loc)
                    grow = True
    for n in F.nodes:
        if n.id not in F.at or n.kind != "assign":
            continue
        w = n.data[1][2] if n.data[1][0] in ("ref", "raw") and n.data[1][1] == "mut" else n.data[0] if n.data[0][1] else None
        if w is None or w[0] not in mine:
            continue
        for v in val:
            p = F.path_after(v, lambda i: F.pn[i] == n.id, lambda i: False)
            q = p and any(F.path_after(n.id, lambda i: F.pn[i] == s2, lambda i: F.pn[i] in val) for s2 in sats)
            c.ob("sat-value", not (p and q), f"{c.where(F, n.id)}: the model is opened for writing after it was validated",
                 "model-edited", c.where(F, n.id))
    # a rejected model leads to an error, never to any answer
    for s in adt_nodes(c, F, "Certificate", "UNSAT"):
        bad = F_is("Some", "validate")
        p = [i for i in F.at.get(s, []) if any(bad(f) for f in F.facts().get(i, ()))]
        c.ob("sat-guard", not p, f"{c.where(F, s)}: unsatisfiable answered for a model that failed validation",
             "failed-validation", c.where(F, s))
    # the answer is the validated model
    def model(t):
        return has_call(t, "extend_model")

    def model_elem(t):
        """an element of an iteration over the model"""
        return t and t[0] == "elem" and any(model(F.term(x)) for x in F.nodes[t[1]].data[1][:1]) or \
            t and t[0] == "field" and t[1][0] == "variant" and is_call(t[1][1], "next") and model(t[1][1])

    def from_model(t):
        return model(t) or has(t, model_elem)

    def upstream_terms(t):
        """the iterators a term's elements come from"""
        out = [t]
        for x in subterms(t):
            if x and x[0] == "elem":
                out += [F.term(y) for y in F.nodes[x[1]].data[1][:1]]
        return out
    for s in sats:
        n = F.nodes[s]
        op = n.data[1][2][0]
        t = F.term(op)
        ps = pushed(F, t) if is_call(t, "new", "with_capacity") else []
        srcs = [t]
        for p in ps:
            srcs += [F.term(F.nodes[p].data[1][1])] + list(c.upstream(F, p))
        c.ob("sat-value", any(from_model(x) for x in srcs),
             f"{c.where(F, s)}: the answer {tstr(t)[:80]} does not derive from the extended model", "answer-model",
             c.where(F, s))
        names = {last(x[1]) for u in srcs for x in subterms(u) if x and x[0] == "call"}
        for w in ("take", "step_by", "filter", "take_while", "skip_while", "rev", "filter_map", "flat_map", "dedup",
                  "map_while", "last", "nth", "zip", "chain", "cycle"):
            c.ob("sat-value", w not in names, f"{c.where(F, s)}: the answer goes through {w}", "answer-iter:" + w,
                 c.where(F, s))
        for p in ps:
            if loop_around(F, p):
                c.each_iteration("sat-value", F, [p], "adding the variable's value to the answer", "answer-each")
                c.no_early_exit("sat-value", F, p, "the loop over the answer", "answer-all")
        # first variable is 1, the last one is the last variable
        starts = [constval(x[2][1]) for u in srcs for x in subterms(u) if is_call(x, "skip") and len(x[2]) == 2]
        starts += [constval(x[2][0]) for u in srcs for x in subterms(u) if is_call(x, "RangeInclusive.new")]
        for u in srcs:
            for x in subterms(u):
                if x and x[0] == "adt" and x[1] in ("Range", "RangeFrom") and from_range(u, x):
                    starts.append(constval(dict(x[3]).get("start", ("?",))))
                    end = dict(x[3]).get("end")
                    if end is not None:
                        c.ob("sat-value", not (end[0] == "field" and end[2] == "num_vars"),
                             f"{c.where(F, s)}: the answer stops before the last variable", "answer-end", c.where(F, s))
        c.ob("sat-value", all(v == 1 for v in starts) and (starts or not names or bool(ps)),
             f"{c.where(F, s)}: the answer starts at variable(s) {starts}", "answer-start", c.where(F, s))
    # sign and variable of each reported literal come from the same index of the model
    k = 0
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and "Lit.from" in n.data[0]:
            t = F.term(n.data[1][0])
            if not from_model(t):
                continue
            k += 1
            ok = False
            if t[0] == "tuple" and len(t[1]) == 2:
                vi, sg = t[1]
                idx = [x for x in subterms(sg) if x and x[0] == "index" and model(x[1])]
                neg = has(sg, lambda x: (x[0] == "un" and x[1] == "Not") or is_call(x, "not", "unwrap_or",
                                                                                  "unwrap_or_default"))
                if idx:
                    ok = all(strip(x[2]) == strip(vi) for x in idx) and not neg
                else:
                    # index and value of one element of an enumeration of the model
                    pairs = [x for x in subterms(sg) if x and x[0] == "field" and x[2] == "1"]
                    its = [u for x in pairs if ("field", x[1], "0") == vi for u in upstream_terms(x)]
                    en = [x for u in its for x in subterms(u) if is_call(x, "enumerate")]
                    ok = bool(en) and not neg and all(from_model(x) and not has_call(x[2][0], "skip", "rev", "filter")
                                                      for x in en)
                other = [x for x in subterms(sg) if x and (x[0] == "index" and not from_model(x[1]) or is_call(
                    x, "or", "or_else", "xor", "and", "assign", "assigned", "assign_ref", "filter"))]
                ok = ok and not other
            c.ob("sat-value", ok, f"{c.where(F, n.id)}: reported literal {tstr(t)[:120]} does not pair a variable with "
                 "its own value", "literal-sign", c.where(F, n.id))
    c.floor("sat-value", 1, k)
    validator(c)


def from_range(u, x):
    """a range is iterated, not used as an index"""
    return not any(i and i[0] == "index" and has(i[2], lambda y: y == x) for i in subterms(u))


def pushed(F, t):
    """calls that append to the vector made by the call t"""
    return [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and n.data[0] and n.data[1] and
            n.data[0][0] in ("Vec.push", "Vec.extend", "Vec.insert", "Vec.append") and F.term(n.data[1][0]) == t]


def validator(c):
    F = c.flat("ClauseDB.validate")
    ev = c.calls(F, "Clause.evaluate")
    c.floor("validator", 1, len(ev))
    dead = F_true(True, "is_dead")
    learnt = F_flag(True, "LEARNT")
    c.each_iteration("validator", F, ev, "evaluating the clause", "every-clause", [dead, learnt])
    for e in ev:
        c.no_early_exit("validator", F, e, "the validation loop", "all-clauses",
                        [lambda f: f[1] and f[0][0] == "is" and f[0][2] in ("Some", "None") and
                         is_call(f[0][1], "evaluate")])
        a = c.args(F, e)
        c.ob("validator", "model" in root_args(a[1]), f"{c.where(F, e)}: evaluates under {tstr(a[1])}", "model-arg",
             c.where(F, e))
        src = [constval(x[2][1]) for x in subterms(a[0]) if is_call(x, "skip") and len(x[2]) == 2]
        c.ob("validator", all(v == 1 for v in src), f"{c.where(F, e)}: validation skips {src} slots", "start",
             c.where(F, e))
        names = {last(x[1]) for x in subterms(a[0]) if x and x[0] == "call"}
        c.ob("validator", not names & {"take", "step_by", "skip_while", "take_while", "rev", "map_while"},
             f"{c.where(F, e)}: validation iterates through {names}", "iter", c.where(F, e))
    # learnt clauses may be skipped only in strict mode; a dead clause is the only other reason
    strict = lambda f: f[1] and f[0][0] == "true" and f[0][1][0] == "arg" and f[0][1][3] == "strict"
    for i, av in F.returns():
        if av is not None and av[0] == "v" and av[1] == "None":
            # None only after the loop is exhausted
            def fact(f):
                return f[1] and f[0][0] == "is" and f[0][2] == "None" and has_call(f[0][1], "next")
            asked = {F.frame_hof.get(F.nodes[e].frame) for e in ev} - {None}
            asked = {x for x in asked if last(F.nodes[x].data[0][0]) in ("find", "find_map", "position", "any", "all")}
            p = F._find(F.pstart, lambda x: x == i, lambda x: F.pn[x] in asked, c.edge_ok(F, [fact]))
            c.ob("validator", p is None, f"{F.root.where()}: validate accepts without visiting every clause",
                 "none-after-all", F.root.where(), F.show(p) if p else None)
            # and no falsified clause was seen: the edge 'evaluate is Some(false)' cannot lead here
            for s in [n for n in F.nodes if n.kind == "switch" and n.id in F.at]:
                for pi in F.at[s.id]:
                    for j, e in F.ps[pi]:
                        fs = F.edge_facts(s, e)
                        if any(not f[1] and f[0][0] == "true" and has_call(f[0][1], "evaluate") for f in fs):
                            q = F._find(j, lambda x: x == i, lambda x: False)
                            c.ob("validator", q is None,
                                 f"{c.where(F, s.id)}: a falsified clause does not stop validation", "falsified",
                                 c.where(F, s.id), F.show(q) if q else None)
    # skipping a learnt clause needs strict
    rounds = {n.id for n in F.nodes if n.kind == "call" and n.id in F.at and last(n.data[0][0]) == "next"} | \
        {F.frame_hof.get(F.nodes[e].frame) for e in ev} - {None}
    for s in [n for n in F.nodes if n.kind == "switch" and n.id in F.at]:
        for e in {e for pi in F.at[s.id] for _, e in F.ps[pi]}:
            if e is None:
                continue
            for f in F.edge_facts(s, e):
                if learnt(f):
                    ok = any(strict(g) for g in F.facts_at(s.id))
                    later = any(True for pi in F.at[s.id] for j, e2 in F.ps[pi] if e2 == e and
                                F._find(j, lambda x: F.pn[x] in ev, lambda x: F.pn[x] in rounds, c.edge_ok(F, [strict])))
                    c.ob("validator", ok or later, f"{c.where(F, s.id)}: learnt clauses are skipped although validation "
                         "is not strict", "learnt-skip", c.where(F, s.id))
    # Clause::evaluate
    G = c.flat("Clause.evaluate")

    def sat_fact(f):
        if not f[1]:
            return False
        if f[0][0] == "true" and is_call(f[0][1], "any") and len(f[0][1]) > 3 and f[0][1][3] in G.hof:
            return any(g[0][0] == "eq" and sat_fact(g)
                       for g in c.implied(G, ("c", (G.hof[f[0][1][3]][1], ())), True) or ())
        if f[0][0] == "eq":
            return has(f[0], lambda x: x[0] == "index" and "model" in root_args(x[1])) and \
                has_call(f[0], "bool.from", "as_bool", "from") and not has(f[0], lambda x: x[0] == "un" and x[1] == "Not")
        return f[0][0] == "is" and False

    none_fact = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None" and f[0][1][0] == "index"
    n = 0
    for i, av in G.returns():
        if av is None:
            c.ob("evaluate", False, f"{G.root.where()}: evaluate returns a value the analysis cannot classify", "ret",
                 G.root.where())
            continue
        n += 1
        if av[1] == "Some":
            v = dict(av[2]).get("0")
            if v == ("i", 1):
                p = G._find(G.pstart, lambda x: x == i, lambda x: False, c.edge_ok(G, [sat_fact]))
                c.ob("evaluate", p is None, f"{G.root.where()}: a clause is called satisfied without a literal agreeing "
                     "with the model", "true", G.root.where(), G.show(p) if p else None)
            elif v == ("i", 0):
                fact = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None" and has_call(f[0][1], "next") or \
                    f[0][0] == "true" and is_call(f[0][1], "all" if f[1] else "any") and has_field(f[0][1], "lits") and \
                    not has_call(f[0][1], "skip", "take", "step_by", "skip_while", "take_while", "filter")
                p = G._find(G.pstart, lambda x: x == i, lambda x: False, c.edge_ok(G, [fact]))
                c.ob("evaluate", p is None, f"{G.root.where()}: a clause is called falsified before all literals were "
                     "seen", "false", G.root.where(), G.show(p) if p else None)
    c.floor("evaluate", 3, n)
    idx = [x for m in G.nodes if m.kind == "call" and m.id in G.at for x in [m] if "Lit.vi" in m.data[0]]
    c.ob("evaluate", len(idx) >= 1, f"{G.root.where()}: evaluate does not look literals up by variable", "vi",
         G.root.where())


CONTRA = {"RootLevelConflict", "EmptyClause", "Inconsistent"}


@prop("P02", "error-variant may-return analysis plus guarded-construction rule over MIR",
      "Decides that each place that answers unsatisfiable is reachable only through a contradiction result of a named "
      "procedure whose possible error variants exclude resource, I/O and internal errors (or after the clause-limit "
      "check passed); does not decide that the contradiction itself was soundly derived.")
def p02(c):
    allowed = {"Solver.solve", "Solver.try_from", "Certificate.try_from"}
    sites = adt_sites(c, "Certificate", "UNSAT")
    c.floor("unsat-sites", 5, len(sites))
    for b, line in sites:
        for o in c.owner(b):
            c.ob("unsat-sites", o in allowed, f"{b.file}:{line}: {o} answers unsatisfiable", o, b.where(line))
    F = c.flat("Solver.solve", ())
    un = adt_nodes(c, F, "Certificate", "UNSAT")
    c.floor("unsat-guard", 5, len(un))
    search_contra = lambda f: f[1] and f[0][0] == "is" and f[0][2] in CONTRA and has_call(f[0][1], "search")

    def search_false(f):
        return not f[1] and f[0][0] == "true" and has_call(f[0][1], "search")
    e_viv = F_is("Err", "vivify")
    e_elim = F_is("Err", "simplify")
    e_assign = F_is("Err", "assign_at_root_level")
    guard = F_any(e_viv, e_elim, e_assign, search_contra, search_false)
    c.only_if("unsat-guard", F, un, guard, "a contradiction reported by preprocessing, root assignment or search",
              "contradiction")
    elim = c.calls(F, "Eliminator.simplify")
    checked = F_is("Ok", "check_size")
    for s in elim:
        for u in un:
            # only the UNSAT reached through this call's failure
            eo = lambda i, j, e: True
            fs = F.facts_at(u)
            t = F.call_term(F.nodes[s])
            if any(f[1] and f[0][0] == "is" and f[0][2] == "Err" and f[0][1] == t for f in fs):
                between(c, "unsat-limit", F, s, u, checked, "checking that the clause limit was not the cause",
                        "check-size")
    v = variants_of(c, "ClauseDB.vivify")
    c.ob("unsat-variants", v <= CONTRA, f"vivification can fail with {sorted(v - CONTRA)}, which is answered as "
         "unsatisfiable", "vivify", "src/cdb/vivify.rs")
    v = variants_of(c, "AssignStack.assign_at_root_level")
    c.ob("unsat-variants", v <= CONTRA, f"a root assignment can fail with {sorted(v - CONTRA)}, which is answered as "
         "unsatisfiable", "assign", "src/assign/propagate.rs")
    v = variants_of(c, "Eliminator.simplify")
    c.ob("unsat-variants", v <= CONTRA | {"OutOfMemory"}, f"the eliminator can fail with "
         f"{sorted(v - CONTRA - {'OutOfMemory'})}, which is answered as unsatisfiable", "simplify",
         "src/processor/simplify.rs")
    v = variants_of(c, "search")
    c.ob("unsat-variants", "RootLevelConflict" in v and "TimeOut" in v, f"search reports {sorted(v)}", "search",
         "src/solver/search.rs")
    # search itself: contradiction errors only where a conflict at root level was found
    G = c.flat("search")
    for n in adt_nodes(c, G, "SolverError", "RootLevelConflict") + adt_nodes(c, G, "SolverError", "EmptyClause"):
        c.only_if("search-conflict", G, [n], F_is("Err", "propagate"), "a propagation conflict", "conflict")
        root = lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "decision_level") and \
            (has_call(f[0], "root_level") or has_field(f[0], "root_level"))
        c.only_if("search-conflict", G, [n], root, "the conflict being at the root level", "root-level")
    # conflict analysis: a falsified literal is a contradiction at the root level only
    H = c.flat("handle_conflict")
    made = adt_nodes(c, H, "SolverError", "RootLevelConflict")
    c.floor("search-conflict", 1, len(made))

    def rootonly(f):
        t, b = f
        if t[0] == "true" and is_call(t[1], "all" if b else "any"):
            return True
        lv = lambda x: has_call(x, "level") or has_field(x, "level")
        rt = lambda x: (has_call(x, "root_level") or has_field(x, "root_level")) and not lv(x)
        if t[0] == "eq" and b:
            return any(lv(x) and (is_call(y, "root_level") or rt(y) and y[0] != "bin" or constval(y) == 0)
                       for x, y in ((t[1], t[2]), (t[2], t[1])))
        if t[0] != "lt":
            return False
        x, y = (t[1], t[2]) if b else (t[2], t[1])      # x < y, or x <= y
        if not lv(x) or lv(y):
            return False
        k = [z for z in subterms(y) if z and z[0] == "bin"]
        v = constval(y)
        if v is not None:
            return v <= (1 if b else 0)
        d = [constval(z) for w in k for z in w[2:] if constval(z) is not None]
        return rt(y) and (not k or b and d == [1] and "Add" in str(k[0][1]))
    c.only_if("search-conflict", H, made, rootonly, "the conflict being at the root level", "analysed-root")
    for i, av in G.returns():
        if av is not None and av[1] == "Ok" and dict(av[2]).get("0") == ("i", 0):
            c.ob("search-conflict", False, f"{G.root.where()}: search answers Ok(false)", "okfalse", G.root.where())
    # contradictions elsewhere: every RootLevelConflict / EmptyClause / Inconsistent construction is guarded
    contradiction_sources(c)
    # vector / TryFrom front ends
    T = c.flat("Solver.try_from") if False else None
    for b in c.prog.fns("Solver.try_from", "splr.lib"):
        T = c.flat(b)
        for u in adt_nodes(c, T, "Certificate", "UNSAT"):
            def from_load(t):
                # the error itself, or what a closure given to the result receives
                return has_call(t, "inject_from_vec") or (
                    t[0] == "elem" and T.nodes[t[1]].kind == "call" and T.nodes[t[1]].data[1] and
                    last(T.nodes[t[1]].data[0][0]) in ("map_err", "or_else", "unwrap_or_else", "inspect_err") and
                    has_call(T.term(T.nodes[t[1]].data[1][0]), "inject_from_vec"))
            contra = lambda f: f[1] and f[0][0] == "is" and f[0][2] in CONTRA and from_load(f[0][1])
            c.only_if("unsat-guard", T, [u], contra, "a contradiction while loading", "try_from")
    for b in c.prog.fns("Certificate.try_from", "splr.lib"):
        T = c.flat(b)
        for u in adt_nodes(c, T, "Certificate", "UNSAT"):
            contra = lambda f: f[1] and f[0][0] == "is" and f[0][2] in CONTRA
            c.only_if("unsat-guard", T, [u], contra, "a contradiction while loading", "cert_try_from")


def contradiction_sources(c):
    """where the error values that later become UNSAT are made"""
    allowed = {
        ("RootLevelConflict", "AssignStack.assign_at_root_level"),
        ("RootLevelConflict", "AssignStack.clear_asserted_literals"),
        ("RootLevelConflict", "Solver.add_assignment"),
        ("RootLevelConflict", "search"), ("RootLevelConflict", "handle_conflict"),
        ("RootLevelConflict", "ClauseDB.vivify"),
        ("RootLevelConflict", "Eliminator.simplify"),
        ("RootLevelConflict", "Eliminator.eliminate"), ("RootLevelConflict", "Eliminator.eliminate_main"),
        ("RootLevelConflict", "Eliminator.backward_subsumption_check"),
        ("RootLevelConflict", "AssignStack.propagate_at_root_level"),
        ("EmptyClause", "Solver.add_clause"), ("EmptyClause", "Solver.inject"),
        ("EmptyClause", "Solver.inject_from_vec"), ("Inconsistent", "Solver.inject_assignment"),
        ("EmptyClause", "AssignStack.propagate_at_root_level"), ("EmptyClause", "ClauseDB.vivify"),
        ("EmptyClause", "handle_conflict"), ("RootLevelConflict", "eliminate_var"),
        ("RootLevelConflict", "strengthen_clause"),
    }
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in ("Clone", "PartialEq", "Debug"):
            continue
        vs = []
        for blk in b.blocks:
            for s in blk["s"]:
                if s[0] == "=":
                    if s[3][0] == "agg" and s[3][1].get("k") == "adt" and short(s[3][1]["adt"]) == "SolverError":
                        vs.append((s[3][1]["variant"], s[1]))
            t = blk["t"]
            if t[0] == "call":
                for a in t[3]:
                    f = op_fn(a)
                    if f and "SolverError::" in f.get("p", ""):
                        vs.append((short(f["p"]), t[1]))
        for v, line in vs:
            if v not in CONTRA:
                continue
            for o in c.owner(b):
                n += 1
                c.ob("contradiction-source", (v, o) in allowed, f"{b.file}:{line}: {o} reports {v}", f"{v}:{o}",
                     b.where(line))
    c.floor("contradiction-source", 10, n)
    # every such error value is made where a contradiction is visible
    def lenzero(f):
        t, b = f
        if t[0] == "eq" and b and any(constval(x) == 0 for x in t[1:]) and has_call(t, "len"):
            return True
        if t[0] == "true" and b and is_call(t[1], "is_empty"):
            return True
        return t[0] == "lt" and b and has_call(t[1], "len") and constval(t[2]) == 1

    def falsified(f):
        t, b = f
        # a literal's value is known to be false
        if t[0] == "true" and not b and t[1][0] == "field" and t[1][1][0] == "variant" and t[1][1][2] == "Some" and \
                (has_call(t[1], "assigned", "assign") or has_field(t[1], "assign")):
            return True
        # the variable's value differs from the literal's sign
        return t[0] == "eq" and (has_call(t, "assigned", "assign") or has_field(t, "assign")) and \
            ((not b and has_call(t, "bool.from")) or
             (b and has(t, lambda x: x[0] == "adt" and x[2] == "Some" and any(constval(v) == 0 for _, v in x[3]))))

    def empties(f):
        t, b = f
        return b and t[0] == "is" and (t[2] == "EmptyClause" or
                                       (t[2] == "Err" and has_call(t, "propagate_sandbox", "propagate",
                                                                   "propagate_at_root_level")))

    def rootconf(f):
        t, b = f
        return t[0] == "true" and is_call(t[1], "all" if b else "any") and has_call(t, "iter")
    visible = F_any(lenzero, falsified, empties, rootconf)
    k = 0
    done = set()
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or b.trait in ("Clone", "PartialEq", "Debug"):
            continue
        if not any(x in b.d.get("sig", "") for x in ("SolverError", "Certificate", "MaybeInconsistent")):
            continue
        F = c.flat(b)
        for v in CONTRA:
            for n in adt_nodes(c, F, "SolverError", v):
                nb = F.nodes[n].body
                if (nb.uid, F.nodes[n].line) in done and nb.uid != b.uid:
                    continue
                done.add((nb.uid, F.nodes[n].line))
                if nb.kind == "closure":
                    # a map_err closure: the failure it replaces must come from propagation
                    ok = False
                    for m in c.calls(F, "Result.map_err", "Result.or_else", "Result.map_or", "Option.ok_or_else"):
                        if F.nodes[m].frame == F.frame_parent[F.nodes[n].frame][0]:
                            ok |= is_call(c.args(F, m)[0], "propagate_sandbox", "propagate", "propagate_at_root_level")
                    k += 1
                    c.ob("contradiction-source", ok, f"{c.where(F, n)}: {v} replaces a failure that is not a propagation "
                         "conflict", "map:" + sorted(c.owner(b))[0], c.where(F, n))
                    continue
                k += 1
                c.only_if("contradiction-source", F, [n], visible, "a falsified or empty clause", f"visible:{b.key}:{v}")
    c.floor("contradiction-source", 15, k)


RESULT_TYS = ("SolverError", "ConflictContext", "AssignReason")

TRIAL = ("ClauseDB.vivify", "AssignStack.propagate_sandbox")

# call sites whose failure is not passed on as an error, confirmed by reading
P03_EXCEPT = {
    ("AssignStack.reuse_saved_trail", "AssignStack.truncate_trail_saved"): "returns Ok only; used on the way to an Err",
    ("search", "AssignStack.propagate"): "a conflict is handed to conflict analysis",
    ("ClauseDB.vivify", "AssignStack.propagate_sandbox"): "trial propagation: a conflict shortens the clause",
    ("skip_var_elimination", "ClauseDB.check_size"): "over the limit: the variable is not eliminated; simplify reports it",
    ("Solver.add_unchecked_clause", "AssignStack.assign_at_root_level"): "becomes RefClause::EmptyClause",
    ("remove_clause_fn", "BinaryLinkDB.remove"): "expect: aborts",
    ("handle_conflict", "AssignStack.assign_at_root_level"): "reported as RootLevelConflict",
    ("Certificate.try_from", "Solver.try_from"): "map_or_else keeps both arms",
    ("Solver.try_from", "Solver.inject_from_vec"): "both arms kept",
}


@prop("P03", "interprocedural result-use analysis (must-check, must-propagate) over MIR",
      "Every call in the library that can report a contradiction or failure is found by its resolved return type; its "
      "result must be inspected or returned, and each failing branch must end in an error/contradiction result. "
      "Exceptions are a frozen table of confirmed sites.")
def p03(c):
    nsite = 0
    for b in list(c.prog.bodies.values()):
        if b.crate != "splr.lib" or b.kind == "closure" or b.trait in ("Clone", "PartialEq", "Debug"):
            continue
        if not any(_is_result(b.locals[t[4][0]]) for _, t in body_calls(b) if not t[4][1]):
            continue
        F = c.flat(b)
        for n in F.nodes:
            if n.kind != "call" or n.id not in F.at or n.data[2][1]:
                continue
            loc = n.data[2][0]
            fb = F.frame_body[loc[0]]
            ty = fb.locals[loc[1]]
            if not _is_result(ty) or n.data[0][-1] in ("branch", "from_residual", "map_err", "map", "map_or",
                                                       "clone", "is_err", "is_ok", "next", "index", "and_then"):
                continue
            callee = c.prog.resolve(n.data[3], n.body.crate) if n.data[3] else None
            if callee is None and "File.open" not in n.data[0]:
                continue
            nsite += 1
            owner = sorted(c.owner(n.body))[0]
            key = f"{owner}->{n.data[0][0]}"
            kinds, final = result_uses(F, loc)
            used = bool(kinds)
            if (owner, n.data[0][0]) == ("AssignStack.reuse_saved_trail", "AssignStack.truncate_trail_saved"):
                continue
            c.ob("result-used", used, f"{c.where(F, n.id)}: the result of {n.data[0][0]} is dropped", key,
                 c.where(F, n.id))
            if not used:
                continue
            lossy = kinds & {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok_and", "iter", "err",
                             "is_some_and", "flatten", "or", "or_else"}
            c.ob("result-used", not lossy, f"{c.where(F, n.id)}: the failure of {n.data[0][0]} is discarded by "
                 f"{sorted(lossy)}", key + ":lossy", c.where(F, n.id))
            ex = [(o, k) for o in c.owner(n.body) | {b.key} for k in n.data[0] if (o, k) in P03_EXCEPT]
            if ex and ex != [TRIAL]:
                continue
            if ex:
                # only a propagation of tentative decisions
                dec = c.calls(F, "AssignStack.assign_by_decision")
                undo = c.calls(F, "AssignStack.backtrack_sandbox", "AssignStack.cancel_until")
                if any(F.path_after(d, lambda i: F.pn[i] == n.id, lambda i: F.pn[i] in undo) for d in dec):
                    continue
            if n.id in _ret_flow(F):
                continue
            # failing edges
            t = F.call_term(n)
            starts = []
            for s in F.nodes:
                if s.kind != "switch" or s.id not in F.at:
                    continue
                for pi in F.at[s.id]:
                    for j, e in F.ps[pi]:
                        if e is None:
                            continue
                        if any(f[1] and f[0][0] == "is" and f[0][2] == "Err" and _same_origin(f[0][1], t)
                               for f in F.edge_facts(s, e)):
                            starts.append((pi, j, s.id))
            flows = "RET" in final or kinds & {"map", "map_or", "map_or_else", "unwrap", "expect"}
            c.ob("result-used", bool(starts) or bool(flows),
                 f"{c.where(F, n.id)}: the failure of {n.data[0][0]} is never told apart from success", key + ":tested",
                 c.where(F, n.id))
            for pi, j, sid in starts:
                def goal(x):
                    if F.nodes[F.pn[x]].kind != "return":
                        return False
                    return not errlike(F.pval[x].get((0, 0)))
                p = F._find(j, goal, lambda x: False)
                c.ob("failure-propagates", p is None,
                     f"{c.where(F, sid)}: after {n.data[0][0]} fails, {b.key} can return as if nothing happened", key,
                     c.where(F, n.id), F.show([pi] + p) if p else None)
    c.floor("result-used", 30, nsite)
    p03_special(c)


def _is_result(ty):
    return "Result<" in ty and any(x in ty for x in RESULT_TYS)


def _same_origin(t, call):
    """t is the call's value, possibly through map_err/map/branch"""
    if t == call:
        return True
    if t[0] == "try":
        return _same_origin(t[1], call)
    if is_call(t, "map_err", "map", "and_then", "clone") and t[2]:
        return _same_origin(t[2][0], call)
    return False


def errlike(av):
    if av is None or av[0] != "v":
        return False
    if av[1] == "Err":
        return True
    if av[1] == "EmptyClause":
        return True
    if av[1] == "Ok":
        x = dict(av[2]).get("0")
        return x is not None and x[0] == "v" and x[1] == "UNSAT"
    return False


def _ret_flow(F):
    return set()


def result_uses(F, loc, depth=0, seen=None):
    seen = seen if seen is not None else set()
    kinds, final = set(), set()
    if loc in seen or depth > 8:
        return kinds, final
    seen.add(loc)
    if loc == (0, 0) or (loc[1] == 0 and F.frame_body[loc[0]].kind == "closure"):
        final.add("RET")
        kinds.add("RET")
    for m in F.nodes:
        if m.id not in F.at or loc not in F._uses(m):
            continue
        if m.kind in ("call", "diverge"):
            nm = m.data[0][-1]
            kinds.add(nm)
            if nm in ("map_err", "map", "branch", "map_or", "map_or_else", "and_then", "from_residual"):
                k2, f2 = result_uses(F, m.data[2][0], depth + 1, seen)
                kinds |= {"via:" + nm}
                final |= f2
                if nm in ("map", "map_err", "and_then"):
                    kinds |= k2
                    if not k2:
                        kinds.discard(nm)
        elif m.kind == "assign":
            k = m.data[1][0]
            if k in ("use", "ref") and not m.data[0][1]:
                k2, f2 = result_uses(F, m.data[0][0], depth + 1, seen)
                kinds |= k2
                final |= f2
            elif k == "discr":
                kinds.add("match")
            elif k == "agg":
                kinds.add("agg")
                k2, f2 = result_uses(F, m.data[0][0], depth + 1, seen)
                final |= f2
            elif k == "use":
                kinds.add("store")
        elif m.kind == "return":
            kinds.add("RET")
            final.add("RET")
        elif m.kind == "switch":
            kinds.add("match")
    return kinds, final


def p03_special(c):
    # an empty clause found while adding becomes an error at every caller
    n = 0
    for b, line in c.callers("Solver.add_unchecked_clause"):
        for o in c.owner(b):
            F = c.flat(o)
            for k in c.calls(F, "Solver.add_unchecked_clause"):
                n += 1
                t = F.call_term(F.nodes[k])
                fact = lambda f: f[1] and f[0][0] in ("is",) and f[0][2] == "EmptyClause" and f[0][1] == t
                nofact = lambda f: not f[1] and f[0][0] in ("is",) and f[0][2] == "EmptyClause" and f[0][1] == t
                # going on needs the 'not empty' edge
                goal = lambda x: F.nodes[F.pn[x]].kind == "return" and not errlike(F.pval[x].get((0, 0)))
                p = F.path_after(k, goal, lambda x: False, c.edge_ok(F, [nofact]))
                c.ob("empty-clause", p is None, f"{c.where(F, k)}: an empty clause is accepted", o, c.where(F, k),
                     F.show(p) if p else None)
    c.floor("empty-clause", 3, n)
    unit_used(c)
    empty_used(c)
    # search: every conflict is analysed or ends the search
    G = c.flat("search")
    pr = c.calls(G, "AssignStack.propagate")
    c.floor("search-conflict", 1, len(pr))
    hc = c.calls(G, "handle_conflict")
    for k in pr:
        t = G.call_term(G.nodes[k])
        for s in G.nodes:
            if s.kind != "switch" or s.id not in G.at:
                continue
            for pi in G.at[s.id]:
                for j, e in G.ps[pi]:
                    if e is None or not any(f[1] and f[0] == ("is", t, "Err") for f in G.edge_facts(s, e)):
                        continue

                    def goal(x):
                        nn = G.nodes[G.pn[x]]
                        return G.pn[x] == k or (nn.kind == "return" and not errlike(G.pval[x].get((0, 0))))
                    p = G._find(j, goal, lambda x: G.pn[x] in hc)
                    c.ob("search-conflict", p is None, f"{c.where(G, k)}: a conflict is ignored", "handled",
                         c.where(G, k), G.show(p) if p else None)
    H = c.flat("handle_conflict")
    for k in c.calls(H, "AssignStack.assign_at_root_level"):
        t = H.call_term(H.nodes[k])
        starts = [(pi, j) for s in H.nodes if s.kind == "switch" and s.id in H.at for pi in H.at[s.id]
                  for j, e in H.ps[pi] if e is not None and any(f[1] and f[0] == ("is", t, "Err")
                                                                for f in H.edge_facts(s, e))]
        kinds, final = result_uses(H, H.nodes[k].data[2][0])
        c.ob("search-conflict", bool(starts) or kinds & {"unwrap", "expect"} or "RET" in final,
             f"{c.where(H, k)}: the failure to assert a unit is not tested",
             "unit-tested", c.where(H, k))
        for pi, j in starts:
            p = H._find(j, lambda x: H.nodes[H.pn[x]].kind == "return" and not errlike(H.pval[x].get((0, 0))),
                        lambda x: False)
            c.ob("search-conflict", p is None, f"{c.where(H, k)}: a root contradiction found by learning is ignored",
                 "unit", c.where(H, k), H.show(p) if p else None)
    from props_check import root_clash
    root_clash(c, "root-clash")
    # simplify reports the limit it hit
    E = c.flat("Eliminator.simplify")
    c.always("limit-reported", E, c.calls(E, "ClauseDB.check_size"), "checking the clause limit", "simplify",
             [F_is("Err", "eliminate"), F_is("Err", "propagate_at_root_level"), F_is("Err", "propagate"),
              F_is("Err", "map_err"),
              lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err"])


def lit_true(f):
    """the tested literal is known to be true"""
    t, b = f
    if not b:
        return False
    if t[0] == "true" and t[1][0] == "field" and t[1][1][0] == "variant" and t[1][1][2] == "Some":
        x = t[1][1][1]
    elif t[0] == "eq" and any(y[0] == "adt" and y[2] == "Some" and any(constval(v) in (1, True) for _, v in y[3])
                              for y in t[1:] if isinstance(y, tuple) and y):
        x = next(y for y in t[1:] if not (y[0] == "adt"))
    else:
        return False
    return is_call(x, "assigned") and not any(is_call(y, "not") or (y[0] == "un" and y[1] == "Not") for y in x[2])


def unit_used(c):
    """a clause found to have a single literal left is asserted (or already true) before the step goes on"""
    UNIT = [("strengthen_clause", ("transform_by_elimination", "transform_by_simplification", "transform_by_replacement"),
             "UnitClause"),
            ("AssignStack.propagate_at_root_level", ("transform_by_elimination", "transform_by_simplification",
                                                     "transform_by_replacement"), "UnitClause"),
            ("eliminate_var", ("merge",), 1), ("ClauseDB.vivify", ("len",), 1), ("handle_conflict", ("len",), 1)]
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or not c.is_known(b):
            continue
        if b.key in [u[0] for u in UNIT] or b.key.startswith("ClauseDB.transform"):
            continue
        if any(op_fn(t[2]) and any(last(k) in UNIT[0][1] for k in c.prog.callkeys(op_fn(t[2]), b.crate))
               for _, t in body_calls(b)):
            UNIT.append((b.key, UNIT[0][1], "UnitClause"))
    for fn, names, v in UNIT:
        F = c.flat(fn)
        asr = c.calls(F, "AssignStack.assign_at_root_level")

        def fact(f):
            t, pol = f
            if isinstance(v, str):
                return pol and t[0] == "is" and t[2] == v and is_call(t[1], *names)
            if t[0] == "eq" and pol:
                return (is_call(t[1], *names) and constval(t[2]) == v and ofvec(t[1])) or \
                    (is_call(t[2], *names) and constval(t[1]) == v and ofvec(t[2]))
            return False

        def ofvec(t):
            if last(t[1]) != "len":
                return True
            return has_field(t, "new_learnt") if fn == "handle_conflict" else has_call(t, "analyze_sandbox") or \
                has_name_var(t, "vec")
        k = c.edges_with(F, fact)
        sites = [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and last(n.data[0][0]) in names]

        def goal(x):
            n = F.nodes[F.pn[x]]
            if n.kind == "return":
                return not errlike(F.pval[x].get((0, 0)))
            return n.id in sites
        m = c.once_true("unit-used", F, fact, asr, goal, "a clause with one literal left is neither asserted nor found "
                        "true", fn, [lit_true, lit_true_left])
        c.floor("unit-used:" + fn, 1, m)


def empty_used(c):
    """a clause left without literals ends the step with an error, and a fixed literal is never accepted while false"""
    for fn, names, v in (("ClauseDB.vivify", ("len",), 0),
                         ("AssignStack.propagate_at_root_level", ("transform_by_simplification",), "EmptyClause")):
        F = c.flat(fn)
        locs = {F.nodes[k].data[2][0] for k in c.calls(F, "AssignStack.analyze_sandbox")}
        while True:
            more = {n.data[0][0] for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[1][0] == "use" and
                    n.data[1][1][0] in ("c", "m") and n.data[1][1][1][0] in locs} - locs
            if not more:
                break
            locs |= more

        def derived(x):
            return has_call(x, "analyze_sandbox") or has(x, lambda y: y[0] == "var" and y[1] in locs)

        def fact(f):
            t, pol = f
            if isinstance(v, str):
                return pol and t[0] == "is" and t[2] == v and is_call(t[1], *names)
            if t[0] == "eq" and pol:
                return any(is_call(x, "len") and constval(y) == v and derived(x) for x, y in ((t[1], t[2]), (t[2], t[1])))
            return pol and t[0] == "true" and is_call(t[1], "is_empty") and derived(t[1])
        k = 0
        for s in [n for n in F.nodes if n.kind == "switch" and n.id in F.at]:
            for pi in F.at[s.id]:
                for j, e in F.ps[pi]:
                    if e is None or not any(fact(f) for f in F.edge_facts(s, e)):
                        continue
                    k += 1
                    src = [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and
                           last(n.data[0][0]) in ("analyze_sandbox", "transform_by_simplification")]
                    p = F._find(j, lambda x: F.pn[x] in src or F.nodes[F.pn[x]].kind == "return" and
                                not errlike(F.pval[x].get((0, 0))), lambda x: False)
                    c.ob("empty-derived", p is None, f"{c.where(F, s.id)}: a clause without literals was derived and {fn} "
                         "goes on", fn, c.where(F, s.id), F.show(p) if p else None)
        c.floor("empty-derived:" + fn, 1, k)
    F = c.flat("Solver.add_assignment")
    asr = c.calls(F, "AssignStack.assign_at_root_level")
    if c.floor("assignment-used", 1, len(asr)):
        bad = []
        for i, av in F.returns():
            if errlike(av):
                continue
            p = F._find(F.pstart, lambda x: x == i, lambda x: F.pn[x] in asr, c.edge_ok(F, [lit_true, lit_true_left]))
            bad += [p] if p else []
        c.ob("assignment-used", not bad, f"{F.root.where()}: an assignment is accepted although it was neither made nor "
             "already holds", "add_assignment", F.root.where(), F.show(bad[0]) if bad else None)


def lit_true_left(fs):
    """the tested literal is neither unassigned nor false"""
    for t, b in fs:
        if t[0] == "is" and (t[2], b) in (("Some", True), ("None", False)) and is_call(t[1], "assigned") and \
                not any(is_call(y, "not") or (y[0] == "un" and y[1] == "Not") for y in t[1][2]):
            for u, d in fs:
                if not d and u[0] == "eq" and strip(t[1]) in [strip(x) for x in u[1:]] and any(
                        y[0] == "adt" and y[2] == "Some" and any(constval(v) in (0, False) for _, v in y[3]) for y in u[1:]):
                    return True
    return False


lit_true_left.all_facts = True


def has_name_var(t, name):
    return has(t, lambda x: x[0] == "var" and x[2] == name)


def fields(t):
    """the outermost fields a term reads"""
    return {x[2] for x in subterms(t) if x[0] == "field" and not any(
        y[0] == "field" and y is not x and x in subterms(y[1]) for y in subterms(t))}


def moved(t):
    """the value is computed, not only converted"""
    return t[0] == "bin" or t[0] == "call" and last(t[1]) in ("max", "min", "clamp", "pow") or \
        t[0] == "call" and last(t[1]).startswith(("saturating", "wrapping", "checked"))


SCALE = {"as_secs": 1, "as_secs_f64": 1, "as_secs_f32": 1, "as_millis": 1e3, "as_micros": 1e6, "as_nanos": 1e9,
         "from_secs": 1, "from_secs_f64": 1, "from_secs_f32": 1, "from_millis": 1e-3, "from_micros": 1e-6, "from_nanos": 1e-9}


def seconds(t):
    """("elapsed"|"timeout"|"ratio", factor) of a duration or number of seconds; None where the form is not recognised"""
    if t[0] == "field" and t[2] == "c_timeout":
        return "timeout", 1.0
    if t[0] in ("cast", "copy") and isinstance(t[-1], tuple):
        return seconds(t[-1])
    if t[0] == "call":
        nm = last(t[1])
        if nm == "elapsed":
            return "elapsed", 1.0
        if nm in SCALE and len(t[2]) == 1:
            r = seconds(t[2][0])
            return r and (r[0], r[1] * SCALE[nm])
        if nm in ("div_duration_f64", "div_duration_f32", "div") and len(t[2]) == 2:
            return quotient(*t[2])
        if nm in ("from", "into") and len(t[2]) == 1:
            return seconds(t[2][0])
    if t[0] == "bin" and t[1] == "Div":
        return quotient(t[2], t[3])
    if t[0] == "bin" and t[1] == "Mul":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            k = constval(b)
            if isinstance(k, (int, float)) or isinstance(k, str) and k.replace(".", "").isdigit():
                r = seconds(a)
                return r and (r[0], r[1] * float(k))
    return None


def quotient(a, b):
    x, y, k = seconds(a), seconds(b), constval(b)
    if x and y and (x[0], y[0]) == ("elapsed", "timeout"):
        return "ratio", x[1] / y[1]
    try:
        return x and k is not None and (x[0], x[1] / float(k)) or None
    except (TypeError, ValueError, ZeroDivisionError):
        return None


CMPS = ("Lt", "Le", "Gt", "Ge", "Eq", "Ne")


def schedule(c, S, st, hc):
    """stages really end: the limits are only tested there"""
    from props_model import lin, norm
    from props_assign import alternatives
    T = c.flat("StageManager.stage_ended")
    t = T.term(("c", ((0, 0), ())))
    w = T.root.where()
    exact = t[0] == "bin" and t[1] == "Eq"
    if t[0] == "bin" and t[1] in CMPS:
        a, b = (t[3], t[2]) if t[1] in ("Lt", "Le") else (t[2], t[3])      # a (the count) >= b (the end)
        if t[1] == "Eq" and has_field(a, "end_of_stage"):
            a, b = b, a
        c.ob("schedule", t[1] != "Ne" and a[0] == "arg" and has_field(b, "end_of_stage"), f"{w}: a stage ends when {tstr(t)[:60]}", "test", w)
    # the count: from 0, one more for each conflict that counts
    loops = set()
    for k in st:
        v = c.args(S, k)[1]
        if v[0] != "var":
            continue
        ws = [n.id for n in S.nodes if n.kind == "assign" and n.id in S.at and n.data[0] == (v[1], ())]
        up = []
        for x in ws:
            n = S.nodes[x]
            r = S.rv_term(n.data[1], 0, (), n)
            d = lin(r)
            mine = d.pop(v, 0)
            inside = any(c.reaches(S, h, x) for h in hc)
            if not mine:
                if inside and constval(r) is not None:
                    c.ob("schedule", False, f"{c.where(S, x)}: the count of conflicts starts again during the search", "restart", c.where(S, x))
                continue
            up.append(x)
            off = d.pop(1, 0)
            if not exact:
                c.ob("schedule", off >= 0, f"{c.where(S, x)}: the count of conflicts goes down", "step", c.where(S, x))
                continue
            if not d:
                c.ob("schedule", off == 1, f"{c.where(S, x)}: the count of conflicts changes by {off}, past the end of the stage", "step", c.where(S, x))
            for q in d:
                c.ob("schedule", not has_call(q, "handle_conflict") or has(q, lambda s: s[0] == "bin" and s[1] in CMPS),
                     f"{c.where(S, x)}: the count of conflicts can jump past the end of the stage ({tstr(q)[:60]})", "step", c.where(S, x))
        if exact:
            for x in up:
                p = S.path_after(x, lambda i: S.pn[i] in up, lambda i: S.pn[i] in st)
                c.ob("schedule", p is None, f"{c.where(S, x)}: the count of conflicts changes twice before the end of the stage is tested", "twice",
                     c.where(S, x), S.show(p) if p else None)
        if up:
            light = lambda f: has_call(f[0], "handle_conflict") and (
                f[0][0] == "lt" and f[1] == has_call(f[0][1], "handle_conflict") or f[0][0] not in ("lt", "is") and f[1])
            for h in hc:
                p = S.path_after(h, lambda i: S.pn[i] == h, lambda i: S.pn[i] in up, c.edge_ok(S, [light]))
                c.ob("schedule", p is None, f"{c.where(S, h)}: a conflict is not counted", "counted", c.where(S, h), S.show(p) if p else None)
    # the next end is set whenever one is reached, ahead of the count
    nx = c.calls(S, "StageManager.prepare_new_stage")
    c.floor("schedule", 1, len(nx))
    for k in st:
        ended = F_true(True, "stage_ended")
        run = F_true(False, "stage_ended")
        p = S.path_after(k, lambda i: S.pn[i] == k, lambda i: S.pn[i] in nx, c.edge_ok(S, [run]))
        c.ob("schedule", p is None, f"{c.where(S, k)}: a stage ends without the end of the next one being set", "next", c.where(S, k),
             S.show(p) if p else None)
        for x in nx:
            c.ob("schedule", norm(c.args(S, x)[1]) == norm(c.args(S, k)[1]), f"{c.where(S, x)}: the next end is counted from "
                 f"{tstr(c.args(S, x)[1])[:40]}, the test looks at {tstr(c.args(S, k)[1])[:40]}", "same-count", c.where(S, x))
    N = c.flat("StageManager.prepare_new_stage")
    ws = c.writes(N, "end_of_stage")
    c.always("schedule", N, ws, "setting the end of the stage", "set")
    for x in ws:
        for r, _ in alternatives(N, c.wval(N, x)):
            d = lin(r)
            base = [q for q in d if q != 1 and (q[0] == "arg" and q[2] == 2 or q[0] == "field" and q[2] == "end_of_stage")]
            if has_call(r, "max", "min", "next_multiple_of") or has(r, lambda s: s[0] in ("var", "phi")):
                continue
            c.ob("schedule", len(base) == 1 and d[base[0]] == 1 and all(v > 0 for v in d.values()) and len(d) > 1,
                 f"{c.where(N, x)}: the stage is to end at {tstr(r)[:60]}, which the count may never reach", "ahead", c.where(N, x))
    ini = c.calls(S, "StageManager.initialize")
    for k in st:
        if ini:
            p = S._find(S.pstart, lambda i: S.pn[i] == k, lambda i: S.pn[i] in ini)
            c.ob("schedule", p is None, f"{c.where(S, k)}: the stages are not set up before the search", "set-up", c.where(S, k),
                 S.show(p) if p else None)
    for k in ini:
        c.ob("schedule", constval(c.args(S, k)[1]) != 0, f"{c.where(S, k)}: stages of length 0", "unit", c.where(S, k))
    I = c.flat("StageManager.initialize")
    ws = c.writes(I, "end_of_stage")
    c.always("schedule", I, ws, "setting the end of the first stage", "first")
    for x in ws:
        r = c.wval(I, x)
        c.ob("schedule", not (constval(r) == 0 or has_field(r, "end_of_stage")), f"{c.where(I, x)}: the first stage ends at {tstr(r)[:50]}",
             "first-end", c.where(I, x))


@prop("P16", "guarded-construction and value-flow rules over MIR",
      "Decides the wiring of the limits: what is compared with what, where it is tested on every path of the main loop, "
      "and which error it produces; not how punctual the clock checks are.")
def p16(c):
    S = c.flat("search")
    to = adt_nodes(c, S, "SolverError", "TimeOut")
    c.floor("timeout", 1, len(to))
    late = lambda f: f[0][0] == "lt" and has_call(f[0], "elapsed") and (
        (not f[1] and has_call(f[0][1], "elapsed") and constval(f[0][2]) is not None and float(constval(f[0][2])) == 1.0) or
        (f[1] and has_call(f[0][2], "elapsed") and constval(f[0][1]) is not None and float(constval(f[0][1])) == 1.0))
    intime = lambda f: f[0][0] == "lt" and has_call(f[0], "elapsed") and (
        (f[1] and has_call(f[0][1], "elapsed")) or (not f[1] and has_call(f[0][2], "elapsed")))
    c.only_if("timeout", S, to, F_any(late, F_true(True, "is_timeout")), "the elapsed fraction reaching 1", "late")
    # every stage end tests the clock before going on
    st = c.calls(S, "StageManager.stage_ended")
    c.floor("timeout", 1, len(st))
    for k in st:
        t = S.call_term(S.nodes[k])
        ended = [(pi, j) for s in S.nodes if s.kind == "switch" and s.id in S.at for pi in S.at[s.id]
                 for j, e in S.ps[pi] if e is not None and any(f == (("true", t), True) for f in S.edge_facts(s, e))]
        c.ob("timeout", bool(ended), f"{c.where(S, k)}: the end of a stage is not tested", "stage", c.where(S, k))
        for pi, j in ended:
            def goal(x):
                n = S.nodes[S.pn[x]]
                return S.pn[x] == k or (n.kind == "return" and not errlike(S.pval[x].get((0, 0))))
            p = S._find(j, goal, lambda x: False, c.edge_ok(S, [intime, F_true(False, "is_timeout")]))
            c.ob("timeout", p is None, f"{c.where(S, k)}: a stage can end without the time limit being checked",
                 "every-stage", c.where(S, k), S.show(p) if p else None)
    # the stage test is reached on every conflict
    hc = c.calls(S, "handle_conflict")
    for k in hc:
        p = S.path_after(k, lambda x: S.pn[x] == k, lambda x: S.pn[x] in st)
        c.ob("timeout", p is None, f"{c.where(S, k)}: the search can go on without ever testing for the end of a stage",
             "each-conflict", c.where(S, k), S.show(p) if p else None)
    schedule(c, S, st, hc)
    E = c.flat("State.elapsed")
    since = ("Instant.elapsed", "Instant.duration_since", "Instant.saturating_duration_since", "Instant.checked_duration_since",
             "Instant.sub")
    el = c.calls(E, *since)
    c.floor("clock", 1, len(el))
    for k in el:
        a = c.args(E, k)[-1:]
        c.ob("clock", len(c.args(E, k)) == 1 or is_call(strip(c.args(E, k)[0]), "now"), f"{c.where(E, k)}: does not measure up to "
             "the present", "now", c.where(E, k))
        c.ob("clock", has_field(a[0], "start"), f"{c.where(E, k)}: measures {tstr(a[0])}", "start", c.where(E, k))
    dv = [n for n in E.nodes if n.kind == "assign" and n.id in E.at and n.data[1][0] == "bin" and n.data[1][1] == "Div"]
    okd = False
    for n in dv:
        a, b = E.term(n.data[1][2]), E.term(n.data[1][3])
        if has_call(a, *since) and has_field(b, "c_timeout"):
            okd = True
            part = has(a, lambda s: s[0] == "call" and last(s[1]).startswith("subsec_"))
            full = has(a, lambda s: s[0] == "call" and last(s[1]).startswith("as_"))
            c.ob("clock", full or not part, f"{c.where(E, n.id)}: whole seconds are left out of the elapsed time", "subsec", c.where(E, n.id))
    c.ob("clock", okd, f"{E.root.where()}: the fraction is not elapsed time over the configured timeout", "fraction",
         E.root.where())
    for n in E.nodes:
        if n.kind == "assign" and n.id in E.at and n.data[1][0] == "agg" and n.data[1][1].get("variant") == "Some" and n.data[1][2]:
            r = seconds(E.term(n.data[1][2][0]))
            c.ob("clock", not r or r[0] != "ratio" or abs(r[1] - 1) < 1e-9, f"{c.where(E, n.id)}: the clock and the timeout are "
                 f"in different units (x{r and r[1]})", "unit", c.where(E, n.id))
    T = c.flat("State.is_timeout")
    for n in T.nodes:
        if n.id not in T.at:
            continue
        if n.kind == "assign" and n.data[1][0] == "bin":
            tt = [T.term(n.data[1][2]), T.term(n.data[1][3])]
        elif n.kind == "call":
            tt = c.args(T, n.id)
        else:
            continue
        ss = [seconds(x) for x in tt]
        if len(ss) == 2 and None not in ss and {x[0] for x in ss} == {"elapsed", "timeout"}:
            c.ob("clock", abs(ss[0][1] / ss[1][1] - 1) < 1e-9, f"{c.where(T, n.id)}: the clock and the timeout are in "
                 "different units", "unit2", c.where(T, n.id))
    # the clock starts once
    for b in c.prog.bodies.values():
        if b.crate not in ("splr.lib", "splr.bin"):
            continue
        for blk in b.blocks:
            for s in blk["s"] if not blk.get("cleanup") else ():
                if s[0] != "=":
                    continue
                for pl in (s[2],) + ((s[3][2],) if s[3][0] in ("ref", "raw") and s[3][1] == "mut" else ()):
                    fs = [e for e in pl[1] if e[0] == "f"]
                    if fs and fs[-1][1] == "start" and fs[-1][2].split("::")[-1] == "State":
                        c.ob("clock", False, f"{b.file}:{s[1]}: the clock of the time limit is set again", "restart:" + b.key,
                             b.where(s[1]))
    sites = adt_sites(c, "SolverError", "TimeOut")
    for b, line in sites:
        for o in c.owner(b):
            c.ob("timeout", o == "search", f"{b.file}:{line}: {o} reports TimeOut", "site:" + o, b.where(line))
    # the clause limit
    C = c.flat("ClauseDB.check_size")
    oom = adt_nodes(c, C, "SolverError", "OutOfMemory")
    c.floor("limit", 1, len(oom))
    unlimited = lambda f: f[0][0] == "eq" and has_field(f[0], "soft_limit") and has(f[0], lambda x: constval(x) == 0)
    bare = lambda f: not any(t[0] == "bin" or t[0] == "call" and last(t[1]).startswith(("saturating", "wrapping", "min", "max"))
                             for x in f[0][1:] for t in subterms(x))
    over = lambda f: f[0][0] == "lt" and f[1] and bare(f) and has_field(f[0][1], "soft_limit") and \
        (has_field(f[0][2], "num_clause") or has_name(f[0][2], "NumClause"))
    under = lambda f: f[0][0] == "lt" and not f[1] and bare(f) and has_field(f[0][1], "soft_limit") and \
        (has_field(f[0][2], "num_clause") or has_name(f[0][2], "NumClause"))
    c.only_if("limit", C, oom, over, "the number of clauses exceeding the limit", "over")
    c.only_if("limit", C, oom, lambda f: unlimited(f) and not f[1], "a limit being set", "zero")
    n = 0
    for i, av in C.returns():
        if av is not None and av[1] == "Ok":
            n += 1
            p = C._find(C.pstart, lambda x: x == i, lambda x: False,
                        c.edge_ok(C, [under, lambda f: unlimited(f) and f[1]]))
            c.ob("limit", p is None, f"{C.root.where()}: accepted although over the limit", "under", C.root.where(),
                 C.show(p) if p else None)
    c.floor("limit", 1, n)
    # which limit
    I = c.flat("ClauseDB.instantiate")
    ok = any(n.kind == "assign" and n.id in I.at and n.data[1][0] == "agg" and n.data[1][1].get("k") == "adt" and
             short(n.data[1][1]["adt"]) == "ClauseDB" and
             any(f == "soft_limit" and fields(I.term(o)) == {"c_cls_lim"} and not has(I.term(o), moved) for f, o in zip(n.data[1][1]["fields"], n.data[1][2]))
             for n in I.nodes)
    c.ob("limit", ok, f"{I.root.where()}: the soft limit is not taken from the configuration", "config", I.root.where())
    # where it is checked
    F = c.flat("Solver.solve", SOLVE_INL)
    cs = c.calls(F, "ClauseDB.check_size")
    for anchor in ("ClauseDB.vivify", "Eliminator.simplify"):
        c.before("limit-checked", F, cs, c.calls(F, anchor)[:1], "checking the clause limit", anchor)
    E2 = c.flat("Eliminator.simplify")
    c.always("limit-checked", E2, c.calls(E2, "ClauseDB.check_size"), "checking the clause limit", "simplify",
             [lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err"])
    # every OutOfMemory answer follows a failed check
    for b, line in adt_sites(c, "SolverError", "OutOfMemory"):
        for o in c.owner(b):
            c.ob("limit", o in ("ClauseDB.check_size", "Solver.solve"), f"{b.file}:{line}: {o} reports OutOfMemory",
                 "site:" + o, b.where(line))
    c.only_if("limit", F, adt_nodes(c, F, "SolverError", "OutOfMemory"), F_is("Err", "check_size"),
              "the limit check failing", "oom-guard")
    K = c.flat("skip_var_elimination")
    c.ob("limit-checked", bool(c.calls(K, "ClauseDB.check_size")), f"{K.root.where()}: variable elimination no longer "
         "checks the clause limit", "elimination", K.root.where())
