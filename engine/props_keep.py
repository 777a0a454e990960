"""P08 clauses that may leave the database, P31 no use of removed clauses."""
from rules import *
from registry import prop
import json
from props_answers import lit_true, errlike
from props_proof import is_lits
from props_model import indexed
from props_input import false_left

LEARNT = F_flag(True, "LEARNT")
ERR = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err"


def in_iteration(c, rule, F, A, nid, what, key, excuses=()):
    """within one iteration of the loop around nid, nid is reached only after a node of A"""
    A = set(A)
    r = loop_around(F, nid)
    eo = c.edge_ok(F, excuses)
    starts = F.at[r[0]] if r else [F.pstart]

    def edge(i, j, e):
        return (not r or F.pn[j] in r[1]) and (eo is None or eo(i, j, e))
    p = F._find(list(starts), lambda i: F.pn[i] == nid, lambda i: F.pn[i] in A, edge)
    return c.ob(rule, p is None, f"{c.where(F, nid)}: reached without {what}", key, c.where(F, nid), F.show(p) if p else None)


def learnt_args(c, F, nid):
    """clause terms known to be LEARNT when the new clause at nid is marked learnt; None if it never is"""
    r = c.implied(F, F.nodes[nid].data[1][3])
    if r is None:
        return None
    return {strip(f[0][1][2][0]) for f in r if LEARNT(f)}


def shift(t):
    """the sum of the constants added on the way to an element"""
    n = 0
    for x in subterms(t):
        if x and x[0] == "bin" and x[1].startswith(("Add", "Sub")):
            k = constval(x[3])
            if isinstance(k, int):
                n += k if x[1].startswith("Add") else -k
    return n


def enum_base(t):
    """(first clause index minus the count of enumerate,) if t is the count of an enumeration of the clauses"""
    while t and t[0] == "bin":
        t = t[2]
    if not (t[0] == "field" and t[2] == "0" and t[1][0] == "field" and t[1][2] == "0" and t[1][1][0] == "variant"):
        return None
    x = t[1][1][1]
    base, seen = 0, False
    while x and x[0] == "call" and x[2]:
        nm = last(x[1])
        if nm == "enumerate":
            base, seen = 0, True
        elif nm == "skip" and seen:
            k = constval(x[2][1])
            if not isinstance(k, int):
                return None
            base += k
        elif nm not in ("next", "into_iter", "filter", "skip", "iter", "iter_mut", "take", "deref", "deref_mut"):
            return None
        x = x[2][0]
    return (base,) if seen else None


@prop("P08", "who-may-call table, guarded-call and value-flow rules over MIR",
      "Every removal of a clause in the library is found; each site must be under the condition that makes the removal "
      "allowed (learnt, satisfied, shortened, contained in another, resolved with every partner). That the resolvents and "
      "shortened clauses themselves are right is not decided.")
def p08(c):
    from props_prims import flags
    from props_occur import occurrences
    flags(c, "Clause")
    occurrences(c)
    R = "removal"
    sites = {}
    for b, line in c.callers("ClauseDB.remove_clause", "remove_clause_fn"):
        for o in c.owner(b):
            sites.setdefault(o, []).append((b, line))
    known = {"AssignStack.propagate_at_root_level", "ClauseDB.transform_by_simplification", "ClauseDB.reduce",
             "ClauseDB.vivify", "eliminate_var", "Eliminator.try_subsume", "strengthen_clause", "ClauseDB.remove_clause",
             "ClauseDB.reset", "ClauseDB.remove_clause_sandbox", "ClauseDB.transform_by_replacement"}
    for o, l in sites.items():
        c.ob(R, o in known, f"{l[0][0].file}:{l[0][1]}: {o} removes clauses", "site:" + o, l[0][0].where(l[0][1]))
    c.floor(R, 7, len(sites))
    RM = ("ClauseDB.remove_clause", "remove_clause_fn", "ClauseDBIF.remove_clause")
    # reduction: learnt clauses only
    F = c.flat("ClauseDB.reduce")
    rm = c.calls(F, *RM)
    c.floor("reduce", 1, len(rm))
    for k in rm:
        if any(LEARNT(f) for f in F.facts_at(k)):
            c.ob("reduce", True, "", "guard", c.where(F, k))
            continue
        # the removed ids come from lists filled under the guard
        t = c.args(F, k)[1]
        roots = {strip(x[2][0]) for x in subterms(t) if x and x[0] == "call" and last(x[1]) in ("into_iter", "iter", "drain",
                                                                                               "index", "as_slice")}
        push = c.calls(F, "Vec.push", "Vec.insert", "BinaryHeap.push")
        mine = [p for p in push if strip(c.args(F, p)[0]) in roots or has_call(c.args(F, p)[1], "OrderedProxy.new",
                                                                              "OrderedProxy.new_invert")]
        if mine:
            c.only_if("reduce", F, mine, LEARNT, "the clause being a learnt one", "guard")
            # the removed id is that of the clause found to be learnt
            for p in mine:
                new = [x for x in subterms(c.args(F, p)[1]) if is_call(x, "OrderedProxy.new", "OrderedProxy.new_invert")]
                base = enum_base(new[0][2][0]) if new else None
                off = base and shift(t) + shift(new[0][2][0])
                c.ob("reduce", base is None or off == base[0], f"{c.where(F, k)}: the removed clause is not the one examined "
                     "at " + c.where(F, p), "same-id", c.where(F, k))
        else:
            ok = any(c.closure_implies(x[2][1][1], LEARNT) for x in subterms(t)
                     if x and is_call(x, "filter") and x[2][1][0] == "closure")
            c.ob("reduce", ok, f"{c.where(F, k)}: removes clauses not known to be learnt", "guard", c.where(F, k))
    F = c.flat("ClauseDB.reset")
    c.only_if("reduce", F, c.calls(F, *RM), LEARNT, "the clause being a learnt one", "reset")
    # clean-up of satisfied and shortened clauses
    F = c.flat("ClauseDB.transform_by_simplification")
    negated = lambda x: x and (x[0] == "un" and x[1] == "Not" or is_call(x, "not", "neg"))
    reg = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Some" and has_call(f[0][1], "search", "link_to_cid") and \
        not has_call(f[0][1], "or", "or_else", "xor") and \
        not any(x and is_call(x, "search", "link_to_cid") and any(negated(strip(a)) for a in x[2]) for x in subterms(f[0][1]))
    rm = c.calls(F, *RM)
    c.floor("satisfied", 1, len(rm))
    anytrue = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "any") and has_call(f[0][1], "iter") and \
        len(f[0][1][2]) == 2 and f[0][1][2][1][0] == "closure" and c.closure_implies(f[0][1][2][1][1], lit_true)
    c.only_if("satisfied", F, rm, F_any(lit_true, reg, anytrue), "a true literal or a registered two-literal clause",
              "simplification")
    dead = adt_return(c, F, "Dead")
    c.only_if("satisfied", F, dead, F_any(lit_true, anytrue), "a true literal", "dead")
    F = c.flat("AssignStack.propagate_at_root_level")
    rm = c.calls(F, *RM)
    c.only_if("satisfied", F, rm, F_any(F_is("UnitClause", "transform_by_simplification"), lit_true),
              "the clause having one literal left", "root-level")
    for k in rm:
        c.together("satisfied", F, [k], c.calls(F, "AssignStack.assign_at_root_level"),
                   "its last literal being fixed", "root-level-unit", local=True)
        t = [F.term(F.nodes[x].data[1][-1]) for x in c.calls(F, "ClauseDB.transform_by_simplification")]
        c.ob("satisfied", strip(c.args(F, k)[1]) in [strip(x) for x in t], f"{c.where(F, k)}: removes another clause than "
             "the simplified one", "root-level-same", c.where(F, k))
    # shortening by vivification
    F = c.flat("ClauseDB.vivify")
    new = c.calls(F, "ClauseDB.new_clause")
    rm = c.calls(F, *RM)
    c.floor("replaced", 1, len(rm))
    for k in rm:
        in_iteration(c, "replaced", F, new, k, "adding the shorter clause", "vivify")
    for k in new:
        ts = learnt_args(c, F, k)
        c.ob("replaced", ts is None or bool(ts), f"{c.where(F, k)}: the shorter clause becomes learnt although the clause it "
             "replaces may not be", "vivify-learnt", c.where(F, k))
        if ts and rm:
            target = strip(c.args(F, rm[0])[1])
            c.ob("replaced", any(has(t, lambda s: s == target) for t in ts), f"{c.where(F, k)}: takes the learnt mark of "
                 "another clause", "vivify-same", c.where(F, k))
    # strengthening
    F = c.flat("strengthen_clause")
    rm = c.calls(F, *RM)
    c.only_if("replaced", F, rm, F_any(F_is("UnitClause", "transform_by_elimination"),
                                       F_is("RegisteredClause", "transform_by_elimination")),
              "the shorter form being a fixed literal or already stored", "strengthen")
    tr = c.calls(F, "ClauseDB.transform_by_elimination")
    c.floor("replaced", 1, len(tr))
    lits = [i for i in range(1, F.root.argc + 1) if F.root.locals[i].endswith("lit::Lit")]
    for k in tr:
        a = c.args(F, k)
        c.ob("replaced", a[2][0] == "arg" and a[2][2] in lits, f"{c.where(F, k)}: removes literal {tstr(a[2])[:60]}",
             "strengthen-lit", c.where(F, k))
        for r in rm:
            c.ob("replaced", same(a[1], c.args(F, r)[1]), f"{c.where(F, r)}: removes another clause", "strengthen-same",
                 c.where(F, r))
    # subsumption
    F = c.flat("Eliminator.try_subsume")
    rm = c.calls(F, *RM)
    c.floor("subsumed", 1, len(rm))
    perm = c.calls(F, "ClauseDB.make_permanent")
    off = [k for k in c.calls(F, "Clause.turn_off", "Clause.set") if has_name(c.args(F, k)[1], "LEARNT")]
    hs = c.calls(F, "have_subsuming_lit")
    c.only_if("subsumed", F, rm, F_any(F_is("Success"), lambda f: f[1] and f[0][0] == "true" and
                                       is_call(f[0][1], "have_subsuming_lit")), "the clause containing another", "success")
    for k in rm:
        t = c.args(F, k)[1]
        for h in hs:
            a = c.args(F, h)
            c.ob("subsumed", same(a[-1], t), f"{c.where(F, k)}: removes {tstr(t)}, not the containing clause", "which",
                 c.where(F, k))
            for m in perm:
                c.ob("subsumed", same(c.args(F, m)[-1], a[-2]), f"{c.where(F, m)}: makes another clause permanent",
                     "permanent-which", c.where(F, m))
        mine = lambda f: LEARNT(f) and has(strip(f[0][1][2][0]), lambda s: s == strip(t))
        ren = lambda f: not f[1] and f[0][0] == "true" and is_call(f[0][1], "is", "contains") and has_name(f[0][1], "LEARNT") \
            and hs and has(strip(f[0][1][2][0]), lambda s: s == strip(c.args(F, hs[0])[-2]))
        c.together("subsumed", F, [k], perm + off, "keeping the remaining clause when the removed one belongs to the problem",
                 "permanent", [mine, ren])
    # the permanent mark itself
    M = c.flat("ClauseDB.make_permanent")
    offs = [k for k in c.calls(M, "Clause.turn_off", "Clause.set") if has_name(c.args(M, k)[1], "LEARNT")]
    c.always("subsumed", M, offs, "dropping the LEARNT mark", "mark", [F_flag(False, "LEARNT")])
    subsuming(c)
    # elimination
    F = c.flat("eliminate_var")
    rm = c.calls(F, *RM)
    mg = c.calls(F, "merge")
    sv = c.calls(F, "make_eliminated_clauses")
    c.floor("resolved", 1, len(rm))
    c.floor("resolved", 1, len(mg))
    c.before("resolved", F, sv, rm, "saving the clauses of the variable", "saved")
    for k in rm:
        # the removed clauses are those of the eliminated variable
        t = c.args(F, k)[1]
        occ = [x for x in subterms(t) if x and x[0] == "field" and x[2] in ("pos_occurs", "neg_occurs")]
        bad = [i for i in (indexed(x[1]) for x in occ) if i and (
            i[1][0] not in ("arg", "var") or i[1][0] == "arg" and i[1][3] != "vi")]
        c.ob("resolved", not bad, f"{c.where(F, k)}: removes the clauses of {tstr(bad[0][1])[:60] if bad else ''}", "own",
             c.where(F, k))
    for k in mg:
        c.each_iteration("resolved", F, [k], "resolving with the partner", "each", [ERR])
        c.no_early_exit("resolved", F, k, "the loop over the partners", "all", [ERR])
        if c.ob("resolved", loop_around(F, k, 1) is not None, f"{c.where(F, k)}: not every pair is resolved", "pairs",
                c.where(F, k)):
            c.no_early_exit("resolved", F, k, "the loop over the clauses", "all-outer", [ERR], outer=1)
        new = c.calls(F, "ClauseDB.new_clause")
        short_ = [lambda f, x=x: f[1] and f[0][0] == "eq" and has_call(f[0], "merge") and
                  any(constval(t) == x for t in f[0][1:]) for x in (0, 1)]
        p = F.path_after(k, lambda i: F.pn[i] == k or F.pn[i] in rm, lambda i: F.pn[i] in new,
                         c.edge_ok(F, short_ + [ERR]))
        c.ob("resolved", p is None, f"{c.where(F, k)}: a resolvent is not stored", "stored", c.where(F, k),
             F.show(p) if p else None)
        a = [strip(x) for x in c.args(F, k)]
        for r in rm:
            p = F.path_after(r, lambda i: F.pn[i] == k, lambda i: False)
            c.ob("resolved", p is None, f"{c.where(F, r)}: a clause is removed before all pairs are resolved", "order",
                 c.where(F, r), F.show(p) if p else None)
        for n in new:
            ts = learnt_args(c, F, n)
            c.ob("resolved", ts is None or len(ts) >= 2, f"{c.where(F, n)}: a resolvent counts as learnt although a parent "
                 "may belong to the problem", "learnt", c.where(F, n))
    aborted = lambda f: not f[1] and f[0][0] == "true" and has_field(f[0], "aborted")
    c.only_if("resolved", F, mg, aborted, "the lists of occurrences being complete", "aborted")
    # an incomplete list of occurrences is marked
    A = c.flat("Eliminator.add_cid_occur")
    from props_assign import alternatives
    lists = {k: [(t, k if d is None else d) for t, d in alternatives(A, c.args(A, k)[0])
                 if has_field(t, "pos_occurs", "neg_occurs")] for k in c.calls(A, "Vec.push", "Vec.insert", "Vec.extend")}
    occ = [k for k, ts in lists.items() if ts]
    ab = c.writes(A, "aborted", val=lambda v: constval(v) in (1, True) or v[0] == "bin" and v[1] == "BitOr" and
                  any(constval(x) in (1, True) for x in v[2:]))
    gone = lambda f: f[1] and f[0][0] == "true" and has_name(f[0], "ELIMINATED")
    both = {x for k in occ for t, _ in lists[k] for x in ("pos_occurs", "neg_occurs") if has_field(t, x)}
    c.floor("resolved", 2, len(both))
    c.each_iteration("resolved", A, occ + ab, "entering the clause in the list of the literal", "occurrences", [gone])
    for k in occ:
        c.no_early_exit("resolved", A, k, "the loop over the literals", "occurrences-all")
    pos = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "from", "as_bool")
    neg = lambda f: not f[1] and f[0][0] == "true" and is_call(f[0][1], "from", "as_bool")
    for t, d in [x for k in occ for x in lists[k]]:
        c.only_if("resolved", A, [d], pos if has_field(t, "pos_occurs") else neg, "the literal having that sign", "sign")
    # learnt marks
    marks(c)
    loading(c)


def adt_return(c, F, variant):
    return [n.id for n in F.nodes if n.id in F.at and n.kind == "assign" and n.data[1][0] == "agg" and
            n.data[1][1].get("k") == "adt" and n.data[1][1]["variant"] == variant]


def eqpair(f):
    t, b = f
    return b and t[0] == "eq" and has_call(t[1], "next", "lit0", "lit1") | has(t[1], lambda s: s[0] == "elem") and True


def subsuming(c):
    """have_subsuming_lit answers Success only if every literal of the first clause occurs in the second"""
    F = c.flat("have_subsuming_lit")
    suc = adt_return(c, F, "Success")
    c.floor("subsuming", 1, len(suc))

    def inclusion(f):
        t, b = f
        if t[0] == "true" and is_call(t[1], "all") and b and t[1][2][1][0] == "closure":
            G = c.prog._b(t[1][2][1][1], "splr.lib")
            g = c.flat(G)
            r = c.implied(g, ("c", ((0, 0), ()))) or ()
            return any(x[1] and ((x[0][0] == "true" and is_call(x[0][1], "contains", "any")) or x[0][0] == "eq") for x in r)
        return False
    for s in suc:
        if any(inclusion(f) for f in F.facts_at(s)) or F.guard_path(s, inclusion) is None:
            c.ob("subsuming", True, "", "all", c.where(F, s))
            continue
        # loop form: Success lies behind the exhaustion of the loop over the literals, and each round needs a match
        loops = loops_of(F)
        match = lambda f: f[1] and ((f[0][0] == "eq" and not has_call(f[0], "not", "neg") and not has(
            f[0], lambda x: x[0] == "un")) or (f[0][0] == "true" and is_call(f[0][1], "contains", "any")
                                               and not has_call(f[0], "not")))
        ok = False
        for h, body in loops.items():
            if s in body or not c.reaches(F, h, s):
                continue
            # every path to Success passes h
            if F._find(F.pstart, lambda i: F.pn[i] == s, lambda i: F.pn[i] == h) is not None:
                continue
            eo = c.edge_ok(F, [match])
            tests = c._header_tests(F, h, body)

            def inside(i, j, e):
                return F.pn[j] in body and eo(i, j, e)
            bad = None
            for i in F.at[h]:
                for j, e in F.ps[i]:
                    if inside(i, j, e):
                        r = F._find(j, lambda x: F.pn[x] == h, lambda x: False, inside)
                        bad = bad or r
            # leaving the loop for Success only through its exhaustion
            p = None
            for x in body - tests:
                for i in F.at[x]:
                    for j, e in F.ps[i]:
                        if F.pn[j] not in body and p is None:
                            p = F._find(j, lambda y: F.pn[y] == s, lambda y: False)
            if bad is None and p is None:
                ok = True
        c.ob("subsuming", ok, f"{c.where(F, s)}: a clause counts as containing another although a literal may be missing",
             "all", c.where(F, s))
    by = adt_return(c, F, "By")
    opp = lambda f: f[1] and ((f[0][0] == "eq" and (has_call(f[0], "not") or has(f[0], lambda x: x[0] == "un" and
                                                                               x[1] == "Not"))) or
                              (f[0][0] == "true" and is_call(f[0][1], "contains", "any") and has_call(f[0], "not")))
    anyopp = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "any") and f[0][1][2][1][0] == "closure" and \
        c.closure_implies(f[0][1][2][1][1], opp)
    c.only_if("subsuming", F, by, F_any(opp, anyopp), "the negated literal occurring in the clause", "by")
    # what is removed from the clause is the negation
    T = c.flat("Eliminator.try_subsume")
    st = c.calls(T, "strengthen_clause")
    c.only_if("subsuming", T, st, F_is("By"), "a literal to remove", "by-guard")
    for k in st:
        a = c.args(T, k)
        neg = is_call(a[4], "not") or (a[4][0] == "un" and a[4][1] == "Not")
        c.ob("subsuming", neg and has_call(a[4], "have_subsuming_lit"), f"{c.where(T, k)}: removes literal {tstr(a[4])[:70]}",
             "by-negated", c.where(T, k))
        h = c.calls(T, "have_subsuming_lit")
        c.ob("subsuming", bool(h) and same(a[3], c.args(T, h[0])[-1]), f"{c.where(T, k)}: shortens {tstr(a[3])}", "by-which",
             c.where(T, k))


def marks(c):
    """the LEARNT mark is set only on clauses created as learnt; problem clauses are created unmarked"""
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure":
            continue
        if not any(op_fn(t[2]) and any(last(k) in ("turn_on", "set", "insert") for k in c.prog.callkeys(op_fn(t[2]), b.crate))
                   for _, t in body_calls(b)):
            continue
        G = c.flat(b)
        for k in c.calls(G, "Clause.turn_on", "Clause.set", "FlagClause.insert"):
            if G.nodes[k].body.uid != b.uid or not has_name(c.args(G, k)[1], "LEARNT"):
                continue
            n += 1
            own = c.owner(b)
            c.ob("marks", own <= {"ClauseDB.new_clause", "ClauseDB.new_clause_sandbox"},
                 f"{c.where(G, k)}: a stored clause is marked as learnt", "+".join(sorted(own)), c.where(G, k))
    c.floor("marks", 1, n)
    F = c.flat("ClauseDB.new_clause")
    arg = [F.root.lname.get(i) for i in range(1, F.root.argc + 1) if F.root.locals[i] == "bool"]
    on = [k for k in c.calls(F, "Clause.turn_on", "Clause.set") if has_name(c.args(F, k)[1], "LEARNT")]
    for k in on:
        if last(F.nodes[k].data[0][0]) == "set":
            c.ob("marks", True, "", "set", c.where(F, k))
            continue
        c.only_if("marks", F, [k], lambda f: f[1] and f[0][0] == "true" and f[0][1][0] == "arg" and f[0][1][3] in arg,
                  "the clause being created as learnt", "guard")
    A = c.flat("Solver.add_unchecked_clause")
    for k in c.calls(A, "ClauseDB.new_clause"):
        t = c.args(A, k)[3]
        c.ob("marks", constval(t) in (0, False), f"{c.where(A, k)}: a clause of the problem is stored as learnt", "problem",
             c.where(A, k))
    # nothing else creates problem clauses
    for b, line in c.callers("ClauseDB.new_clause"):
        for o in c.owner(b):
            c.ob("marks", o in {"Solver.add_unchecked_clause", "ClauseDB.vivify", "eliminate_var", "handle_conflict",
                                "ClauseDB.complete_bi_clauses_with", "AssignStack.vivify"},
                 f"{b.file}:{line}: {o} creates clauses", "creates:" + o, b.where(line))


def loading(c):
    """a clause handed in by the user is skipped only if it is true already; literals are dropped only if false or repeated"""
    F = c.flat("Solver.add_unchecked_clause")
    dead = adt_return(c, F, "Dead")
    taut = lambda f: f[1] and f[0][0] == "eq" and (has_call(f[0], "not") or has(f[0], lambda x: x[0] == "un"))
    tr = lambda f: lit_true(f) or (f[1] and f[0][0] == "eq" and has_call(f[0], "assigned") and has(
        f[0], lambda x: x[0] == "adt" and x[2] == "Some" and any(constval(v) in (1, True) for _, v in x[3])))
    c.floor("loading", 1, len(dead))
    c.only_if("loading", F, dead, F_any(taut, tr), "a true literal or a pair of opposite literals", "skipped")
    st = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and
          n.data[0][1][-1][0] == "i" and F.nodes[n.id].body.uid == F.root.uid]
    st += [k for k in c.calls(F, "Vec.push")]
    idx = [k for k in c.calls(F, "Vec.index_mut", "IndexMut.index_mut")]
    st += idx
    false_ = lambda f: (f[0][0] == "eq" and has_call(f[0], "assigned") and f[1] and has(
        f[0], lambda x: x[0] == "adt" and x[2] == "Some" and any(constval(v) in (0, False) for _, v in x[3]))) or (
        not f[1] and f[0][0] == "true" and has_call(f[0], "assigned"))
    dup = lambda f: f[1] and f[0][0] == "eq" and not has_call(f[0], "not", "assigned")
    if st:
        c.each_iteration("loading", F, st, "keeping the literal", "literal", [false_, dup, tr, taut, false_left])
        c.no_early_exit("loading", F, st[0], "the loop over the literals", "literals", [tr, taut])
    else:
        rt = c.calls(F, "Vec.retain", "Vec.dedup")
        c.ob("loading", bool(rt), f"{F.root.where()}: the literals of a new clause are not copied", "literal", F.root.where())
    new = c.calls(F, "ClauseDB.new_clause")
    asr = c.calls(F, "AssignStack.assign_at_root_level")
    empty = lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "len") and any(constval(x) == 0 for x in f[0][1:])
    isemp = F_true(True, "is_empty")
    c.always("loading", F, new + asr + dead, "storing the clause", "stored", [empty, isemp])


# ------------------------------------------------------------------ P31
DEAD = F_true(True, "is_dead")
ALIVE = F_any(F_true(False, "is_dead"),
              lambda f: not f[1] and f[0][0] == "true" and is_call(f[0][1], "is_empty") and has(f[0], is_lits))


@prop("P31", "abstract interpretation of the slot life cycle, guarded-use rules and must-precede rules over MIR",
      "Decides that a removed clause is emptied and its slot enters the free list once, that slots leave the list only in "
      "clause creation, that every sweep over the clauses tests for removed ones before using a clause, and that the "
      "simplifier forgets a clause in every list of occurrences before it is removed.")
def p31(c):
    from props_cdb import simulate
    simulate(c, "slots", False, False, True)
    RM = ("ClauseDB.remove_clause", "ClauseDBIF.remove_clause")
    # who handles the free list
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or '"freelist"' not in json.dumps(b.blocks):
            continue
        G = c.flat(b)
        for k in [x.id for x in G.nodes if x.kind == "call" and x.id in G.at and x.body.uid == b.uid and x.data[1]]:
            t = c.args(G, k)[0]
            if not (t[0] == "field" and t[2] == "freelist"):
                continue
            nm = last(G.nodes[k].data[0][0])
            if nm in ("len", "is_empty", "contains", "iter", "clone", "deref", "index", "first", "last", "capacity"):
                continue
            n += 1
            for o in c.owner(b):
                ok = (nm in ("push",) and o in ("ClauseDB.remove_clause", "ClauseDB.remove_clause_sandbox", "ClauseDB.reset",
                                                "remove_clause_fn")) or \
                     (nm in ("pop",) and o in ("ClauseDB.new_clause", "ClauseDB.new_clause_sandbox")) or \
                     (nm in ("swap_remove", "remove") and o in ("ClauseDB.new_clause", "ClauseDB.new_clause_sandbox"))
                c.ob("free-list", ok, f"{c.where(G, k)}: {o} does {nm} on the list of free slots", f"{o}:{nm}", c.where(G, k))
    c.floor("free-list", 4, n)
    # one clause is removed once
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or not any(
                op_fn(t[2]) and "remove_clause" in str(op_fn(t[2]).get("p", "")) for _, t in body_calls(b)):
            continue
        G = c.flat(b)
        rm = [k for k in c.calls(G, *RM)]
        ids = {k: c.args(G, k)[1] for k in rm}
        for k in rm:
            t = ids[k]
            if has(t, lambda s: s[0] == "var"):
                continue
            n += 1
            again = [j for j in rm if ids[j] == t]
            made = {s[3] for s in subterms(t) if s and s[0] == "call" and len(s) > 3}
            p = G.path_after(k, lambda i: G.pn[i] in again, lambda i: G.pn[i] in made)
            c.ob("once", p is None, f"{c.where(G, k)}: the clause {tstr(t)[:50]} is removed twice", "+".join(sorted(c.owner(b))),
                 c.where(G, k), G.show(p) if p else None)
    c.floor("once", 1, n)
    # a slot taken from the list gets its own literals and fresh flags
    for fn in ("ClauseDB.new_clause",):
        F = c.flat(fn)
        pop = [k for k in c.calls(F, "Vec.pop") if has_field(c.args(F, k)[0], "freelist")]
        c.floor("reuse", 1, len(pop))
        fl = c.writes(F, "flags")
        from props_proof import content_events
        lits = list(content_events(F, True))
        for k in pop:
            t = F.call_term(F.nodes[k])
            some = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Some" and f[0][1] == t
            ret = lambda x: F.nodes[F.pn[x]].kind == "return"
            m = c.once_true("reuse", F, some, fl, ret, "a reused slot keeps the flags of the clause it held", "flags")
            m += c.once_true("reuse", F, some, lits, ret, "a reused slot does not receive the literals", "lits")
            c.floor("reuse", 2, m)
            fr = [x for x in c.writes(F, "search_from")]
            c.once_true("reuse", F, some, fr, ret, "a reused slot keeps the search position of the clause it held", "search")
            # the slot used is the one taken
    # sweeps
    def sweep(fn, key, nodes, F=None):
        F = F or c.flat(fn)
        ns = nodes(F)
        c.floor("sweep:" + key, 1, len(ns))
        c.only_if("sweep", F, ns, ALIVE, "the clause being alive", key)
    sweep("ClauseDB.reduce", "reduce", lambda F: [k for k in c.calls(F, "Vec.push") if has_call(
        c.args(F, k)[1], "OrderedProxy.new", "OrderedProxy.new_invert")] or c.calls(F, *RM))
    sweep("AssignStack.propagate_at_root_level", "root-level", lambda F: c.calls(F, "ClauseDB.transform_by_simplification"))
    sweep("Eliminator.prepare", "prepare", lambda F: c.calls(F, "Eliminator.add_cid_occur"))
    sweep("eliminate_var", "elimination", lambda F: c.calls(F, *RM))
    sweep("ClauseDB.vivify", "vivify", lambda F: c.calls(F, "AssignStack.assign_by_decision") + c.calls(F, *RM))
    if c.prog.fns("ClauseDB.dump_cnf", "splr.lib"):
        F = c.flat("ClauseDB.dump_cnf")
        sweep("ClauseDB.dump_cnf", "dump", lambda F: [
            k for k in c.calls(F, "BufWriter.write_all", "Write.write_all", "Write.write_fmt", "BufWriter.write_fmt")
            if loop_around(F, k, 1) or has(F.term(F.nodes[k].data[1][1]), lambda s: is_call(s, "next"))
            and not has_call(F.term(F.nodes[k].data[1][1]), "stack_iter", "asserted")
            or any(has_field(t, "clause") or has_call(t, "ClauseDB.iter") for t in c.upstream(F, k))][:1])
    V = c.flat("ClauseDB.validate")
    sweep("ClauseDB.validate", "validate", lambda F: c.calls(F, "Clause.evaluate"))
    B = c.flat("Eliminator.backward_subsumption_check")
    ts = c.calls(B, "Eliminator.try_subsume")
    c.floor("sweep:subsume", 1, len(ts))
    for k in ts:
        a = c.args(B, k)
        did = strip(a[-1])
        cid = strip(a[-2])
        ad = lambda f: ALIVE(f) and has(strip(f[0]), lambda s: s == did)
        ac = lambda f: ALIVE(f) and has(strip(f[0]), lambda s: s == cid)
        lifted = F_true(True, "is_lifted_lit")
        c.only_if("sweep", B, [k], ad, "the other clause being alive", "subsume-other")
        c.only_if("sweep", B, [k], F_any(ac, lifted), "the clause being alive", "subsume-own")
    # the clause is forgotten before it is removed
    for fn in ("strengthen_clause", "eliminate_var", "Eliminator.try_subsume"):
        F = c.flat(fn)
        fo = c.calls(F, "Eliminator.remove_cid_occur")
        for k in c.calls(F, *RM):
            t = strip(c.args(F, k)[1])
            mine = [x for x in fo if any(strip(y) == t for y in c.args(F, x))]
            r = loop_around(F, k)
            starts = list(F.at[r[0]]) if r else [F.pstart]
            p = F._find(starts, lambda i: F.pn[i] == k, lambda i: F.pn[i] in mine,
                        (lambda i, j, e: F.pn[j] in r[1]) if r else None)
            c.ob("forgotten", p is None, f"{c.where(F, k)}: removed while it stays in the lists of occurrences", fn,
                 c.where(F, k), F.show(p) if p else None)
    R = c.flat("Eliminator.remove_cid_occur")
    rl = c.calls(R, "Eliminator.remove_lit_occur")
    c.floor("forgotten", 1, len(rl))
    if rl and loop_around(R, rl[0]):
        c.each_iteration("forgotten", R, rl, "leaving the list of the literal", "each")
        c.no_early_exit("forgotten", R, rl[0], "the loop over the literals", "all")
    off = [k for k in c.calls(R, "Clause.turn_off", "Clause.set") if has_name(c.args(R, k)[1], "OCCUR_LINKED")]
    c.always("forgotten", R, off, "dropping the OCCUR_LINKED mark", "mark")
    L = c.flat("Eliminator.remove_lit_occur")
    aborted = lambda f: f[1] and f[0][0] == "true" and has_field(f[0], "aborted")
    DEL = ("Vec.delete_unstable", "Vec.retain", "Vec.swap_remove", "Vec.remove")
    t = lambda v: (lambda f: f[1] == v and f[0][0] == "true" and is_call(f[0][1], "from", "as_bool"))
    from props_assign import alternatives
    for fld, v, key in (("pos_occurs", True, "positive"), ("neg_occurs", False, "negative")):
        sites, chosen = [], []
        for k in c.calls(L, *DEL):
            alts = alternatives(L, c.args(L, k)[0])
            hit = [d for x, d in alts if has_field(x, fld)]
            if hit:
                sites.append(k)
                # a list chosen beforehand: the choice must be that of the sign
                chosen += [d for d in hit if d is not None and len(alts) > 1]
        c.always("forgotten", L, sites, "leaving the list of the literal", key, [aborted, t(not v)])
        c.only_if("forgotten", L, chosen, t(v), "the literal having that sign", key + ":chosen")
    # a literal taken out of a clause leaves its list
    S = c.flat("strengthen_clause")
    rl = c.calls(S, "Eliminator.remove_lit_occur")
    for k in rl:
        lits = [S.root.lname.get(i) for i in range(1, S.root.argc + 1) if S.root.locals[i].endswith("lit::Lit")]
        a = c.args(S, k)
        c.ob("forgotten", any(x[0] == "arg" and x[3] in lits for x in a), f"{c.where(S, k)}: leaves the list of another "
             "literal", "literal", c.where(S, k))
    c.always("forgotten", S, rl + c.calls(S, "Eliminator.remove_cid_occur"), "leaving the list of the removed literal",
             "shortened")
    # dead means emptied
    D = c.flat("Clause.is_dead", inline=("Clause.is_empty", "Clause.len"))
    r = c.implied(D, ("c", ((0, 0), ()))) or set()
    c.ob("dead", any(f[1] and ((f[0][0] == "true" and is_call(f[0][1], "is_empty") and has(f[0], is_lits)) or
                               (f[0][0] == "eq" and has_call(f[0], "len"))) for f in r) or has_name(
        D.term(("c", ((0, 0), ()))), "DEAD"), f"{D.root.where()}: a clause counts as removed without being empty", "is_dead",
        D.root.where())
