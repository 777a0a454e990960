"""completeness of the occurrence lists that variable elimination works on (part of P08)"""
from rules import *
from props_model import indexed
from props_assign import alternatives
from props_derive import seq_sources, result_ways, whole, values, NEGATED
from props_model import call_node

LISTS = ("pos_occurs", "neg_occurs")
GROW = ("Vec.push", "Vec.insert", "Vec.extend", "Vec.append")
DEAD = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "is_dead") or f[1] and f[0][0] == "true" and is_call(f[0][1], "is_empty")


def exactly(mark, want=True):
    """the fact that this one mark is (not) set"""
    def q(f):
        t, b = f
        return b == want and t[0] == "true" and is_call(t[1], "is", "contains", "intersects") and len(t[1][2]) > 1 and \
            not any(x and x[0] in ("call", "bin") for x in subterms(t[1][2][1])) and has_name(t[1][2][1], mark)
    return q


LINKED = exactly("OCCUR_LINKED")


def idle(f):
    """the fact that the eliminator is not running"""
    t, b = f
    if t[0] == "is" and t[2] in ("Running", "Dormant"):
        return b == (t[2] == "Dormant")
    if t[0] == "eq" and any(has_field(x, "mode") for x in t[1:]):
        return b != any(has_name(x, "Running") for x in t[1:])
    return t[0] == "true" and not b and is_call(t[1], "is_running")


def reaches_all(c, F, R, k, excuses, what, key, skip=1, outer=0):
    """the step k is done for every element of what it walks over, excuses aside"""
    c.each_iteration(R, F, [k] if isinstance(k, int) else k, what, key, excuses, outer=outer)
    k = k if isinstance(k, int) else k[0]
    c.no_early_exit(R, F, k, "the loop with " + what, key + ":all", excuses, outer=outer)
    for t in list(c.upstream(F, k)):
        whole(c, F, R, t, k, key + ":whole", skip=skip)
        for x in seq_sources(t)[0]:
            if last(x[1]) in ("filter", "filter_map") and call_node(x) is not None:
                for w in result_ways(F, call_node(x), False) or ():
                    c.ob(R, any(e(f) for f in w for e in excuses), f"{c.where(F, call_node(x))}: elements without {what}",
                         key + ":filter", c.where(F, call_node(x)))


def occurrences(c, R="occurrences"):
    # every live clause is entered when the elimination starts
    F = c.flat("Eliminator.prepare")
    add = c.calls(F, "Eliminator.add_cid_occur")
    if c.floor(R, 1, len(add)):
        for k in add:
            reaches_all(c, F, R, k, [DEAD, LINKED], "entering the clause in the occurrence lists", "prepare")
        c.always(R, F, [loop_around(F, k)[0] for k in add if loop_around(F, k)], "entering the clauses in the occurrence lists",
                 "prepare:runs", [lambda f: f[0][0] == "true" and not f[1] and has_field(f[0], "enable")])
    # entering a clause is refused only when it is already there
    A = c.flat("Eliminator.add_cid_occur")
    grow = [k for k in c.calls(A, *GROW) if any(has_field(t, *LISTS) for t, _ in alternatives(A, c.args(A, k)[0]))]
    hs = [loop_around(A, k)[0] for k in grow if loop_around(A, k)]
    if c.floor(R, 1, len(hs)):
        c.always(R, A, hs, "walking over the literals of the clause", "add:refused", [idle, LINKED, DEAD])
    on = [k for k in c.calls(A, "Clause.turn_on", "Clause.set") if has_name(c.args(A, k)[1], "OCCUR_LINKED")]
    for b, line in c.callers("Clause.turn_on", crate="splr.lib"):
        for o in c.owner(b):
            if o == "Eliminator.add_cid_occur":
                continue
            G = c.flat(b)
            for k in c.calls(G, "Clause.turn_on"):
                c.ob(R, not has_name(c.args(G, k)[1], "OCCUR_LINKED"), f"{c.where(G, k)}: a clause is marked as entered without being "
                     "entered", "marked", c.where(G, k))
    c.floor(R, 1, len(on))
    # the mark goes when the lists go
    S = c.flat("Eliminator.stop")
    off = [k for k in c.calls(S, "Clause.turn_off") if has_name(c.args(S, k)[1], "OCCUR_LINKED")]
    if c.floor(R, 1, len(off)):
        for k in off:
            reaches_all(c, S, R, k, [DEAD, exactly("OCCUR_LINKED", False)], "taking the mark off", "stop")
        c.always(R, S, [loop_around(S, k)[0] for k in off if loop_around(S, k)], "taking the marks off", "stop:runs",
                 [lambda f: f[0][0] == "is" and f[0][2] == "Dormant" and f[1]])
    M = c.flat("Eliminator.simplify")
    stop = c.calls(M, "Eliminator.stop")
    c.always(R, M, stop, "ending the elimination", "simplify:stop",
             [lambda f: idle(f), lambda f: f[1] and f[0][0] == "is" and f[0][2] in ("Err", "Break")])
    # lists that miss a clause stay marked until they are emptied
    n = 0
    for b in list(c.prog.bodies.values()):
        if b.crate != "splr.lib" or "/processor/" not in b.file:
            continue
        own = set(c.owner(b))
        if own & {"LitOccurs.clear", "LitOccurs.new", "LitOccurs.default", "Eliminator.reset"}:
            continue
        G = c.flat(b)
        for k in c.writes(G, "aborted"):
            n += 1
            v = c.wval(G, k)
            defs = [G.call_term(d) for d in G.defs.get(v[1], ()) if d.kind == "call" and d.id in G.at] if v[0] == "var" else []
            bad = [t for t, d in [(x, y) for x, y in alternatives(G, v) if x != v or not defs] + [(x, None) for x in defs]
                   if constval(t) not in (1, True) and not has_field(t, "aborted")
                   and not any(not f[1] and f[0][0] == "true" and has_field(f[0], "aborted")
                               for f in list(G.facts_at(k)) + (list(G.facts_at(d)) if d is not None else []))]
            if bad:
                c.ob(R, False, f"{c.where(G, k)}: an incomplete list of occurrences counts as complete again ({tstr(bad[0])[:50]})",
                     "aborted", c.where(G, k))
    c.floor(R, 1, n)
    # the elimination takes the lists as a whole
    E = c.flat("eliminate_var")
    for k in c.calls(E, "Vec.retain", "Vec.retain_mut"):
        a = c.args(E, k)
        if not has_field(a[0], *LISTS):
            continue
        sign = 1 if has_field(a[0], "pos_occurs") else 0

        def other(f):
            t, b = f
            if b or t[0] != "true" or not is_call(t[1], "contains", "any"):
                return False
            consts = [constval(x) for s in subterms(t[1][2][1]) if s and s[0] in ("tuple", "agg", "adt") for x in flat_parts(s)
                      if isinstance(constval(x), (int, bool))] if len(t[1][2]) > 1 else []
            flip = NEGATED(t[1][2][1])
            return not consts or (int(consts[-1]) != int(flip)) == bool(sign)
        for w in result_ways(E, k, False) or ():
            c.ob(R, any(DEAD(f) or other(f) for f in w), f"{c.where(E, k)}: a clause leaves the list although it contains the literal",
                 "retain", c.where(E, k))
    for k in c.calls(E, "merge"):
        for t in c.args(E, k)[2:4]:
            for v in values(E, t):
                whole(c, E, R, v, k, "pairs:whole")
                for s in subterms(v):
                    if s and s[0] == "index" and cut_slice(s[2]):
                        c.ob(R, False, f"{c.where(E, k)}: only part of the clauses are resolved", "pairs:slice", c.where(E, k))
                for x in seq_sources(v)[0]:
                    if last(x[1]) in ("filter", "filter_map") and call_node(x) is not None:
                        for w in result_ways(E, call_node(x), False) or ():
                            c.ob(R, any(DEAD(f) for f in w), f"{c.where(E, call_node(x))}: clauses are left out of the resolution",
                                 "pairs:filter", c.where(E, call_node(x)))
    # new clauses are entered
    new = c.calls(E, "ClauseDB.new_clause")
    enter = set(c.calls(E, "Eliminator.add_cid_occur"))
    other = lambda f: f[0][0] == "is" and has_call(f[0][1], "new_clause") and f[1] == (f[0][2] != "Clause")
    for k in new:
        p = E.path_after(k, lambda i: E.nodes[E.pn[i]].kind == "return" or E.pn[i] in new, lambda i: E.pn[i] in enter,
                         c.edge_ok(E, [other, idle]))
        c.ob(R, p is None, f"{c.where(E, k)}: a new clause is not entered in the occurrence lists", "new", c.where(E, k),
             E.show(p) if p else None)
    # lists are emptied for the eliminated variable only
    for k in c.calls(E, "LitOccurs.clear"):
        i = indexed(c.args(E, k)[0])
        c.ob(R, i is None or i[1][0] == "arg" or i[1][0] == "var", f"{c.where(E, k)}: empties the lists of another variable", "emptied",
             c.where(E, k))
    # single entries leave with their clause or their literal
    for fn in ("eliminate_var", "Eliminator.try_subsume", "strengthen_clause"):
        G = c.flat(fn)
        rm = c.calls(G, "ClauseDB.remove_clause", "remove_clause_fn", "ClauseDBIF.remove_clause")
        for k in c.calls(G, "Eliminator.remove_cid_occur"):
            mine = [r for r in rm if same(c.args(G, r)[1], c.args(G, k)[2])]
            c.together(R, G, [k], mine, "removing the clause", "left:" + fn, local=True)
        tr = c.calls(G, "ClauseDB.transform_by_elimination")
        for k in c.calls(G, "Eliminator.remove_lit_occur"):
            a = c.args(G, k)
            ok = any(same(c.args(G, x)[1], a[3]) and same(c.args(G, x)[2], a[2]) for x in tr)
            c.ob(R, ok, f"{c.where(G, k)}: an entry leaves the list although its clause keeps the literal", "left-lit:" + fn, c.where(G, k))
    L = c.flat("Eliminator.remove_lit_occur")
    for k in c.calls(L, "Vec.delete_unstable", "Vec.retain"):
        a = c.args(L, k)
        if a[1][0] == "closure" and last(L.nodes[k].data[0][0]) == "delete_unstable":
            c.ob(R, c.closure_implies(a[1][1], lambda f: f[1] and f[0][0] == "eq"), f"{c.where(L, k)}: removes the entry of another "
                 "clause", "delete", c.where(L, k))
        elif a[1][0] == "closure":
            for w in result_ways(L, k, False) or ():
                c.ob(R, any(f[1] and f[0][0] == "eq" or DEAD(f) for f in w), f"{c.where(L, k)}: removes the entry of another clause",
                     "delete", c.where(L, k))
    B = c.flat("Eliminator.backward_subsumption_check")
    for k in c.calls(B, "Vec.retain"):
        if has_field(c.args(B, k)[0], *LISTS):
            for w in result_ways(B, k, False) or ():
                c.ob(R, any(DEAD(f) for f in w), f"{c.where(B, k)}: the entry of a live clause is removed", "sweep", c.where(B, k))


def flat_parts(s):
    for x in s[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield y[-1] if len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple) else y
