"""P19 the stand-alone model checker."""
import re
from rules import *
from registry import prop
from paths import machine
from props_answers import validator
from props_assign import has_arg

B = "dmcr.bin"
INJECT = ("Solver.inject_assignment", "ValidateIF.inject_assignment", "inject_assignment")
VALID = ("Solver.validate", "ValidateIF.validate")
SHOW = ("_print", "_eprint", "write_all", "write_fmt", "write_str")
GOOD = re.compile(r"(?i)(?<![a-z])valid assignment|(?<![a-z])is satisfied|(?<![a-z])satisfies")
BAD = re.compile(r"(?i)invalid assignment|not valid|not satisf|unsatisfied|does not satisfy|falsif")


def texts(F, nid):
    return " ".join(s[1] if isinstance(s[1], str) else str(s[-1]) for a in F.nodes[nid].data[1] for s in subterms(F.term(a))
                    if s and s[0] == "const" and any(isinstance(x, str) for x in s[1:]))


def flow(F, op, seen=None, ids=None):
    """constant texts (and the calls, in ids) that reach an operand through any definition of the variables on the way"""
    out, seen = set(), set() if seen is None else seen
    st = [F.term(op)]
    while st:
        t = st.pop()
        for s in subterms(t):
            if not s:
                continue
            if s[0] == "const":
                out |= {x for x in s[1:] if isinstance(x, str)}
            elif s[0] == "call" and len(s) > 3 and ids is not None:
                ids.add(s[3])
            elif s[0] == "var" and s[1] not in seen and len(seen) < 40:
                seen.add(s[1])
                for d in F.defs.get(s[1], ()):
                    if d.id in F.at:
                        st.append(F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d))
    return out


def verdict(c):
    F = c.flat("main", crate=B)
    inj, val = set(c.calls(F, *INJECT)), set(c.calls(F, *VALID))
    shows = {n.id for n in F.nodes if n.id in F.at and n.kind in ("call", "diverge") and last(n.data[0][0]) in SHOW}
    c.floor("verdict", 2, min(1, len(inj)) + min(1, len(val)))
    word = {}
    for k in shows:
        t = " ".join(x for a in F.nodes[k].data[1] for x in flow(F, a))
        g, b = bool(GOOD.search(BAD.sub(" ", t))), bool(BAD.search(t))
        if g != b:
            word[k] = "good" if g else "bad"
    c.floor("verdict", 2, len(set(word.values())))
    I = lambda t: t and t[0] == "call" and len(t) > 3 and t[3] in inj
    V = lambda t: t and t[0] == "call" and len(t) > 3 and t[3] in val
    goods = {}

    def outcome(f):
        """('inj'|'val', holds) said by a fact"""
        t, pol = f
        if t[0] == "is" and I(t[1]) and t[2] in ("Ok", "Err"):
            return "inj", (t[2] == "Ok") == pol
        if t[0] == "is" and V(t[1]) and t[2] in ("Some", "None"):
            return "val", (t[2] == "None") == pol
        return None

    def says(t):
        """('inj'|'val', what the truth of a boolean term says)"""
        for n, h in (("is_ok", True), ("is_err", False)):
            if is_call(t, n) and t[2] and I(t[2][0]):
                return "inj", h
        for n, h in (("is_none", True), ("is_some", False)):
            if is_call(t, n) and t[2] and V(t[2][0]):
                return "val", h
        return None

    def step(st, n, dm):
        i, v, pr, al = st
        pr = None
        if n.id in inj:
            i = None
        if n.id in val:
            v = None
        if n.kind in ("call", "assign"):
            t = F.call_term(n) if n.kind == "call" else F.rv_term(n.data[1], 0, (), n)
            if n.kind == "call" and last(n.data[0][0]) in ("unwrap", "expect") and t[2] and I(t[2][0]):
                i = True
            d = n.data[2] if n.kind == "call" else n.data[0]
            if not d[1]:
                al = frozenset(x for x in al if x[0] != d[0])
                s = says(t)
                if s:
                    al = al | {(d[0],) + s}
                for q, res in (("inj", I), ("val", V)):
                    if n.kind == "assign" and res(t):
                        al = al | {(d[0], q, "same")}
        if n.id in word:
            pr = word[n.id]
        elif n.id in shows:
            pr = "some"
        return (i, v, pr or st[2], al)

    def on_edge(st, f, env):
        i, v, pr, al = st
        o = outcome(f)
        t, pol = f
        if o is None and t[0] in ("true", "is") and t[1] and t[1][0] == "var":
            for loc, what, h in al:
                if loc == t[1][1]:
                    if t[0] == "true" and h != "same":
                        o = (what, h == pol)
                    elif t[0] == "is" and h == "same" and t[2] in ("Ok", "Err", "Some", "None"):
                        o = (what, (t[2] in ("Ok", "None")) == pol)
        if o and o[0] == "inj":
            if i is not None and i != o[1]:
                return None
            i = o[1]
        elif o:
            if v is not None and v != o[1]:
                return None
            v = o[1]
        return (i, v, pr, al)

    def bad(st, n, i, dm):
        il, v, pr, al = st
        w = None
        if n.id in word and word[n.id] == "good":
            if il is not True:
                w = "says valid although the assignment was not loaded without a clash"
            elif v is not True:
                w = "says valid although the clauses were not found satisfied"
        elif n.id in word and v is True:
            w = "says invalid although every clause is satisfied"
        elif n.kind == "return" or n.kind == "diverge" and last(n.data[0][0]) == "exit":
            if v is True and pr != "good":
                w = "ends without calling a satisfying assignment valid"
            elif v is False and pr != "bad":
                w = "ends without reporting the clause that is not satisfied"
            elif il is False and pr is None:
                w = "ends without reporting that the assignment could not be loaded"
        if w:
            goods["w"] = (w, n.id)
        return bool(w)
    p = machine(F, F.pstart, (None, None, None, frozenset()), step, bad, on_edge)
    w, nid = goods.get("w", ("", 0)) if p else ("", 0)
    c.ob("verdict", p is None, f"{c.where(F, nid)}: main {w}" if p else "", w.split(" although")[0].split(" without")[-1].strip() or "path",
         c.where(F, nid) if p else "", F.show(p) if p else None)
    # validation looks at the solver the assignment went into, and the assignment is the one that was read
    for k in inj:
        a = c.args(F, k)
        rd = c.calls(F, "read_assignment")
        if rd and len(a) > 1:
            c.ob("source", has(a[1], lambda s: s[0] == "call" and last(s[1]) == "read_assignment") or has(a[1], lambda s: s[0] in ("var",)),
                 f"{c.where(F, k)}: loads {tstr(a[1])[:60]}, not the assignment that was read", "loaded", c.where(F, k))
        for x in val:
            b = c.args(F, x)
            sv = lambda t: {s[3] for s in subterms(t) if s and s[0] == "call" and len(s) > 3 and last(s[1]) in ("build", "try_from", "instantiate")}
            if sv(a[0]) and sv(b[0]):
                c.ob("source", sv(a[0]) & sv(b[0]), f"{c.where(F, x)}: validates another solver", "solver", c.where(F, x))
    for k, g in word.items():
        if g == "bad":
            ids, loose = set(), False
            for a in F.nodes[k].data[1]:
                flow(F, a, ids=ids)
            c.ob("clause", bool(ids & val), f"{c.where(F, k)}: the clause that is not satisfied is not shown", "shown", c.where(F, k))
    return len(word)


SKIPS = {"skip", "take", "step_by", "skip_while", "filter", "nth", "rev", "skip_last", "dedup", "truncate", "retain", "pop", "remove",
         "swap_remove", "drain"}


def diverges(c, uid, crate):
    """a closure that never returns"""
    b = c.prog._b(uid, crate)
    if b is None:
        return False
    G = c.flat(b)
    return not any(G.nodes[i].kind == "return" for i in G.at)


def reader(c):
    """every number of the value line is loaded as it stands, up to the closing zero"""
    F = c.flat("read_assignment", crate=B)
    ps = [k for k in c.calls(F, "str.parse", "parse")]
    pushes = [k for k in c.calls(F, "Vec.push") if has_call(c.args(F, k)[1], "parse")]
    zero = lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "parse") and 0 in (constval(f[0][1]), constval(f[0][2]))
    err = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err" and has_call(f[0][1], "parse")
    c.floor("reader", 1, len(ps))
    for k in pushes:
        a = c.args(F, k)
        v = a[1]
        plain = v[0] == "field" or is_call(v, "unwrap", "expect", "parse") or is_call(v, "unwrap_or_else") and len(v[2]) == 2 and \
            v[2][1][0] == "closure" and diverges(c, v[2][1][1], B)
        if v[0] != "var":
            c.ob("reader", plain and not has(v, lambda s: s[0] in ("un", "bin") or is_call(s, "abs", "unsigned_abs", "wrapping_abs", "neg")),
                 f"{c.where(F, k)}: records {tstr(v)[:60]} instead of the number read", "value", c.where(F, k))
        it = {last(s[1]) for s in subterms(v) if s and s[0] == "call"} & SKIPS
        c.ob("reader", not it, f"{c.where(F, k)}: the numbers of the line go through {', '.join(sorted(it))}", "all", c.where(F, k))
    if pushes and all(loop_around(F, k) for k in pushes):
        inner = [k for k in pushes if F.nodes[k].body is F.root or True]
        c.each_iteration("reader", F, inner, "recording the number", "each", [zero, err])
        for k in inner[:1]:
            c.no_early_exit("reader", F, k, "the loop over the numbers", "stop", [zero, err])
    # what cannot be read as a number is not passed over
    for pi, j, sid in c.edges_with(F, err):
        p = F._find(j, lambda x: F.nodes[F.pn[x]].kind == "return" and (F.pval[x].get((0, 0)) or "??")[1] == "Some", lambda x: False)
        c.ob("reader", p is None, f"{c.where(F, sid)}: an unreadable number is passed over", "unreadable", c.where(F, sid),
             F.show(p) if p else None)
    # an answer that is not a model is never turned into an assignment
    no = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "starts_with", "eq") and has_text(f[0][1], "s UNSATISFIABLE")
    for pi, j, sid in c.edges_with(F, no):
        p = F._find(j, lambda x: F.nodes[F.pn[x]].kind == "return" and (F.pval[x].get((0, 0)) or "??")[1] == "Some", lambda x: False)
        c.ob("reader", p is None, f"{c.where(F, sid)}: an unsatisfiable answer is read as an assignment", "unsat", c.where(F, sid),
             F.show(p) if p else None)


def has_text(t, w):
    return has(t, lambda s: s[0] == "const" and any(isinstance(x, str) and w in x for x in s[1:]))


def answers(F, k):
    """the result of the call is the answer of the closure it stands in"""
    n = F.nodes[k]
    t = F.term(("c", ((n.frame, 0), ())))
    return n.data[2] == ((n.frame, 0), ()) or has(t, lambda s: s[0] == "call" and len(s) > 3 and s[3] == k)


def loading(c):
    """inject_assignment fixes every literal it is given and reports a clash"""
    F = c.flat("Solver.inject_assignment")
    ks = c.calls(F, "AssignStack.assign_at_root_level", "PropagateIF.assign_at_root_level")
    c.floor("loading", 1, len(ks))
    for k in ks:
        a = c.args(F, k)
        el = next((s for s in subterms(a[1]) if s and s[0] == "elem"), None)
        if el is not None:
            a = [a[0], c.args(F, el[1])[0] if el[1] in F.at else a[1]]
        c.ob("loading", "vec" in root_args(a[1]) and not has_call(a[1], "not", "neg", "abs", "unsigned_abs"),
             f"{c.where(F, k)}: fixes {tstr(a[1])[:60]}, not the literal given", "literal", c.where(F, k))
        it = {last(s[1]) for s in subterms(a[1]) if s and s[0] == "call"} & SKIPS
        c.ob("loading", not it, f"{c.where(F, k)}: the literals go through {', '.join(sorted(it))}", "all", c.where(F, k))
    if ks and loop_around(F, ks[0]):
        c.each_iteration("loading", F, ks, "fixing the literal", "each")
        c.no_early_exit("loading", F, ks[0], "the loop over the literals", "stop")
    # the answer of each fixing is looked at before the next one or the end
    for k in ks:
        fine = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Ok" and has(f[0][1], lambda s: s[0] == "call" and len(s) > 3 and s[3] == k) or \
            f[0][0] == "true" and has(f[0][1], lambda s: s[0] == "call" and len(s) > 3 and s[3] == k) and has_call(f[0][1], "is_ok", "is_err")
        rets = {h for h in F.hofs_of(k) if h in F.hof}
        for i in F.at[k]:
            if any(F.stopped(q) for h in rets for q in F.at[h]) and answers(F, k):
                continue
            p = F._find(i, lambda x: F.nodes[F.pn[x]].kind == "return" and (F.pval[x].get((0, 0)) or "??")[1] == "Ok" or F.pn[x] == k,
                        lambda x: False, c.edge_ok(F, [fine]), skip_first=True)
            c.ob("loading", p is None, f"{c.where(F, k)}: whether the literal clashes is not looked at", "clash", c.where(F, k),
                 F.show(p) if p else None)
    clash = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err" and has_call(f[0][1], "assign_at_root_level")
    for pi, j, sid in c.edges_with(F, clash):
        p = F._find(j, lambda x: F.nodes[F.pn[x]].kind == "return" and (F.pval[x].get((0, 0)) or "??")[1] == "Ok", lambda x: False)
        c.ob("loading", p is None, f"{c.where(F, sid)}: a clash is not reported", "clash", c.where(F, sid), F.show(p) if p else None)
    root_clash(c, "loading")


def root_clash(c, R0):
    """fixing a literal succeeds only if the variable was free or had that value"""
    R = c.flat("AssignStack.assign_at_root_level")
    same_ = lambda f: f[1] and f[0][0] == "eq" and has_field(f[0], "assign") and has_arg(f[0], 2) and \
        not has(f[0], lambda s: s[0] == "un" or is_call(s, "not", "neg")) or \
        f[0][0] == "eq" and f[1] and has_call(f[0], "assigned") and not has_call(f[0], "not", "neg") and \
        has(f[0], lambda s: s and constval(s) in (1, True)) or \
        f[1] and f[0][0] == "true" and has_call(f[0], "assigned")
    sets = set(c.writes(R, "assign")) | set(c.calls(R, "Vec.push"))
    for i, av in R.returns():
        if av is not None and av[1] == "Ok":
            p = R._find(R.pstart, lambda x: x == i, lambda x: R.pn[x] in sets, c.edge_ok(R, [same_]))
            c.ob(R0, p is None, f"{R.root.where()}: a literal is accepted although it was neither fixed nor agreed with before",
                 "root-clash", R.root.where(), R.show(p) if p else None)


def strictly(c):
    """Solver::validate passes the assignment of the solver, demands that every clause is true and hands the clause on"""
    F = c.flat("Solver.validate")
    ks = c.calls(F, "ClauseDB.validate", "ClauseDBIF.validate")
    c.floor("strict", 1, len(ks))
    for k in ks:
        a = c.args(F, k)
        s = constval(a[2])
        c.ob("strict", s in (1, True, None) , f"{c.where(F, k)}: clauses without a true literal pass", "flag", c.where(F, k))
        c.ob("strict", "self" in root_args(a[1]), f"{c.where(F, k)}: validates {tstr(a[1])[:60]}", "assignment", c.where(F, k))
    for n in F.nodes:
        if n.id in F.at and n.kind == "call" and last(n.data[0][0]) in ("filter", "take", "xor", "and", "replace") and n.data[1] and \
                has_call(F.term(n.data[1][0]), "validate"):
            c.ob("strict", False, f"{c.where(F, n.id)}: a clause found unsatisfied is dropped", "dropped", c.where(F, n.id))
    for i, av in F.returns():
        if av is not None and av[0] == "v" and av[1] == "None":
            none = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None" and has_call(f[0][1], "validate") or \
                not f[1] and f[0][0] == "is" and f[0][2] == "Some" and has_call(f[0][1], "validate")
            p = F._find(F.pstart, lambda x: x == i, lambda x: False, c.edge_ok(F, [none]))
            c.ob("strict", p is None, f"{F.root.where()}: accepts without the clause check", "none", F.root.where(), F.show(p) if p else None)
    # a clause without a true literal stops the validation if the caller is strict
    V = c.flat("ClauseDB.validate")
    for e in c.calls(V, "Clause.evaluate"):
        und = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None" and is_call(f[0][1], "evaluate") or \
            f[1] and f[0][0] == "true" and is_call(f[0][1], "is_none") and has_call(f[0][1], "evaluate")
        lax = lambda f: not f[1] and f[0][0] == "true" and f[0][1][0] == "arg" and f[0][1][3] == "strict"
        for pi, j, sid in c.edges_with(V, und):
            lp = loop_around(V, e)
            res = {V.hof[h][1] for h in V.hofs_of(e) if h in V.hof}

            def told(x):
                # the closure answers with the flag itself
                n = V.nodes[V.pn[x]]
                if n.kind != "assign" or n.data[0][1] or n.data[0][0] not in res:
                    return False
                t = V.rv_term(n.data[1], 0, (), n)
                return t[0] == "arg" and t[3] == "strict"
            p = V._find(j, lambda x: lp and V.pn[x] == lp[0] or V.nodes[V.pn[x]].kind == "return" and
                        (V.pval[x].get((0, 0)) or "??")[1] == "None", told, c.edge_ok(V, [lax]))
            before = any(g[0][0] == "true" and g[0][1][0] == "arg" and g[0][1][3] == "strict" and not g[1] for g in V.facts_at(sid))
            c.ob("strict", p is None or before, f"{c.where(V, sid)}: a clause without a true literal can pass a strict validation",
                 "undecided", c.where(V, sid), V.show(p) if p else None)
    # a clause counts as undecided or false only after all of its literals were looked at
    E = c.flat("Clause.evaluate")
    done = F_is("None", "next")
    for i, av in E.returns():
        if av is None or av[0] != "v" or av[1] not in ("None", "Some"):
            continue
        if av[1] == "Some" and av[2] and av[2][0][1] == ("i", 1):
            continue
        if not E.hof and any(F_is("Some", "next")(f) for s in E.nodes if s.kind == "switch" and s.id in E.at
                             for _, e in s.succ if e is not None for f in E.edge_facts(s, e)):
            trues = lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "from", "as_bool")
            p = E._find(E.pstart, lambda x: x == i, lambda x: False, c.edge_ok(E, [done, trues]))
            c.ob("strict", p is None, f"{E.root.where()}: a clause is judged before all of its literals were looked at", "judged",
                 E.root.where(), E.show(p) if p else None)
    G = c.flat("AssignStack.assign_ref")
    for k in c.calls(G, "Iterator.map", "map", "collect", "Iterator.collect"):
        t = G.call_term(G.nodes[k])
        it = {last(s[1]) for s in subterms(t) if s and s[0] == "call"} & SKIPS
        c.ob("strict", not it, f"{c.where(G, k)}: the table of values goes through {', '.join(sorted(it))}", "values", c.where(G, k))


@prop("P19", "path state machine over the checker's main function with dataflow rules for its library calls",
      "Every path of the checker is followed with the outcome of loading and of the clause check and compared with the verdict it "
      "prints; the reading of the value line, the loading of literals and the clause check are decided by dataflow rules. Exit "
      "codes and value lines split over several lines are not decided.")
def p19(c):
    verdict(c)
    reader(c)
    loading(c)
    strictly(c)
    validator(c)
