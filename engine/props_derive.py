"""P33: derived clauses leave out only what their rule allows"""
from rules import *
from registry import prop
from props_model import norm, lin, offset, call_node, vi_of
from props_assign import alternatives
from props_answers import adt_nodes, lit_true
from props_conflict import learning, redundancy

FEWER = {"skip", "take", "step_by", "skip_while", "take_while", "map_while", "nth", "last"}
EDIT = ("Vec.pop", "Vec.truncate", "Vec.remove", "Vec.swap_remove", "Vec.drain", "Vec.dedup", "Vec.dedup_by_key", "Vec.dedup_by",
        "Vec.split_off", "Vec.retain", "Vec.retain_mut", "Vec.delete_unstable", "Vec.clear", "Vec.resize")
NEGATED = lambda t: has(t, lambda s: is_call(s, "not") or s[0] == "un" and s[1] == "Not")


def ways(F, op, want, depth=0):
    """the ways a boolean gets the value want: a list of sets of facts"""
    if op[0] == "k":
        v = op[1].get("v")
        return [] if v is not None and bool(v) != want else [set()]
    if op[0] not in ("c", "m") or depth > 8:
        return [set()]
    here = set(bool_fact(F.term(op), want))
    ds = [d for d in F.defs.get(op[1][0], []) if d.id in F.at] if not op[1][1] else []
    if not ds:
        return [here]
    out = []
    for d in ds:
        base = set(F.facts_at(d.id))
        if d.kind == "call":
            out.append(base | set(bool_fact(F.call_term(d), want)))
            continue
        rv = d.data[1]
        sub = None
        if rv[0] == "use":
            sub = ways(F, rv[1], want, depth + 1)
        elif rv[0] == "un" and rv[1] == "Not":
            sub = ways(F, rv[2], not want, depth + 1)
        elif rv[0] == "bin" and rv[1] in ("BitAnd", "BitOr"):
            a, b = (ways(F, x, want, depth + 1) for x in (rv[2], rv[3]))
            sub = [x | y for x in a for y in b] if (rv[1] == "BitAnd") == want else a + b
        if sub is None:
            sub = [set(bool_fact(F.rv_term(rv, 0, (), d), want))]
        out += [base | s for s in sub]
    return [here | s for s in out] if len(ds) == 1 else out


def frames_of(F, k):
    return [fr for fr, n in F.frame_hof.items() if n == k]


def result_ways(F, k, want):
    """the ways the closure given to call k answers want; None if the closure is not known"""
    fr = frames_of(F, k)
    if not fr:
        return None
    return [w for f in fr for w in ways(F, ("c", ((f, 0), ())), want)]


def chain_calls(t):
    """the calls an iterator or a list is made of, from the outside in"""
    out = []
    seen = 0
    while t and seen < 40:
        seen += 1
        if t[0] == "call" and t[2]:
            out.append(t)
            t = t[2][0]
        elif t[0] in ("field", "variant", "try"):
            u = t
            while u[0] in ("field", "variant", "try"):
                u = u[1]
            if u[0] != "call" or not u[2]:
                break
            t = u
        else:
            break
    return out, t


def seq_sources(t):
    """all calls a sequence is made of, chained sequences included, and what they start from"""
    calls, base = chain_calls(t)
    bases = [base]
    for x in list(calls):
        if last(x[1]) in ("chain", "zip") and len(x[2]) > 1:
            c2, b2 = seq_sources(x[2][1])
            calls += c2
            bases += b2
    return calls, bases


def whole(c, F, rule, t, k, key, skip=0, walk=()):
    """no adaptor in t leaves elements out (filters are judged separately)"""
    for x in seq_sources(t)[0]:
        nm = last(x[1])
        if nm in FEWER and not (nm == "last"):
            n = constval(x[2][1]) if len(x[2]) > 1 else None
            ok = nm == "skip" and isinstance(n, int) and n <= skip
            c.ob(rule, ok or nm in walk, f"{c.where(F, k)}: only part of the literals are used ({nm})", key, c.where(F, k))
    for s in subterms(t):
        if s and s[0] == "adt" and s[1].split("::")[-1] in ("RangeFrom", "Range", "RangeTo", "RangeInclusive", "RangeToInclusive"):
            lo = dict(s[3]).get("start")
            v = constval(lo) if lo is not None else 0
            if isinstance(v, int):
                c.ob(rule, v <= skip, f"{c.where(F, k)}: the first {v} literals are not used", key, c.where(F, k))


def filters(F, t):
    return [x for x in seq_sources(t)[0] if last(x[1]) in ("filter", "filter_map", "retain")]


def flows(c, F, rule, dest, ok_drop, key, what, loops_excuse=()):
    """what enters the list dest: whole sequences with judged filters, or pushes from loops.
    Returns the sequences (terms) that reach it"""
    seqs = []

    def judge(t, k, depth=0):
        calls, bases = seq_sources(t)
        whole(c, F, rule, t, k, key + ":whole")
        for x in calls:
            nm = last(x[1])
            if nm in ("filter", "filter_map"):
                ws = result_ways(F, call_node(x), False) if nm == "filter" else None
                for w in ws or ():
                    c.ob(rule, any(ok_drop(f, x) for f in w), f"{c.where(F, call_node(x))}: {what}", key + ":filter",
                         c.where(F, call_node(x)))
        seqs.append((t, k))
    for n in F.nodes:
        if n.kind != "call" or n.id not in F.at or not n.data[1]:
            continue
        nm = last(n.data[0][0])
        a = c.args(F, n.id)
        if nm in ("extend", "append", "extend_from_slice", "extend_from_within", "clone_from") and len(a) > 1 and dest(a[0]):
            judge(a[1], n.id)
        elif nm == "push" and dest(a[0]):
            lp = loop_around(F, n.id)
            if lp is None:
                continue
            c.each_iteration(rule, F, [n.id], "keeping the literal", key + ":each",
                             [lambda f: ok_drop(f, None)] + list(loops_excuse))
            c.no_early_exit(rule, F, n.id, "the loop over the literals", key + ":all")
            for t in c.upstream(F, n.id):
                judge(t, n.id)
                break
        elif nm in ("retain", "retain_mut") and dest(a[0]):
            for w in result_ways(F, n.id, False) or ():
                c.ob(rule, any(ok_drop(f, None) for f in w), f"{c.where(F, n.id)}: {what}", key + ":retain", c.where(F, n.id))
            seqs.append((a[0], n.id))
        elif nm in ("pop", "truncate", "remove", "swap_remove", "drain", "dedup", "dedup_by_key", "dedup_by", "split_off") and dest(a[0]):
            c.ob(rule, False, f"{c.where(F, n.id)}: {what} ({nm})", key + ":edit", c.where(F, n.id))
        elif nm in ("collect", "to_vec", "from_iter", "clone") and n.id in made_lists(F, n, dest):
            judge(a[0], n.id)
    return seqs


def made_lists(F, n, dest):
    t = F.call_term(n)
    return {n.id} if dest(t) else set()


def through(F, pred):
    """the fact, or an any/all whose answer implies it for the element it stopped at"""
    def q(f):
        if pred(f):
            return True
        t, b = f
        if t[0] == "true" and is_call(t[1], "any" if b else "all") or \
                t[0] == "is" and is_call(t[1], "find", "position") and b == (t[2] == "Some"):
            k = call_node(t[1])
            ws = result_ways(F, k, t[0] == "is" or b) if k is not None else None
            return bool(ws) and all(any(pred(g) for g in w) for w in ws)
        return False
    return q


def lits_of(t):
    return has_field(t, "lits") or has_call(t, "iter")


@prop("P33", "value-flow and guarded-drop rules over MIR, closures followed",
      "Decides, for every place that derives a clause by leaving literals out (resolution, root simplification, strengthening, "
      "minimisation, vivification, redundancy), that each way of leaving a literal out is one the rule allows and that no "
      "literal of a parent is passed over; the meaning of the reasons recorded on the trail is taken from P11, P12 and P28.")
def p33(c):
    resolution(c)
    dropping(c)
    simplification(c)
    strengthening(c)
    binary_minimisation(c)
    sandbox(c)
    vivifying(c)
    minimising(c)
    handed_on(c)
    signs(c)
    stored(c)
    learning(c)
    redundancy(c)


def elem_vi(f, F=None):
    """the fact compares the element's variable with something fixed"""
    t, b = f
    if t[0] != "eq":
        return None
    for x, y in ((t[1], t[2]), (t[2], t[1])):
        if is_call(x, "vi") and has(x, lambda s: s[0] == "elem" or is_call(s, "next")) and \
                not has(y, lambda s: s[0] == "elem" or is_call(s, "next", "vi")):
            return y
    return None


def resolution(c):
    R = "resolution"
    F = c.flat("merge")
    same_var = lambda f: f[1] and elem_vi(f) is not None and elem_vi(f)[0] == "arg"
    dup_used = {}

    def present(f, x=None):
        t, b = f
        if not (b and t[0] == "true" and is_call(t[1], "contains", "any")):
            return False
        y = t[1][2][1] if len(t[1][2]) > 1 else None
        if y is None:
            return False
        if y[0] == "closure":
            return c.closure_implies(y[1], lambda g: g[1] and g[0][0] == "eq" and not has_call(g[0], "vi", "not"))
        return not NEGATED(y)

    def drop(f, x):
        if same_var(f):
            return True
        if present(f):
            dup_used.setdefault(norm(f[0][1][2][0]), set()).add(x and norm(base_of(x)))
            return True
        return False

    def base_of(x):
        return seq_sources(x)[1][0]
    outs = [b for n in F.nodes if n.kind == "call" and n.id in F.at and last(n.data[0][0]) in ("swap", "replace")
            for a in c.args(F, n.id) for b in values(F, a)]
    wr = [c.wval(F, n.id) for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and
          F.place_term(n.data[0])[0] == "arg"]

    def dest(t):
        if t[0] == "arg":
            return len(t) > 2 and "Vec<" in F.root.locals[t[2]]
        return any(same_list(t, o) for o in outs + wr)
    seqs = flows(c, F, R, dest, drop, "merge", "a resolvent loses a literal it must keep")
    # two-step: lists appended to the result are made of filtered sequences
    bases = []
    for t, k in seqs:
        for b in seq_sources(t)[1]:
            if b not in bases:
                bases.append(b)
    c.floor(R, 1, len(seqs))
    c.ob(R, len(bases) >= 2, f"{F.root.where()}: the resolvent is made of {len(bases)} clause", "merge:both", F.root.where())
    # a literal of both clauses is kept once: only one side may leave it out
    sides = {b for v in dup_used.values() for b in v if b}
    c.ob(R, len(sides) <= 1, f"{F.root.where()}: literals of both clauses are left out on both sides", "merge:once", F.root.where())
    # no resolvent at all only for a tautology
    zero = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0] == ((0, 0), ()) and
            n.data[1][0] == "use" and n.data[1][1][0] == "k" and n.data[1][1][1].get("v") == 0]

    def opposite(f):
        t, b = f
        if not b:
            return False
        if t[0] == "true" and is_call(t[1], "contains"):
            return NEGATED(t[1][2][1])
        return t[0] == "eq" and any(NEGATED(x) for x in t[1:]) and not has_call(t, "vi")
    other_var = lambda f: not f[1] and elem_vi(f) is not None
    if zero:
        c.only_if(R, F, zero, through(F, opposite), "a literal occurring with both signs", "merge:tautology")
        # the resolved variable occurs with both signs in any case
        anyc = [n for n in F.nodes if n.kind == "call" and n.id in F.at and last(n.data[0][0]) in ("any", "find", "position")]
        filt = False
        for n in anyc:
            for x in seq_sources(F.term(n.data[1][0]))[0]:
                if last(x[1]) == "filter":
                    ws = result_ways(F, call_node(x), True)
                    filt |= ws is not None and all(any(other_var(f) for f in w) for w in ws)
        if not filt:
            c.only_if(R, F, zero, through(F, other_var), "the variable not being the resolved one", "merge:tautology-other")
    # the caller does not touch it
    E = c.flat("eliminate_var")
    mg = c.calls(E, "merge")
    vecs = {norm(a) for k in mg for a in c.args(E, k) if has_field(a, "new_learnt") or a[0] in ("var", "call") and "Vec" in str(a)}
    new = c.calls(E, "ClauseDB.new_clause", "AssignStack.assign_at_root_level")
    untouched(c, E, R, mg, new, lambda t: norm(t) in vecs or has_field(t, "new_learnt"), "eliminate_var")


def values(F, t):
    """t and what a local may hold, results of calls included"""
    out = [t] + [x for x, _ in alternatives(F, t)]
    if t[0] == "var":
        out += [F.call_term(d) for d in F.defs.get(t[1], ()) if d.kind == "call" and d.id in F.at]
    return out


def same_list(a, b):
    if a == b:
        return True
    return a[0] == "call" and b[0] == "call" and len(a) > 3 and len(b) > 3 and call_node(a) is not None and call_node(a) == call_node(b)


def untouched(c, F, rule, made, used, is_list, key):
    ed = [k for k in c.calls(F, *EDIT) if is_list(c.args(F, k)[0])]
    for k in ed:
        for m in made:
            p = F.path_after(m, lambda i: F.pn[i] == k, lambda i: F.pn[i] in made)
            if p is None:
                continue
            q = F.path_after(k, lambda i: F.pn[i] in used, lambda i: F.pn[i] in made)
            c.ob(rule, q is None, f"{c.where(F, k)}: literals of a derived clause are dropped before it is stored",
                 key + ":untouched", c.where(F, k), F.show(q) if q else None)


def dropping(c):
    """transform_by_elimination: one literal goes"""
    R = "one-literal"
    F = c.flat("ClauseDB.transform_by_elimination")
    me = [i for i, ty in enumerate(F.root.locals) if ty.endswith("Lit")]
    isp = lambda t: t[0] == "arg" and t[2] in me
    own = lambda t: has(t, lambda s: s[0] == "elem" or is_call(s, "next")) and not is_call(t, "vi")

    def drop(f, x):
        t, b = f
        return b and t[0] == "eq" and any(isp(p) and own(q) for p, q in ((t[1], t[2]), (t[2], t[1])))
    outs = [b for n in F.nodes if n.kind == "call" and n.id in F.at and last(n.data[0][0]) in ("swap", "replace", "take")
            for a in c.args(F, n.id) for b in values(F, a)]

    def dest(t):
        return t[0] == "call" and any(same_list(t, o) for o in outs)
    s = flows(c, F, R, dest, drop, "elimination", "a literal other than the one to be removed is dropped")
    c.floor(R, 1, len(s))
    # a clause of two literals leaves the other one
    unit = adt_nodes(c, F, "RefClause", "UnitClause")
    c.floor(R, 1, len(unit))
    swaps = [k for k in c.calls(F, "[T].swap", "Vec.swap") if has_field(c.args(F, k)[0], "lits") and
             {constval(x) for x in c.args(F, k)[1:]} == {0, 1}]

    def first(f):
        """the first literal is the one to be removed"""
        t, b = f
        if t[0] != "eq" or not any(isp(x) for x in t[1:]):
            return None
        y = t[2] if isp(t[1]) else t[1]
        if y[0] == "index" and constval(y[2]) in (0, 1) and has_field(y[1], "lits"):
            return b == (constval(y[2]) == 0)
        return None
    for u in unit:
        ops = F.nodes[u].data[1][2]
        for t, d in alternatives(F, F.term(ops[0])) if ops else ():
            if not (t[0] == "index" and has_field(t[1], "lits")):
                continue
            i = constval(t[2])
            if isinstance(i, int) and not isinstance(i, bool) and i in (0, 1) and t[2][0] == "const":
                for at in F.at.get(d if d is not None else u, ()):
                    for path in simple_paths(F, at, 60):
                        known, par = None, 0
                        for a, b_ in zip(path, path[1:]):
                            if F.pn[a] in swaps:
                                par ^= 1
                            e = next((e for j, e in F.ps[a] if j == b_), None)
                            if e is not None and par == 0:
                                for f in F.edge_facts(F.nodes[F.pn[a]], e):
                                    v = first(f)
                                    known = v if v is not None else known
                        c.ob(R, known is not None and known != ((i ^ par) == 0), f"{c.where(F, u)}: the literal kept may be the one "
                             "to be removed", "elimination:unit", c.where(F, u))
            else:
                x = t[2]
                n = 0
                while x[0] in ("cast", "un") or is_call(x, "from", "into"):
                    if x[0] == "un" and x[1] == "Not":
                        n += 1
                    x = x[2][0] if x[0] == "call" else x[-1] if x[0] == "cast" else x[2]
                for f in bool_fact(x, True):
                    v = first(f)
                    if v is not None:
                        c.ob(R, v == (n % 2 == 0), f"{c.where(F, u)}: keeps the literal to be removed", "elimination:unit", c.where(F, u))


def simple_paths(F, goal, limit):
    """backwards from goal to an entry, without loops"""
    if not hasattr(F, "_preds"):
        F._preds = {}
        for i, ss in enumerate(F.ps) if isinstance(F.ps, list) else F.ps.items():
            for j, _ in ss:
                F._preds.setdefault(j, []).append(i)
    out, st = [], [(goal, (goal,))]
    while st and len(out) < limit:
        x, path = st.pop()
        ps = [p for p in F._preds.get(x, ()) if p not in path]
        if not ps:
            out.append(path)
            continue
        for p in ps:
            st.append((p, (p,) + path))
    return out


ELIM = lambda f: f[1] and f[0][0] == "true" and has_name(f[0], "ELIMINATED")


def assigned_fact(f):
    """what a fact says about the value of the element: True, False, 'some' or 'none'"""
    t, b = f
    if lit_true((t, b)):
        return True
    if t[0] == "is" and has_call(t[1], "assigned") and t[2] in ("Some", "None"):
        return "some" if b == (t[2] == "Some") else "none"
    if t[0] == "true" and is_call(t[1], "is_some", "is_none") and has_call(t[1], "assigned"):
        return "some" if b == is_call(t[1], "is_some") else "none"
    if t[0] == "eq" and b and has_call(t, "assigned"):
        for y in t[1:]:
            if y[0] == "adt" and y[2] == "Some" and y[3]:
                v = constval(y[3][0][1])
                return bool(v) if v is not None else None
            if y[0] == "adt" and y[2] == "None":
                return "none"
    if t[0] == "true" and not b and t[1][0] == "field" and t[1][1][0] == "variant" and t[1][1][2] == "Some" and has_call(t[1], "assigned"):
        return False
    return None


def simplification(c):
    R = "root-values"
    F = c.flat("ClauseDB.transform_by_simplification")
    loose = []

    def drop(f, x):
        v = assigned_fact(f)
        neg = has(f[0], lambda s: is_call(s, "assigned") and any(NEGATED(a) for a in s[2]))
        if v is True and neg or v is False and not neg:
            return True
        if v == "some":
            loose.append(x)
            return True
        return ELIM(f)
    outs = [b for n in F.nodes if n.kind == "call" and n.id in F.at and last(n.data[0][0]) in ("swap", "replace")
            for a in c.args(F, n.id) for b in values(F, a)]
    dest = lambda t: t[0] == "call" and any(same_list(t, o) for o in outs)
    s = flows(c, F, R, dest, drop, "simplify", "a literal that is not false is dropped")
    c.floor(R, 1, len(s))
    # a true literal ends the treatment of the clause before literals are dropped
    made = [k for _, k in s]
    if loose:
        seen = []
        true = through(F, lambda f: assigned_fact(f) is True)
        for n in F.nodes:
            if n.kind != "switch" or n.id not in F.at:
                continue
            for i in F.at[n.id]:
                for j, e in F.ps[i]:
                    if e is None or not any(true(f) for f in F.pfacts(i, e)):
                        continue
                    seen.append(i)
                    p = F._find(j, lambda x: F.pn[x] in made, lambda x: False)
                    c.ob(R, p is None, f"{c.where(F, n.id)}: a clause with a true literal loses that literal", "simplify:true",
                         c.where(F, n.id), F.show(p) if p else None)
        c.ob(R, bool(seen), f"{F.root.where()}: literals are dropped without asking whether one is true", "simplify:asked", F.root.where())
        # the question is put to every literal
        for k in c.calls(F, "AssignStack.assigned", "AssignIF.assigned"):
            r = loop_around(F, k)
            if r is not None and not any(m in r[1] for m in made):
                c.no_early_exit(R, F, k, "asking whether a literal is true", "simplify:all", [lambda f: assigned_fact(f) is True])
    # what is reported as left over is what is left over
    for u in adt_nodes(c, F, "RefClause", "UnitClause"):
        ops = F.nodes[u].data[1][2]
        for t, d in alternatives(F, F.term(ops[0])) if ops else ():
            if t[0] == "index" and t[1][0] == "field" and t[1][2] == "lits":
                ws = [k for k in c.calls(F, "swap", "replace", "mem.swap") if any(has_field(a, "lits") for a in c.args(F, k))]
                c.before(R, F, ws, [u], "the shortened list being put in place", "simplify:unit")


def strengthening(c):
    R = "strengthening"
    F = c.flat("Eliminator.try_subsume")
    st = c.calls(F, "strengthen_clause")
    c.floor(R, 1, len(st))
    by = lambda t: has(t, lambda s: s[0] == "variant" and s[2] == "By")
    for k in st:
        for t, d in alternatives(F, c.args(F, k)[-1]):
            n = 0
            x = strip(t)
            while is_call(x, "not") or x[0] == "un" and x[1] == "Not":
                x, n = (x[2][0] if x[0] == "call" else x[2]), n + 1
            if by(t) or not d:
                c.ob(R, n % 2 == 1 and by(t), f"{c.where(F, k)}: removes {tstr(t)[:60]}", "which", c.where(F, k))
            else:
                c.ob(R, n % 2 == 1, f"{c.where(F, k)}: removes {tstr(t)[:60]}", "which", c.where(F, k))
    H = c.flat("have_subsuming_lit")
    mk = adt_nodes(c, H, "Subsumable", "By")
    unit = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "is_lifted_lit")

    def clash(f):
        t, b = f
        if not b:
            return False
        if t[0] == "true" and is_call(t[1], "contains", "any"):
            y = t[1][2][1]
            if y[0] == "closure":
                return c.closure_implies(y[1], lambda g: g[1] and g[0][0] == "eq" and NEGATED(g[0]) and not has_call(g[0], "vi"))
            return NEGATED(y)
        return t[0] == "eq" and NEGATED(t) and not has_call(t, "vi")
    c.only_if(R, H, mk, unit, "the first clause being a single literal", "lifted")
    c.only_if(R, H, mk, through(H, clash), "the second clause containing its complement", "complement")
    # single literals come from the trail as they are
    k = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in ("From",):
            continue
        if not any(fn and "ClauseId.from" in c.prog.callkeys(fn, b.crate) for fn in (op_fn(t[2]) for _, t in body_calls(b))):
            continue
        G = c.flat(b)
        for x in c.calls(G, "ClauseId.from"):
            t = c.args(G, x)[0]
            if not has_call(t, "stack", "stack_iter"):
                continue
            k += 1
            c.ob(R, not NEGATED(t), f"{c.where(G, x)}: the complement of a true literal is used as a clause", "lifted-sign", c.where(G, x))
    c.floor(R, 1, k)


def binary_minimisation(c):
    R = "binary"
    F = c.flat("ClauseDB.minimize_with_bi_clauses")
    isvec = lambda t: t[0] == "arg" and len(t) > 2 and "Vec<" in F.root.locals[t[2]]
    front = lambda t: t[0] == "index" and isvec(t[1]) and constval(t[2]) == 0 or is_call(t, "lit0", "first") and isvec(t[2][0])
    lk = c.calls(F, "BinaryLinkDB.connect_with")
    for k in lk:
        t = strip(c.args(F, k)[1])
        c.ob(R, not NEGATED(t) and has(c.args(F, k)[1], front), f"{c.where(F, k)}: looks at the binary clauses of {tstr(t)[:40]}",
             "links", c.where(F, k))
    # what is dropped
    rt = [k for k in c.calls(F, "Vec.retain", "Vec.retain_mut") if isvec(c.args(F, k)[0])]
    mark = lambda t: t[0] == "index" and has_field(t[1], "lbd_temp")
    notkey = lambda f: (not f[1]) == (f[0][0] == "eq") and f[0][0] in ("eq", "lt") and any(mark(x) for x in f[0][1:])
    notfront = lambda f: not f[1] and f[0][0] == "eq" and any(front(x) for x in f[0][1:])
    if not rt:
        return
    for k in rt:
        for w in result_ways(F, k, False) or ():
            c.ob(R, any(f[0][0] == "eq" and not f[1] and any(mark(x) for x in f[0][1:]) for f in w) and
                 not any(f[0][0] in ("eq", "lt") and has_call(f[0], "level") for f in w),
                 f"{c.where(F, k)}: a literal without its mark cleared is dropped", "retain", c.where(F, k))
    wr = []
    for n in F.nodes:
        if n.kind == "assign" and n.id in F.at and n.data[0][1] and mark(F.place_term(n.data[0])):
            wr.append((n.id, F.place_term(n.data[0]), F.rv_term(n.data[1], 0, (), n)))
    zero = lambda t: constval(t[2]) == 0 and t[2][0] == "const"
    fresh = [k for k, p, v in wr if zero(p)]
    marks = [(k, p, v) for k, p, v in wr if not zero(p) and mark(v) and zero(v)]
    clear = [(k, p, v) for k, p, v in wr if not zero(p) and not (mark(v) and zero(v))]
    c.floor(R, 1, len(marks))
    c.floor(R, 1, len(clear))
    all_ = [x for x in marks if loop_around(F, x[0])]
    for k, p, v in all_:
        c.each_iteration(R, F, [k], "marking the literal", "mark:each")
        c.no_early_exit(R, F, k, "the loop over the literals", "mark:all")
        for t in c.upstream(F, k):
            whole(c, F, R, t, k, "mark:whole", skip=1)
            break
        c.before(R, F, fresh, [k], "a fresh mark", "mark:fresh")
    c.ob(R, bool(all_), f"{F.root.where()}: the literals are not marked", "mark", F.root.where())
    true_ = lambda f: assigned_fact(f) is True
    for k, p, v in clear:
        c.only_if(R, F, [k], true_, "the other literal being true", "true")
        o = vi_of(p)
        if o is None:
            continue
        for t, d in alternatives(F, o):
            i = t[2] if t[0] == "index" else t[2][1] if is_call(t, "index") and len(t[2]) == 2 else None
            if i is None:
                continue
            for f in bool_fact(i, True):
                if f[0][0] != "eq":
                    continue
                x = [y for y in f[0][1:] if (is_call(y, "index") or y[0] == "index")]
                j = None
                for y in x:
                    z = y[2] if y[0] == "index" else y[2][1]
                    if not isvec(y[1] if y[0] == "index" else y[2][0]) and constval(z) in (0, 1):
                        j = constval(z)
                if j is not None:
                    # index 1 is taken when the comparison with literal j came out as f[1]
                    c.ob(R, (j == 0) == f[1], f"{c.where(F, k)}: takes the asserting literal for the other one", "other", c.where(F, k))
    # the asserting literal stays
    own = [k for k, p, v in marks if vi_of(p) is not None and front(vi_of(p))]
    keeps = all(any(notfront(f) for f in w) for k in rt for w in (result_ways(F, k, False) or ()))
    if not keeps:
        c.before(R, F, own, rt, "marking the asserting literal", "front")


def inner_loops(F, lp, note):
    """loops inside the loop lp in which literals are noted: they go through what was gathered before"""
    return {h for h, body in loops_of(F).items() if h != lp[0] and h in lp[1] and set(note) & set(body)}


def reasons_followed(c, F, R, note, key, excuses, fail=()):
    """each literal of a reason is noted: binary reasons and clauses"""
    for variant in ("BinaryLink", "Implication"):
        isv = lambda f: f[1] and f[0][0] == "is" and f[0][2] == variant and has_call(f[0][1], "reason")
        found = False
        for n in F.nodes:
            if n.kind != "switch" or n.id not in F.at:
                continue
            lp = loop_around(F, n.id)
            if lp is None:
                continue
            for i in F.at[n.id]:
                for j, e in F.ps[i]:
                    if e is None or not any(isv(f) for f in F.edge_facts(n, e)):
                        continue
                    found = True
                    if variant == "BinaryLink":
                        eo = c.edge_ok(F, list(excuses))
                        inner = inner_loops(F, lp, note)
                        p = F._find(j, lambda x: F.pn[x] == lp[0] or F.nodes[F.pn[x]].kind == "return" and False,
                                    lambda x: F.pn[x] in note or F.pn[x] in fail or F.pn[x] in inner, eo)
                        c.ob(R, p is None, f"{c.where(F, n.id)}: the other literal of a binary reason is passed over",
                             key + ":binary", c.where(F, n.id), F.show(p) if p else None)
        c.ob(R, found, f"{F.root.where()}: reasons of the form {variant} are not followed", key + ":" + variant, F.root.where())


def sandbox(c):
    R = "vivify-analysis"
    F = c.flat("AssignStack.analyze_sandbox")
    isseen = lambda t: t[0] == "index" and t[1][0] == "arg" and len(t[1]) > 2 and "usize" in F.root.locals[t[1][2]]
    wr = [(n.id, F.place_term(n.data[0])) for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and
          isseen(F.place_term(n.data[0]))]
    c.floor(R, 2, len(wr))
    inner = lambda k: loop_around(F, k) is not None or F.nodes[k].frame in F.frame_hof
    of_reason = {k for k, t in wr if has_call(t, "reason") or any(has_call(u, "reason") for u in c.upstream(F, k))}
    conf = [k for k, t in wr if k not in of_reason and inner(k)]
    c.ob(R, bool(conf), f"{F.root.where()}: the conflicting literals are not marked", "conflict", F.root.where())
    for k in conf:
        if loop_around(F, k):
            c.each_iteration(R, F, [k], "marking the literal", "conflict:each")
            c.no_early_exit(R, F, k, "the loop over the conflicting literals", "conflict:all")
        for t in c.upstream(F, k):
            whole(c, F, R, t, k, "conflict:whole")
    push = \
        [k for k in c.calls(F, "Vec.push") if not has_field(c.args(F, k)[0], "trail")]
    c.floor(R, 1, len(push))
    for k in push:
        t = strip(c.args(F, k)[1])
        n = 0
        while is_call(t, "not") or t[0] == "un" and t[1] == "Not":
            t, n = (t[2][0] if t[0] == "call" else t[2]), n + 1
        if has_call(t, "stack_iter", "stack") or has(t, lambda s: s[0] == "elem"):
            c.ob(R, n % 2 == 1, f"{c.where(F, k)}: puts the decision itself in the clause", "sign", c.where(F, k))
        lp = loop_around(F, k)
        if lp is None:
            continue
        c.no_early_exit(R, F, k, "the walk over the trail", "walk:all")
        rev = asc = False
        for t in c.upstream(F, k):
            calls = seq_sources(t)[0]
            revs = sum(last(x[1]) == "rev" for x in calls)
            rev = rev or revs % 2 == 1
            asc = asc or revs % 2 == 0
            for x in calls:
                nm = last(x[1])
                if nm in FEWER:
                    a = x[2][1] if len(x[2]) > 1 else None
                    ok = nm == "skip" and a is not None and (constval(a) == 0 or is_call(strip(a), "len_upto") and
                                                             (constval(strip(a)[2][1]) == 0 or has_call(strip(a)[2][1], "root_level")))
                    c.ob(R, ok, f"{c.where(F, k)}: part of the trail is not looked at ({nm})", "walk:whole", c.where(F, k))
            if calls:
                c.ob(R, revs % 2 == 1, f"{c.where(F, k)}: the trail is not walked backwards", "walk:back", c.where(F, k))
            break
    dec = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "contains", "any") and "decisions" in root_args(f[0][1]) or \
        f[1] and f[0][0] == "true" and is_call(f[0][1], "contains", "any") and has(f[0][1], lambda s: s[0] == "arg" and
                                                                                    len(s) > 2 and "Lit]" in F.root.locals[s[2]])
    lps = {loop_around(F, k)[0] for k in push if loop_around(F, k)}
    c.once_true(R, F, dec, push, lambda x: F.pn[x] in lps or F.nodes[F.pn[x]].kind == "return",
                "a decision the conflict depends on can be left out", "decision")
    unmarked = lambda f: f[0][0] == "eq" and not f[1] and any(isseen(x) for x in f[0][1:])
    asdec = lambda f: f[1] and f[0][0] == "is" and f[0][2] in ("Decision", "None") and has_call(f[0][1], "reason")
    # every marked literal is treated: nothing but a missing mark skips it
    notdec = lambda f: not f[1] and f[0][0] == "true" and is_call(f[0][1], "contains", "any")
    reas = c.calls(F, "AssignStack.reason", "reason")
    inside = [k for k in reas if loop_around(F, k)]
    if inside:
        c.each_iteration(R, F, inside, "following the reason", "walk:each", [unmarked])
    note = [k for k, t in wr if k in of_reason]
    reasons_followed(c, F, R, note, "reason", [])
    for k in note:
        t = F.place_term(F.nodes[k].data[0]) if F.nodes[k].kind == "assign" else None
        hs = [h for h in enclosing_loops(F, k)]
        if len(hs) >= 2:
            c.each_iteration(R, F, [k], "marking the literal of the reason", "reason:each")
            c.no_early_exit(R, F, k, "the loop over the literals of the reason", "reason:all")
        for u in c.upstream(F, k):
            if has_call(u, "reason"):
                whole(c, F, R, u, k, "reason:whole", skip=1)


def enclosing_loops(F, k):
    out, i = [], 0
    while True:
        r = loop_around(F, k, i)
        if not r:
            return out
        out.append(r)
        i += 1


def vivifying(c):
    R = "vivify"
    F = c.flat("ClauseDB.vivify")
    an = c.calls(F, "AssignStack.analyze_sandbox")
    c.floor(R, 1, len(an))
    # the list of decisions is the list of decisions
    dc = c.calls(F, "AssignStack.assign_by_decision")
    decs = {norm(c.args(F, k)[2]) for k in an if len(c.args(F, k)) > 2}
    push = [k for k in c.calls(F, "Vec.push", "Vec.insert") if norm(c.args(F, k)[0]) in decs]
    c.floor(R, 1, len(push))
    for k in push:
        c.ob(R, any(norm(c.args(F, k)[-1]) == norm(c.args(F, d)[-1]) for d in dc), f"{c.where(F, k)}: records "
             f"{tstr(c.args(F, k)[-1])[:40]} as a decision", "recorded", c.where(F, k))
    c.together(R, F, dc, push, "recording the decision", "decided", local=True)
    lists = {norm(c.args(F, k)[0]) for k in push}
    for k in an:
        a = c.args(F, k)
        if len(a) > 2:
            cut = [s for s in subterms(a[2]) if s and s[0] == "index" and norm(s[1]) in lists]
            c.ob(R, not cut, f"{c.where(F, k)}: only part of the decisions are given", "decisions-all", c.where(F, k))
            whole(c, F, R, a[2], k, "decisions-all")
    # fresh marks
    seens = {norm(c.args(F, k)[-1]) for k in an}
    wr = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and F.place_term(n.data[0])[0] == "index" and
          norm(F.place_term(n.data[0])[1]) in seens and constval(F.place_term(n.data[0])[2]) == 0]
    c.before(R, F, wr, an, "choosing a fresh mark", "fresh")
    for k in an:
        for m in an:
            p = F.path_after(k, lambda i: F.pn[i] == m, lambda i: F.pn[i] in wr)
            c.ob(R, p is None, f"{c.where(F, m)}: a conflict is analysed with the marks of another", "fresh-each", c.where(F, m),
                 F.show(p) if p else None)
    for t in seens:
        if is_call(t, "from_elem") and len(t[2]) == 2:
            v = constval(t[2][0])
            c.ob(R, v in (0, None), f"{F.root.where()}: marks start as {v}, the first mark in use", "fresh-zero", F.root.where())
    # both literals of a binary conflict, all of a clause
    for k in an:
        a = c.args(F, k)
        if len(a) < 4:
            continue
        for s in subterms(a[3]):
            if s and s[0] == "call":
                pass
        whole(c, F, R, a[3], k, "conflicting")
    for n in F.nodes:
        if n.kind == "assign" and n.id in F.at and n.data[1][0] == "agg" and n.data[1][1].get("k") == "array" and len(n.data[1][2]) == 2:
            ts = [F.term(x) for x in n.data[1][2]]
            bl = [has(t, lambda s: s[0] == "variant" and s[2] == "BinaryLink") for t in ts]
            if any(has_call(t, "propagate_sandbox") for t in ts):
                c.ob(R, sorted(bl) == [False, True], f"{c.where(F, n.id)}: a binary conflict is given as "
                     f"{[tstr(t)[-30:] for t in ts]}", "binary", c.where(F, n.id))
    # the result is used as it is
    new = c.calls(F, "ClauseDB.new_clause", "AssignStack.assign_at_root_level")
    res = {norm(F.call_term(F.nodes[k])) for k in an}
    got = lambda t: norm(t) in res or any(norm(a) in res for a, _ in alternatives(F, t))
    untouched(c, F, R, an, new, got, "vivify")


def minimising(c):
    R = "redundant"
    F = c.flat("minimize_learnt")
    isl = lambda t: t[0] == "arg" and len(t) > 2 and "Vec<" in F.root.locals[t[2]]
    red = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "is_redundant")
    for k in c.calls(F, "Vec.retain", "Vec.retain_mut"):
        if not isl(c.args(F, k)[0]):
            continue
        for w in result_ways(F, k, False) or ():
            c.ob(R, any(red(f) for f in w), f"{c.where(F, k)}: drops a literal that was not shown redundant", "retain", c.where(F, k))
    for k in c.calls(F, "Vec.pop", "Vec.truncate", "Vec.drain", "Vec.dedup", "Vec.split_off", "Vec.clear"):
        c.ob(R, not isl(c.args(F, k)[0]), f"{c.where(F, k)}: drops literals of the learnt clause", "edit", c.where(F, k))
    for k in c.calls(F, "Vec.swap_remove", "Vec.remove"):
        if isl(c.args(F, k)[0]):
            c.only_if(R, F, [k], red, "the literal being redundant", "remove")
    G = c.flat("Lit.is_redundant")
    on = [k for k in c.calls(G, "Var.turn_on", "Var.set") if has_name(c.args(G, k)[1], "CA_SEEN")]
    no = [n.id for n in G.nodes if n.kind == "assign" and n.id in G.at and n.data[0] == ((0, 0), ()) and
          n.data[1][0] == "use" and n.data[1][1][0] == "k" and n.data[1][1][1].get("v") in (0, False)]
    yes = [n.id for n in G.nodes if n.kind == "assign" and n.id in G.at and n.data[0] == ((0, 0), ()) and
           n.data[1][0] == "use" and n.data[1][1][0] == "k" and n.data[1][1][1].get("v") in (1, True)]
    c.floor(R, 1, len(on))
    seen = lambda f: f[1] and f[0][0] == "true" and has_name(f[0], "CA_SEEN")

    def root(f):
        t, b = f
        if t[0] == "eq" and b:
            return has_call(t, "level") and any(constval(x) == 0 or has_call(x, "root_level") for x in t[1:])
        if t[0] == "lt":
            x, y = t[1], t[2]
            return not b and constval(x) == 0 and has_call(y, "level") or b and has_call(x, "level") and constval(y) == 1 or \
                not b and has_call(x, "root_level") and is_call(y, "level")
        return False
    giveup = set(no)
    for h, body in loops_of(G).items():
        pass
    # giving up: from there no further literal is looked at
    reasons_followed(c, G, R, on, "redundant", [seen, root], giveup)
    for k in on:
        hs = enclosing_loops(G, k)
        if len(hs) >= 2:
            c.each_iteration(R, G, [k] + no, "following or refusing the literal", "each", [seen, root])
            c.no_early_exit(R, G, k, "the loop over the literals of the reason", "all",
                            [lambda f: False])if False else None
        for u in c.upstream(G, k):
            if has_call(u, "reason"):
                whole(c, G, R, u, k, "whole", skip=1)
        implied = lambda f: f[0][0] == "is" and has_call(f[0][1], "reason") and (
            f[1] and f[0][2] in ("Implication", "BinaryLink") or not f[1] and f[0][2] == "Decision")
        c.only_if(R, G, [k], implied, "the literal being implied itself", "implied")
        stk = [x for x in c.calls(G, "Vec.push") if c.args(G, x)[0][0] != "arg"]
        c.together(R, G, [k], stk, "looking at the literal's own reason", "pending", local=True)
    done = lambda f: (f[0][0] == "is" and is_call(f[0][1], "pop") and f[1] == (f[0][2] == "None")) or \
        (f[1] and f[0][0] == "true" and is_call(f[0][1], "is_empty"))
    c.only_if(R, G, yes, done, "no literal being left to look at", "done")
    dec = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Decision" and has_call(f[0][1], "reason")


def handed_on(c):
    R = "learnt"
    F = c.flat("handle_conflict")
    an = c.calls(F, "conflict_analyze")
    new = c.calls(F, "ClauseDB.new_clause", "AssignStack.assign_at_root_level")
    untouched(c, F, R, an, new, lambda t: has_field(t, "new_learnt"), "handle_conflict")
    # the reason that is one binary clause is looked at like any other
    G = c.flat("conflict_analyze")
    on = [k for k in c.calls(G, "Var.turn_on", "Var.set") if has_name(c.args(G, k)[1], "CA_SEEN")]
    seen = lambda f: f[1] and f[0][0] == "true" and has_name(f[0], "CA_SEEN")
    root = lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "level") and any(has_call(x, "root_level") or constval(x) == 0 for x in f[0][1:])
    n = 0
    for s in G.nodes:
        if s.kind != "switch" or s.id not in G.at:
            continue
        lp = loop_around(G, s.id)
        if lp is None:
            continue
        for i in G.at[s.id]:
            for j, e in G.ps[i]:
                if e is None or not any(f[1] and f[0][0] == "is" and f[0][2] == "BinaryLink" for f in G.edge_facts(s, e)):
                    continue
                n += 1
                inner = inner_loops(G, lp, on)
                p = G._find(j, lambda x: G.pn[x] == lp[0] or G.nodes[G.pn[x]].kind == "return", lambda x: G.pn[x] in on or G.pn[x] in inner,
                            c.edge_ok(G, [seen, root]))
                c.ob(R, p is None, f"{c.where(G, s.id)}: the other literal of a binary reason is passed over", "binary", c.where(G, s.id),
                     G.show(p) if p else None)
    c.floor(R, 1, n)


def parity(t):
    """the literal a term is made of, and whether it is negated"""
    neg = False
    while t:
        if is_call(t, "not", "negate") and len(t[2]) == 1 or t[0] == "un" and t[1] == "Not":
            neg = not neg
            t = t[2][0] if t[0] == "call" else t[2]
        else:
            return t, neg
    return t, neg


def signs(c):
    """the literals of the learnt clause are those of the clauses walked through, and the negation of the literal at the end"""
    R = "signs"
    F = c.flat("conflict_analyze")
    link = lambda t: has(t, lambda s: s[0] == "variant" and s[2] == "BinaryLink")
    walk = lambda t: has(t, lambda s: s[0] == "elem" or is_call(s, "next"))
    n = 0
    for k in c.calls(F, "Vec.push"):
        a = c.args(F, k)
        if not has_field(a[0], "new_learnt"):
            continue
        for t, _ in alternatives(F, a[1]) or [(a[1], None)]:
            u, neg = parity(t)
            if u[0] == "call" and last(u[1]) != "next" or u[0] == "const":
                continue
            n += 1
            if link(u) and not walk(u):
                c.ob(R, neg, f"{c.where(F, k)}: the literal linked to by a binary clause is kept instead of its negation", "binary", c.where(F, k))
            elif walk(u) or u[0] == "var" or u[0] == "field":
                c.ob(R, not neg, f"{c.where(F, k)}: a literal of a clause is kept negated", "clause", c.where(F, k))
    for x in F.nodes:
        if x.kind != "assign" or x.id not in F.at or not x.data[0][1]:
            continue
        pl = F.place_term(x.data[0])
        if pl[0] == "index" and has_field(pl[1], "new_learnt"):
            t = F.rv_term(x.data[1], 0, (), x)
            u, neg = parity(t)
            if u[0] == "var" or is_call(u, "stack"):
                n += 1
                c.ob(R, neg, f"{c.where(F, x.id)}: the asserted literal is the one that led to the conflict", "asserting", c.where(F, x.id))
    c.floor(R, 1, n)


def stored(c):
    """a clause is stored as it was given"""
    R = "stored"
    F = c.flat("ClauseDB.new_clause")
    mine = lambda t: t[0] == "arg" and len(t) > 2 and "Vec<" in F.root.locals[t[2]]
    lits = lambda t: mine(t) or has_field(t, "lits")
    part = lambda t: has(t, lambda s: s[0] == "index" and mine(s[1]) and s[2][0] == "adt" and not s[2][1].endswith("RangeFull"))
    k0 = 0
    for n in F.nodes:
        if n.kind != "call" or n.id not in F.at or not n.data[1]:
            continue
        nm = last(n.data[0][0])
        a = c.args(F, n.id)
        if nm in ("pop", "truncate", "remove", "swap_remove", "dedup", "dedup_by_key", "dedup_by", "split_off", "retain", "retain_mut"):
            c.ob(R, not lits(a[0]), f"{c.where(F, n.id)}: literals of a new clause are dropped ({nm})", "edit", c.where(F, n.id))
        elif nm in ("swap", "replace", "append", "extend", "extend_from_slice", "take", "clone_from", "clone", "to_vec", "drain") and \
                any(mine(x) or has(x, mine) for x in a):
            k0 += 1
            for x in a:
                c.ob(R, not part(x) or not (nm == "drain" or has_field(a[0], "lits")),
                     f"{c.where(F, n.id)}: only a part of a new clause is stored", "part", c.where(F, n.id))
                if has_field(a[0], "lits"):
                    whole(c, F, R, x, n.id, "whole")
    c.floor(R, 1, k0)
