"""P09 invalid literals, P10 loading a CNF file, P27 the CNF utility."""
from rules import *
from registry import prop
from props_answers import adt_nodes
from props_assign import is_arg, has_arg, alternatives, mentions, unc

MIN, MAX, N = -(1 << 31), (1 << 31) - 1, 10
BAD = [("zero", 0), ("the most negative integer", MIN), ("a literal beyond the variables", N + 1),
       ("a negative literal beyond the variables", -N - 1), ("the largest integer", MAX)]
GOOD = [("1", 1), ("-1", -1), ("the last variable", N), ("the last variable's negation", -N)]


BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


class Overflow(Exception):
    pass


def ev(t, x, v, n=N):
    """value of an integer term when the term x has the value v and there are n variables; None if unknown"""
    t = unc(t)
    if strip(t) == x:
        return v
    k = t[0]
    if k == "const":
        return t[1] if isinstance(t[1], int) and not isinstance(t[1], bool) else None
    if k == "cast":
        return ev(t[3], x, v, n)
    if k == "field" and t[2] in ("num_vars", "num_of_variables"):
        return n
    if k == "field" and t[2] == "0" and t[1][0] == "bin":
        return ev(t[1], x, v, n)
    if k == "un" and t[1] == "Neg":
        a = ev(t[2], x, v, n)
        if a == MIN:
            raise Overflow("-x")
        return None if a is None else -a
    if k == "bin":
        a, b = ev(t[2], x, v, n), ev(t[3], x, v, n)
        if a is None or b is None:
            return None
        o = t[1]
        if o.startswith("Add"):
            return a + b
        if o.startswith("Sub"):
            return a - b
        if o.startswith("Mul"):
            return a * b
        return None
    if k == "call" and len(t[2]) == 1:
        a = ev(t[2][0], x, v, n)
        if a is None:
            return None
        nm = last(t[1])
        if nm in ("unsigned_abs",):
            return abs(a)
        if nm == "wrapping_abs":
            return (1 << 64) + MIN if a == MIN else abs(a)
        if nm == "abs":
            if a == MIN and not t[1].startswith(("i64", "i128", "isize")):
                raise Overflow("abs")
            return abs(a)
        if nm == "signum":
            return (a > 0) - (a < 0)
        if nm in ("from", "into", "clone", "deref", "to_owned", "borrow", "as_ref"):
            return a
    if k == "call" and last(t[1]) == "num_vars":
        return n
    if k == "call" and len(t[2]) == 2 and last(t[1]) in ("abs_diff", "max", "min"):
        a, b = ev(t[2][0], x, v, n), ev(t[2][1], x, v, n)
        if a is None or b is None:
            return None
        return {"abs_diff": abs(a - b), "max": max(a, b), "min": min(a, b)}[last(t[1])]
    return None


def truth(f, x, v, n=N):
    """whether a fact can hold when x has the value v; None if that cannot be told"""
    t, pol = f
    r = None
    if t[0] in ("eq", "lt"):
        a, b = ev(t[1], x, v, n), ev(t[2], x, v, n)
        if a is not None and b is not None:
            r = a == b if t[0] == "eq" else a < b
    elif t[0] == "true":
        u = t[1]
        if u[0] == "call" and len(u[2]) == 1 and last(u[1]) in ("is_positive", "is_negative"):
            a = ev(u[2][0], x, v, n)
            if a is not None:
                r = a > 0 if last(u[1]) == "is_positive" else a < 0
        elif is_call(u, "contains") and len(u[2]) == 2:
            a = ev(u[2][1], x, v, n)
            lo = hi = None
            for s in subterms(u[2][0]):
                if s and s[0] == "adt" and s[1].endswith("Range") and len(s[3]) == 2:
                    lo, hi = ev(s[3][0][1], x, v, n), ev(s[3][1][1], x, v, n)
                    hi = hi - 1 if hi is not None else None
                elif s and is_call(s, "RangeInclusive.new") and len(s[2]) == 2:
                    lo, hi = ev(s[2][0], x, v, n), ev(s[2][1], x, v, n)
            if None not in (a, lo, hi):
                r = lo <= a <= hi
    return None if r is None else r == pol


class Pruned:
    """the part of the flat graph that can be reached while x has the value v"""

    def __init__(self, F, x, v, n=N):
        self.F, self.x, self.v, self.n = F, strip(x), v, n
        self.over = None
        self.memo = {}

    def edge(self, i, j, e):
        n = self.F.nodes[self.F.pn[i]]
        if e is None or n.kind != "switch":
            return True
        k = (i, e)
        if k not in self.memo:
            ok = True
            for f in self.F.pfacts(i, e):
                try:
                    if truth(f, self.x, self.v, self.n) is False:
                        ok = False
                        break
                except Overflow as o:
                    self.over = (n.id, str(o))
            self.memo[k] = ok
        return self.memo[k]


def conversions(c, F):
    """nodes that turn an i32 into a literal"""
    out = []
    for k in c.calls(F, "Lit.from", "From.from", "Into.into"):
        n = F.nodes[k]
        if n.data[3] is None:
            continue
        x = F.prog.resolve(n.data[3], n.body.crate)
        if x is not None and x.locals[1] == "i32" and "Lit.from" in x.keys:
            out.append(k)
    return out


ITER = ("iter", "into_iter", "as_ref", "deref", "copied", "cloned", "by_ref", "iter_mut", "as_slice", "borrow", "enumerate")


def collection(t):
    """what an iterator expression iterates over"""
    t = strip(t)
    while t[0] == "call" and t[2] and last(t[1]) in ITER:
        t = t[2][0]
    return t


def element_of(F, t):
    """(collection, iterator call node or None) of a loop element or a closure parameter"""
    t0 = t
    while t0[0] in ("field", "variant", "deref") or is_call(t0, "deref", "clone"):
        t0 = t0[2][0] if t0[0] == "call" else t0[1]
    if t0[0] == "elem":
        n = F.nodes[t0[1]]
        return collection(F.term(n.data[1][0])), n.id
    if is_call(t0, "next", "next_back"):
        return collection(t0[2][0]), None
    return None


USES = ("ClauseDB.certificate_add_assertion", "AssignStack.assign_at_root_level", "Solver.add_unchecked_clause",
        "ClauseDB.new_clause", "PropagateIF.assign_at_root_level", "ClauseDBIF.new_clause",
        "ClauseDBIF.certificate_add_assertion")


def start_of(F, t):
    """product nodes at which the value t has just been obtained: the entry for an argument"""
    t0 = t
    nid = None
    for s in subterms(t):
        if s and s[0] == "call" and len(s) > 3 and last(s[1]) in ("next", "parse", "next_back", "from_str", "from_str_radix"):
            nid = s[3]
            break
    if nid is None:
        return None
    ids = [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and F.call_term(n) == s]
    return ids


def is_err(F, p):
    return (F.pval[p].get((0, 0)) or "??")[1] == "Err"


def checks_class(c, F, starts, x, v, ends):
    """a path on which the value v is not refused: None if all paths return an error"""
    P = Pruned(F, x, v)
    goal = lambda p: (F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)) or F.pn[p] in ends
    for i in starts:
        r = F._find(i, goal, lambda p: False, P.edge)
        if r is not None:
            return [i] + r, P
    return None, P


def some_edges(F, ids, x, v):
    P = Pruned(F, x, v)
    out = []
    for k in ids:
        for i in F.at.get(k, []):
            out += [j for j, e in F.ps[i]]
    return out


@prop("P09", "guarded value flow with case analysis over the classes of an integer relative to the number of variables",
      "Every place where an integer becomes a literal is found by its type; each class of invalid integers is followed through "
      "the comparisons on the way. That deeper code rejects nothing else is not part of this property.")
def p09(c):
    known = {}
    total = 0
    for b in list(c.prog.bodies.values()):
        if b.crate != "splr.lib" or b.kind == "closure" or not c.is_known(b):
            continue
        if not any_conv(c, b):
            continue
        F = c.flat(b)
        ks = conversions(c, F)
        if not ks:
            continue
        known[b.key] = F
        inv = adt_nodes(c, F, "SolverError", "InvalidLiteral")
        for k in ks:
            total += 1
            entry_point(c, F, k, inv)
    for fn in ("Solver.add_assignment", "Solver.add_clause", "Solver.inject", "Solver.inject_from_vec", "Solver.inject_assignment"):
        c.ob("converts", fn in known or handed_on(c, fn, known), f"{fn} does not turn integers into literals itself or through a helper", "entry:" + fn,
             c.fn(fn).where())
    c.floor("guarded", 1, total)
    describe(c)
    for fn in ("Solver.add_assignment", "Solver.add_clause", "Solver.inject", "Solver.inject_from_vec", "Solver.inject_assignment",
               "CNFDescription.from"):
        F = c.flat(fn)
        for k in c.calls(F, "i32.abs", "abs"):
            a = c.args(F, k)
            ok = not F.nodes[k].data[0][0].startswith(("i32", "isize"))
            c.ob("overflow", ok, f"{c.where(F, k)}: the absolute value of the most negative integer overflows", "abs:" + fn,
                 c.where(F, k))
    # the vector interface hands an invalid literal back to its caller
    for fn in [b for b in c.prog.bodies.values() if b.crate == "splr.lib" and b.key in ("Solver.try_from", "Certificate.try_from")]:
        F = c.flat(fn)
        for s in c.calls(F, "Solver.inject_from_vec", "Solver.build", "Solver.try_from", "Result.map_err"):
            pass


def handed_on(c, fn, known):
    """fn gives the integers it received to one of the functions that convert them"""
    F = c.flat(fn)
    return any(len(c.args(F, k)) > 1 and has(c.args(F, k)[1], lambda s: s[0] in ("arg", "elem", "field") or is_call(s, "next"))
               for o in known for k in c.calls(F, o))


def any_conv(c, b, depth=0, seen=None):
    """b, a closure in it or an unknown helper it calls converts an i32"""
    seen = set() if seen is None else seen
    if b.uid in seen or depth > 6:
        return False
    seen.add(b.uid)
    for bi, t in body_calls(b):
        for op in [t[2]] + list(t[3]):
            fn = op_fn(op)
            if fn is None:
                continue
            x = c.prog.resolve(fn, b.crate)
            if x is None:
                continue
            if "Lit.from" in x.keys and x.locals[1] == "i32":
                return True
            if not c.is_known(x) and x.kind != "closure" and any_conv(c, x, depth + 1, seen):
                return True
    return any(any_conv(c, y, depth + 1, seen) for y in c.prog.closures.get(b.uid, []))


def entry_point(c, F, k, inv):
    key = F.root.key
    x = c.args(F, k)[0]
    w = c.where(F, k)
    el = element_of(F, x)
    uses = set(c.calls(F, *USES)) | {k}
    # how the value is refused: directly before the conversion, or by a loop over all values beforehand
    for name, v in BAD:
        P = Pruned(F, x, v)
        p = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: False, P.edge)
        if p is None:
            over = P.over
            if over and v == MIN:
                c.ob("overflow", False, f"{c.where(F, over[0])}: {over[1]} of the most negative integer overflows", f"{key}:overflow",
                     c.where(F, over[0]))
            c.ob("guarded", True, "", key, w)
            if not (has_call(x, "parse") and v == 0):
                refused(c, F, x, v, name, inv, uses, key, w)
            continue
        ok, why = pre_checked(c, F, k, el, v, inv, uses)
        c.ob("guarded", ok, f"{w}: {name} is turned into a literal" + (f" ({why})" if why else ""), f"{key}:{name.replace(' ', '-')}", w,
             F.show(p))
    for name, v in GOOD:
        P = Pruned(F, x, v)
        p = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: False, P.edge)
        c.ob("accepted", p is not None, f"{w}: a valid literal ({name}) is refused", f"{key}:accept", w)


def refused(c, F, x, v, name, inv, uses, key, w):
    """from the point where the invalid value is known every path returns InvalidLiteral without using it"""
    ids = start_of(F, x)
    el = next((s for s in subterms(x) if s and s[0] == "elem"), None)
    heads, again = set(), set()
    if ids is None and el is not None:
        # a closure that a library function calls for each element
        first = [m.id for m in F.nodes if m.id in F.at and m.kind == "assign" and m.data[1] == ("use", ("elem", tuple(el[1:])))]
        starts = [j for m in first for j in F.at[m]]
        again = {q for m in first for q in F.hofs_of(m)}
    elif ids is None:
        starts = [F.pstart] if isinstance(F.pstart, int) else list(F.pstart)
    else:
        starts = some_edges(F, ids, x, v)
        heads = set(ids)
    # the next element is asked for
    next_ = lambda p: F.pn[p] in heads or F.pn[p] in again and any(F.pn[j] == F.nodes[F.pn[p]].succ[0][0] for j, _ in F.ps[p])
    # only iterations that deliver an element
    P = Pruned(F, x, v)
    isx = strip(x)
    src = [s for s in subterms(isx) if s and s[0] == "variant"]

    def edge(i, j, e):
        if not P.edge(i, j, e):
            return False
        n = F.nodes[F.pn[i]]
        if n.kind == "switch" and e is not None:
            for f in F.pfacts(i, e):
                if f[1] and f[0][0] == "is" and any(strip(f[0][1]) == s[1] and f[0][2] != s[2] for s in src):
                    return False
        return True
    goal = lambda p: (F.nodes[F.pn[p]].kind == "return") or next_(p) or F.pn[p] in uses
    for i in starts:
        r = F._find(i, goal, lambda p: F.pn[p] in inv, edge)
        if r is not None:
            c.ob("refused", False, f"{w}: {name} is not answered with an invalid-literal error first", f"{key}:{name.replace(' ', '-')}",
                 w, F.show(r))
            return
        # and the error is what is returned
        g2 = lambda p: F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)
        r = F._find(i, lambda p: g2(p) or F.pn[p] in uses or next_(p), lambda p: False, edge)
        if r is not None:
            c.ob("refused", False, f"{w}: {name} does not end in an error", f"{key}:{name.replace(' ', '-')}", w, F.show(r))
            return
    c.ob("refused", True, "", key, w)


def pre_checked(c, F, k, el, v, inv, uses):
    """an earlier complete loop over the same collection refuses v"""
    if el is None:
        return False, "no check on the way"
    coll, hof = el
    target = hof if hof is not None else k
    # loops
    for h, body in loops_of(F).items():
        for m in body:
            n = F.nodes[m]
            if n.kind != "call" or last(n.data[0][0]) not in ("next", "next_back") or not n.data[1]:
                continue
            if collection(F.term(n.data[1][0])) != coll or loop_around(F, m)[0] != h or k in body:
                continue
            x = ("field", ("variant", strip(F.call_term(n)), "Some"), "0")
            xs = {strip(s) for q in body for s in ([] if F.nodes[q].kind != "switch" else
                  [y for e in {e for _, e in F.nodes[q].succ if e is not None} for f in F.edge_facts(F.nodes[q], e) for y in subterms(f[0])])
                  if s and s[0] in ("field", "deref") and strip(s)[1:2] and strip(s)[0] == "field" and strip(s)[2] == "0" and
                  strip(s)[1][0] == "variant" and strip(s)[1][1] == strip(F.call_term(n))}
            x = next(iter(xs), x)
            P = Pruned(F, x, v)

            def some(i, j, e):
                if not P.edge(i, j, e):
                    return False
                q = F.nodes[F.pn[i]]
                if q.kind == "switch" and e is not None:
                    for f in F.pfacts(i, e):
                        if f[1] and f[0][0] == "is" and strip(f[0][1]) == strip(F.call_term(n)) and f[0][2] == "None":
                            return False
                return True
            hit = None
            for i in F.at[m]:
                hit = hit or F._find(i, lambda p: F.pn[p] == h and False or (F.pn[p] == m and p != i) or F.pn[p] in uses or
                                     (F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)), lambda p: False, some, skip_first=True)
                hit = hit or F._find(i, lambda p: F.nodes[F.pn[p]].kind == "return" or F.pn[p] == h and p != i,
                                     lambda p: F.pn[p] in inv, some, skip_first=True)
            if P.over:
                return False, f"{P.over[1]} overflows"
            if hit is not None:
                continue

            # the target is reached only by exhausting this loop
            def noexit(i, j, e):
                q = F.nodes[F.pn[i]]
                if q.kind == "switch" and e is not None:
                    for f in F.pfacts(i, e):
                        if f[1] and f[0][0] == "is" and strip(f[0][1]) == strip(F.call_term(n)) and f[0][2] == "None":
                            return False
                return True
            r = F._find(F.pstart, lambda p: F.pn[p] == target or F.pn[p] == k, lambda p: False, noexit)
            if r is None:
                return True, ""
            outer = loop_around(F, m, 1)
            if outer and target in outer[1]:
                r = F._find(list(F.at[outer[0]]), lambda p: F.pn[p] == target, lambda p: False, noexit)
                if r is None:
                    return True, ""
    # any / all / find over the collection
    for n in F.nodes:
        if n.kind != "call" or n.id not in F.at or last(n.data[0][0]) not in ("any", "all", "find", "position", "contains"):
            continue
        if last(n.data[0][0]) == "contains" or collection(F.term(n.data[1][0])) != coll:
            continue
        fr = [m for m in F.nodes if m.kind == "nop" and isinstance(m.data, tuple) and m.data[0] == "closure?" and m.id in F.at and
              any(("elem" in repr(a)) and (n.id, 1, 1) == a[1] for a in _elems(F, m))]
        nm = last(n.data[0][0])
        hold = nm in ("any", "find", "position")
        res, over = closure_value(F, n, v)
        if over:
            return False, f"{over} overflows"
        if res is None or res != {hold if nm != "all" else False}:
            continue
        t = F.call_term(n)
        fact = F_any(lambda f: f[0][0] == "true" and strip(f[0][1]) == strip(t) and f[1] == (nm == "all"),
                     lambda f: f[0][0] == "is" and f[1] and strip(f[0][1]) == strip(t) and f[0][2] == "None")
        # the edges on which the check passes; without them the conversion is out of reach
        r = F._find(F.pstart, lambda p: F.pn[p] == target or F.pn[p] == k, lambda p: False,
                    lambda i, j, e: not (e is not None and F.nodes[F.pn[i]].kind == "switch" and any(fact(f) for f in F.pfacts(i, e))))
        if r is None:
            return True, ""
    return False, "no check on the way"


def _elems(F, m):
    out = []
    st, seen = [m.id], set()
    while st:
        q = st.pop()
        if q in seen or len(seen) > 12:
            continue
        seen.add(q)
        nd = F.nodes[q]
        if nd.kind == "assign" and nd.data[1][0] == "use" and nd.data[1][1][0] == "elem":
            out.append(nd.data[1][1])
        st += [s for s, _ in nd.succ]
    return out


def closure_value(F, n, v):
    """the values a predicate closure of call n can return for an element v: set of booleans, or None"""
    fr = None
    el = ("elem",)
    for m in F.nodes:
        if m.kind == "assign" and m.data[1][0] == "use" and m.data[1][1][0] == "elem" and m.data[1][1][1][0] == n.id:
            fr = m.frame
            start = m.id
    if fr is None:
        return None, None
    x = strip(F.term(("elem", (n.id, 1, 1)))) if True else None
    P = Pruned(F, x, v)
    out = set()
    unknown = False

    def val(op, env):
        if op[0] == "k":
            w = op[1].get("v")
            return bool(w) if w in (0, 1, True, False) and w is not None else None
        if op[0] in ("c", "m") and not op[1][1] and op[1][0] in env:
            return env[op[1][0]]
        return facts(F.term(op)) if op[0] in ("c", "m") else None

    def facts(t):
        rs = [truth(f, x, v) for f in bool_fact(t, True)]
        return None if None in rs or not rs else all(rs)
    # walk the frame remembering the boolean values computed so far
    st = [(i, frozenset()) for i in F.at.get(start, [])]
    seen = set(st)
    while st:
        i, d = st.pop()
        nd = F.nodes[F.pn[i]]
        env = dict(d)
        try:
            if nd.kind == "assign" and not nd.data[0][1]:
                rv = nd.data[1]
                w = None
                if rv[0] == "use":
                    w = val(rv[1], env)
                elif rv[0] == "un" and rv[1] == "Not":
                    w = val(rv[2], env)
                    w = None if w is None else not w
                else:
                    w = facts(F.rv_term(rv, 0, (), nd))
                env.pop(nd.data[0][0], None)
                if w is not None:
                    env[nd.data[0][0]] = w
            elif nd.kind == "call" and nd.id != n.id and not nd.data[2][1]:
                env.pop(nd.data[2][0], None)
                w = facts(F.call_term(nd))
                if w is not None:
                    env[nd.data[2][0]] = w
        except Overflow as o:
            return None, str(o)
        if (nd.kind == "nop" and isinstance(nd.data, tuple) and nd.data[0] in ("closure?", "closure.") and nd.frame != fr) or nd.id == n.id:
            w = env.get((fr, 0))
            if w is None:
                unknown = True
            else:
                out.add(w)
            continue
        for j, e in F.ps[i]:
            if not P.edge(i, j, e):
                continue
            if e is not None and nd.kind == "switch" and nd.data[1] == "bool":
                w = val(nd.data[0], env)
                want = bool(e[1]) if e[0] == "eq" else (not bool(e[1][0]) if len(e[1]) == 1 else None)
                if w is not None and want is not None and w != want:
                    continue
            k2 = (j, frozenset(env.items()))
            if k2 not in seen:
                seen.add(k2)
                st.append(k2)
    if P.over:
        return None, P.over[1]
    return (None if unknown else out), None


def describe(c):
    """the description of a clause vector covers every variable used in it"""
    F = c.flat("CNFDescription.from")
    mx = c.calls(F, "Iterator.max", "Ord.max", "u32.max", "usize.max", "i32.max", "max", "Iterator.max_by_key", "Iterator.fold")
    c.ob("describe", bool(mx), f"{F.root.where()}: the number of variables is not the largest index", "max", F.root.where())
    for k in c.calls(F, "Iterator.skip", "Iterator.take", "Iterator.step_by", "Iterator.skip_while", "Iterator.take_while", "Iterator.nth"):
        c.ob("describe", False, f"{c.where(F, k)}: some literals are not considered", "skips", c.where(F, k))
    ab = c.calls(F, "i32.unsigned_abs", "i32.checked_abs", "i32.wrapping_abs", "i32.saturating_abs")
    c.ob("describe", bool(ab), f"{F.root.where()}: the index of a literal is not its absolute value", "abs", F.root.where())


# ------------------------------------------------------------------ reading a file
SKIPPERS = ("filter", "skip", "take", "take_while", "skip_while", "step_by", "filter_map", "map_while", "nth", "rev")
EOF = lambda f: (f[0][0] == "eq" and f[1] and has_call(f[0], "read_line") and 0 in (constval(f[0][1]), constval(f[0][2]))) or \
    (f[0][0] == "lt" and not f[1] and has_call(f[0], "read_line") and constval(f[0][1]) == 0)


def comment(f):
    t, b = f
    if t[0] == "true" and b and is_call(t[1], "starts_with") and len(t[1][2]) == 2:
        v = t[1][2][1]
        return constval(v) in (99, "c", "c ") or (v[0] == "const" and str(v[-1]) in ("99", "c"))
    if t[0] == "eq" and b:
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if has(y, lambda s: s[0] == "const" and s[-1] in ("c", 99)) and has_call(x, "next", "first", "get", "chars", "as_bytes"):
                return True
    return False


def blank(f):
    t, b = f
    if t[0] == "eq" and b:
        return any(constval(y) in ("\n", "\r\n", "") or (y[0] == "const" and y[-1] in ("\n", "\\n", "\r\n")) for y in t[1:])
    return t[0] == "true" and b and is_call(t[1], "is_empty") and not has(t[1], lambda s: is_call(s, "Vec.new"))


def vec_key(F, t):
    """identity of the vector a term denotes"""
    while is_call(t, "take", "replace") and t[2]:
        t = t[2][0]
    return t


def reading(c, F, rule, key, adders, ended=()):
    """the loop that reads clauses up to their zero"""
    adds = c.calls(F, *adders)
    parses = [k for k in c.calls(F, "str.parse", "from_str", "i32.from_str", "i32.from_str_radix") if loop_around(F, k)]
    pushes = [k for k in c.calls(F, "Vec.push", "Vec.extend", "Vec.insert") if has_call(c.args(F, k)[-1], "parse", "from_str", "from_str_radix")]
    src = {s[3] for k in pushes for s in subterms(c.args(F, k)[-1]) if s and is_call(s, "parse", "from_str", "from_str_radix") and len(s) > 3}
    parses = [k for k in parses if k in src] or parses
    c.ob(rule, bool(adds and parses and pushes), f"{F.root.where()}: literals are not collected and added clause by clause", key + ":reads",
         F.root.where())
    if not (adds and parses and pushes):
        return
    # the number read is not cut down to fewer bits
    for n in F.nodes:
        if n.kind != "assign" or n.id not in F.at or n.data[1][0] != "cast" or n.data[1][1] != "IntToInt":
            continue
        to, frm = n.data[1][3], n.data[1][4]
        if BITS.get(frm, 0) > BITS.get(to, 999):
            t = F.term(n.data[1][2])
            froms = {s[3] for s in subterms(t) if s and is_call(s, "parse", "from_str", "from_str_radix") and len(s) > 3}
            for s in subterms(t):
                if s and s[0] == "elem" and s[1] in F.at:
                    froms |= {u[3] for a in c.args(F, s[1]) for u in subterms(a) if u and is_call(u, "parse", "from_str") and len(u) > 3}
            if froms & set(parses):
                bound = any(f[0][0] == "lt" and has_call(f[0], "parse", "from_str") or f[0][0] == "true" and has_call(f[0], "contains")
                            for f in F.facts_at(n.id))
                c.ob(rule, bound, f"{c.where(F, n.id)}: the number read is cut down from {frm} to {to}", key + ":narrowed", c.where(F, n.id))
    vecs = {vec_key(F, c.args(F, k)[0]) for k in pushes}
    invec = lambda t: any(s in vecs for s in subterms(t) if s)
    locs = {v[1] for v in vecs if v[0] == "var"}
    # every token is read, in every line that is not a comment
    for k in parses:
        c.each_iteration(rule, F, [q for q in parses if loop_around(F, q) == loop_around(F, k)], "reading the token", key + ":each-token", [ERR])
        c.no_early_exit(rule, F, k, "reading the tokens of a line", key + ":all-tokens", [ERR, EOF])
        nx = [m for m in loop_around(F, k)[1] if F.nodes[m].kind == "call" and last(F.nodes[m].data[0][0]) == "next" and
              loop_around(F, m)[0] == loop_around(F, k)[0]]
        for m in nx:
            t = c.args(F, m)[0]
            c.ob(rule, not has_call(t, *SKIPPERS), f"{c.where(F, m)}: not every token of the line is read", key + ":tokens-skipped",
                 c.where(F, m))
    rl = [k for k in c.calls(F, "BufRead.read_line", "read_line") if loop_around(F, k)]
    for k in rl:
        h, body = loop_around(F, k)
        sp = [m for m in c.calls(F, "str.split_whitespace", "str.split_ascii_whitespace", "str.split") if m in body]
        c.each_iteration(rule, F, sp, "reading the line", key + ":each-line", [ERR, EOF, comment, blank])
        c.no_early_exit(rule, F, k, "reading the lines", key + ":all-lines", [ERR, EOF])
        c.once_true(rule, F, F_is("Err", "read_line"), [], lambda p: F.pn[p] == h or (F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)),
                    "a read failure is not an error", key + ":read-error")
    # a zero adds the clause, anything else is collected
    for k in pushes:
        t = c.args(F, k)[-1]
        conv = [s for s in subterms(t) if s and is_call(s, "Lit.from", "from", "into")]
        x = conv[0][2][0] if conv else t
        src = [s for s in subterms(x) if s and is_call(s, "parse", "from_str", "from_str_radix")]
        ids = [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and src and F.call_term(n) == src[0]]
        for name, v in [("a zero", 0)] + [g for g in GOOD]:
            P = Pruned(F, x, v)
            want = adds if v == 0 else pushes
            heads = {loop_around(F, i)[0] for i in ids if loop_around(F, i)}
            goal = lambda p: F.pn[p] in heads or (F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)) or \
                (F.pn[p] in adds and v != 0)
            for i in ids:
                r = F.path_after(i, goal, lambda p: F.pn[p] in want, P.edge)
                what = "adding the clause read so far" if v == 0 else "collecting it"
                c.ob(rule, r is None, f"{c.where(F, i)}: {name} is read without {what}", f"{key}:{'zero' if v == 0 else 'literal'}",
                     c.where(F, i), F.show(r) if r else None)
    # what is collected is added, and the next clause starts empty
    cut = {}
    for n in F.nodes:
        if n.id not in F.at:
            continue
        if n.kind == "call" and n.data[1] and last(n.data[0][0]) in ("clear", "take", "replace", "truncate", "drain", "pop", "retain",
                                                                     "remove", "swap_remove", "dedup") and invec(c.args(F, n.id)[0]):
            cut[n.id] = last(n.data[0][0])
        if n.kind == "assign" and not n.data[0][1] and n.data[0][0] in locs:
            cut[n.id] = "clear"
        if n.kind == "call" and n.data[2] and not n.data[2][1] and n.data[2][0] in locs:
            cut[n.id] = "clear"
    problem = {}

    def step(s, n):
        if n.id in cut and n.id not in adds:
            k = cut[n.id]
            if k in ("take", "replace", "drain"):
                return "T" if s in "DAE" else s
            if k == "clear":
                return {"D": "lost", "A": "E", "E": "E", "T": "E"}.get(s, s)
            return {"D": "lost"}.get(s, s)
        if n.id in adds:
            return {"D": "A", "E": "A", "A": "A", "T": "E"}.get(s, s)
        if n.id in pushes:
            return {"D": "D", "E": "D", "A": "mixed", "T": "D"}.get(s, s)
        return s

    def bad(s, n, i):
        if s in ("lost", "mixed"):
            problem["what"] = {"lost": "literals are thrown away before their clause is added",
                               "mixed": "a clause keeps the literals of the one before"}[s]
            return True
        if n.kind == "return" and not is_err(F, i) and s in ("D", "T"):
            problem["what"] = "the literals read last are not added"
            return True
        return False
    # the edge facts on emptiness depend on the state, so walk states and edges together
    p = walk(F, F.pstart, "E", step, bad, invec)
    c.ob(rule, p is None, f"{F.root.where()}: {problem.get('what')}", key + ":clause", F.root.where(), F.show(p) if p else None)
    # the number of literals collected is never cut for other reasons
    for k in adds:
        a = c.args(F, k)
        c.ob(rule, any(invec(x) for x in a[1:]), f"{c.where(F, k)}: adds something else than the collected literals", key + ":which",
             c.where(F, k))


def walk(F, start, init, step, bad, invec):
    prev = {}
    dq = deque()
    for s in ([start] if isinstance(start, int) else start):
        prev[(s, init)] = None
        dq.append((s, init))
    while dq:
        k = dq.popleft()
        i, st = k
        n = F.nodes[F.pn[i]]
        st2 = step(st, n)
        if bad(st2, n, i):
            path = []
            while k is not None:
                path.append(k[0])
                k = prev[k]
            return path[::-1]
        for j, e in F.ps[i]:
            if e is not None and n.kind == "switch":
                skip = False
                for f in F.pfacts(i, e):
                    if f[0][0] == "true" and is_call(f[0][1], "is_empty") and f[0][1][2] and invec(f[0][1][2][0]):
                        if f[1] and st2 == "D" or not f[1] and st2 == "E":
                            skip = True
                    if f[0][0] == "eq" and has_call(f[0], "len") and invec(f[0]) and 0 in (constval(f[0][1]), constval(f[0][2])):
                        if f[1] and st2 == "D" or not f[1] and st2 == "E":
                            skip = True
                    if f[0][0] == "lt" and constval(f[0][1]) == 0 and has_call(f[0][2], "len") and invec(f[0][2]):
                        if f[1] and st2 == "E" or not f[1] and st2 == "D":
                            skip = True
                    if f[0][0] == "lt" and constval(f[0][2]) == 1 and has_call(f[0][1], "len") and invec(f[0][1]):
                        if f[1] and st2 == "D" or not f[1] and st2 == "E":
                            skip = True
                if skip:
                    continue
            k2 = (j, st2)
            if k2 not in prev:
                prev[k2] = k
                dq.append(k2)
    return None


def failure(c, rule, F, k, msg, key, excuses=()):
    """once call k has failed every path ends in an error"""
    t = strip(F.call_term(F.nodes[k]))
    ok = F_any(F_is("Ok", pred=lambda u: strip(u) == t))
    h = loop_around(F, k)
    p = F.path_after(k, lambda p: (h is not None and F.pn[p] == h[0]) or (F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)),
                     lambda p: False, c.edge_ok(F, [ok] + list(excuses)))
    if p is not None and returned(F, k):
        p = None
    c.ob(rule, p is None, f"{c.where(F, k)}: {msg}", key, c.where(F, k), F.show(p) if p else None)


def returned(F, k):
    """the result of call k is what the function returns (possibly with its error mapped)"""
    from props_answers import result_uses
    kinds, final = result_uses(F, F.nodes[k].data[2][0])
    return "RET" in final and not loop_around(F, k)


ERR = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err" or \
    (f[1] and f[0][0] == "eq" and has_name(f[0], "EmptyClause"))


def in_bounds(F, n):
    """a constant position below a length tested on every path"""
    a = [F.term(x) for x in n.data[1]]
    k = constval(a[1]) if len(a) == 2 else None
    if not isinstance(k, int) or isinstance(k, bool):
        return False
    obj = strip(a[0])

    def enough(f):
        t, b = f
        if t[0] not in ("lt", "eq"):
            return False
        for x, y, left in ((t[1], t[2], True), (t[2], t[1], False)):
            m = constval(y)
            if not (is_call(x, "len") and x[2] and strip(x[2][0]) == obj and isinstance(m, int)):
                continue
            if t[0] == "eq":
                return b and k < m
            if left:                    # len < m is false
                return not b and k < m
            return b and k <= m         # m < len
        return False
    return F.guard_path(n.id, enough) is None


def quiet(c, F, rule, key, allow=()):
    """no call that panics on some input"""
    for n in F.nodes:
        if n.id not in F.at:
            continue
        if n.kind == "diverge":
            c.ob(rule, False, f"{n.body.file}:{n.line} ({n.body.key}): can panic ({n.data[0][0]})", f"{key}:panic", c.where(F, n.id))
        elif n.kind == "call" and last(n.data[0][0]) in ("unwrap", "expect", "unwrap_err", "index", "index_mut", "split_at", "remove",
                                                         "swap_remove", "unwrap_unchecked", "split_off", "drain", "copy_from_slice"):
            if any(p(F, n) for p in allow):
                continue
            if last(n.data[0][0]) in ("index", "index_mut") and in_bounds(F, n):
                continue
            t = strip(F.call_term(n))
            if n.data[0][0].startswith(("Vec", "[T]", "Option", "Result", "str", "String", "Index")) or "." not in n.data[0][0]:
                c.ob(rule, False, f"{n.body.file}:{n.line} ({n.body.key}): {n.data[0][0]} can panic on some input", f"{key}:panic",
                     c.where(F, n.id))
        elif n.kind == "assert" and "bounds" in str(n.data).lower():
            c.ob(rule, False, f"{n.body.file}:{n.line} ({n.body.key}): an index may be out of range", f"{key}:panic", c.where(F, n.id))
    c.ob(rule, True, "", key + ":panic", F.root.where())


def is_const_str(t, s):
    return has(t, lambda u: u[0] == "const" and u[-1] == s)


def header(c, F, rule, key, nodes, fields):
    """the description is made only from a complete header"""
    for tok in ("p", "cnf"):
        c.only_if(rule, F, nodes, lambda f: f[1] and f[0][0] == "eq" and is_const_str(f[0], tok) or
                  (f[1] and f[0][0] == "true" and is_call(f[0][1], "starts_with") and tok == "p" and is_const_str(f[0], "p cnf")) or
                  (f[1] and f[0][0] == "true" and is_call(f[0][1], "starts_with") and is_const_str(f[0], "p cnf")),
                  f"the header word '{tok}'", key + ":header-" + tok)


@prop("P10", "path automaton over the reading loops, value classes and effect rules over MIR",
      "The loaders are followed through every branch of every line and token. Exhaustion of memory by a header that declares "
      "very many variables is not part of this property.")
def p10(c):
    F = c.flat("Solver.inject")
    reading(c, F, "reads", "inject", ("Solver.add_unchecked_clause",))
    quiet(c, F, "no-panic", "inject")
    # the verdict on each clause is used
    for k in c.calls(F, "Solver.add_unchecked_clause"):
        t = F.call_term(F.nodes[k])
        fact = lambda f: f[1] and f[0][0] in ("eq", "is") and f[0][1] == t and (has_name(f[0], "EmptyClause") or f[0][2] == "EmptyClause")
        n = c.once_true("empty", F, fact, [], lambda p: (F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)) or F.pn[p] == k,
                        "an empty clause is not an error", "inject:empty")
        c.ob("empty", n > 0, f"{c.where(F, k)}: whether the clause is empty is not examined", "inject:examined", c.where(F, k))
    R = c.flat("CNFReader.try_from")
    quiet(c, R, "no-panic", "header")
    made = adt_nodes(c, R, "CNFReader", "CNFReader")
    c.floor("header", 1, len(made))
    header(c, R, "header", "header", made, ())
    counts(c, R, "header", "header")
    for k in c.calls(R, "BufRead.read_line"):
        c.once_true("header", R, F_is("Err", "read_line"), [],
                    lambda p: R.pn[p] == k or (R.nodes[R.pn[p]].kind == "return" and not is_err(R, p)),
                    "a read failure is not an error", "header:read-error")
    for k in c.calls(R, "File.open"):
        c.once_true("header", R, F_is("Err", "open"), [], lambda p: R.nodes[R.pn[p]].kind == "return" and not is_err(R, p),
                    "a file that cannot be opened is not an error", "header:open")
    # the header ends the reading: what follows belongs to the clauses
    reads = c.calls(R, "BufRead.read_line")
    for n in R.nodes:
        if n.kind != "assign" or n.id not in R.at or n.data[1][0] != "agg" or n.data[1][1].get("k") != "adt" or \
                short(n.data[1][1]["adt"]) != "CNFDescription":
            continue
        for f, op in zip(n.data[1][1]["fields"], n.data[1][2]):
            if f != "num_of_clauses":
                continue
            ds = {d for a, d in alternatives(R, R.term(op)) if d is not None and parsed(R, a)}
            for d in ds:
                for i in R.at.get(d, ()):
                    p = None
                    for k in reads:
                        for q in R.at[k]:
                            if p is None and R._find(i, lambda x: x == q, lambda x: R.pn[x] in ds, skip_first=True) is not None:
                                p = R._find(q, lambda x: R.pn[x] == n.id, lambda x: R.pn[x] in ds)
                    c.ob("header", p is None, f"{c.where(R, d)}: lines after the header are read as part of it", "header:over", c.where(R, d),
                         R.show(p) if p else None)
    unchecked(c)


def counts(c, F, rule, key):
    """the declared numbers: each parsed, the variables no more than literals can name"""
    for field in ("num_of_variables", "num_of_clauses"):
        for n in F.nodes:
            if n.kind != "assign" or n.id not in F.at or n.data[1][0] != "agg" or n.data[1][1].get("k") != "adt" or \
                    short(n.data[1][1]["adt"]) != "CNFDescription":
                continue
            i = n.data[1][1]["fields"].index(field)
            op = n.data[1][2][i]
            t = F.term(op)
            alts = alternatives(F, t)
            real = [(a, d) for a, d in alts if parsed(F, a)]
            c.ob(rule, bool(real), f"{c.where(F, n.id)}: {field} is not read from the header", key + ":" + field, c.where(F, n.id))
            # once parsed, the number is not replaced by a constant
            todo, seen = [t], set()
            while todo:
                u = todo.pop()
                if u in seen:
                    continue
                seen.add(u)
                ds = [d for _, d in alternatives(F, u) if d is not None]
                for a, d in alternatives(F, u):
                    if a[0] == "var":
                        todo.append(a)
                    elif d is not None and a[0] == "const" and len(ds) > 1:
                        from_ = [q for q in parsed(F, t) if c.reaches(F, q, d)]
                        p = F.path_after(d, lambda i: F.pn[i] == n.id, lambda i: F.pn[i] in ds or F.pn[i] in parsed(F, t)) if from_ else None
                        c.ob(rule, p is None, f"{c.where(F, d)}: {field} is {tstr(a)[:20]} whatever the header says", key + ":" + field + ":kept",
                             c.where(F, d), F.show(p) if p else None)
            if field == "num_of_variables" and real:
                ids = set().union(*[parsed(F, a) for a, d in real])
                cand = bounded(F, ids)
                if any(narrow(c, F, i) for i in ids):
                    continue
                for name, v, ok in (("i32::MAX variables", MAX, True), ("more than i32::MAX variables", MAX + 1, False),
                                    ("2^40 variables", 1 << 40, False)):
                    r = []
                    for x in cand:
                        P = Pruned(F, x, v, None)
                        r.append(F._find(F.pstart, lambda i: F.pn[i] == n.id, lambda i: False, P.edge) is not None)
                    reached = all(r) and not kept_out(c, F, ids, v)
                    c.ob(rule, reached == ok, f"{c.where(F, n.id)}: a header with {name} is " +
                         ("refused" if ok else "accepted, although literals cannot name them"), key + ":range", c.where(F, n.id))
    # the two numbers are different tokens in the right order
    order = {}
    for n in F.nodes:
        if n.kind == "assign" and n.id in F.at and n.data[1][0] == "agg" and n.data[1][1].get("k") == "adt" and \
                short(n.data[1][1]["adt"]) == "CNFDescription":
            for f, op in zip(n.data[1][1]["fields"], n.data[1][2]):
                ids = parsed(F, F.term(op))
                if len(ids) == 1:
                    order[f] = next(iter(ids))
    if len(order) >= 2 and {"num_of_variables", "num_of_clauses"} <= set(order):
        a, b = order["num_of_variables"], order["num_of_clauses"]
        c.ob(rule, a != b and c.reaches(F, a, b), f"{F.root.where()}: the numbers of variables and clauses are exchanged",
             key + ":order", F.root.where())


def parsed(F, t, seen=None, depth=0):
    """the parsing calls a value may come from, through variables, tuples and closures"""
    seen = set() if seen is None else seen
    out = set()
    if depth > 12:
        return out
    for s in subterms(t):
        if not s:
            continue
        if is_call(s, "parse", "from_str", "from_str_radix") and len(s) > 3 and isinstance(s[3], int):
            out.add(s[3])
        elif s[0] == "closure":
            for n in F.nodes:
                if n.kind == "call" and n.id in F.at and n.body.uid == s[1] and last(n.data[0][0]) in ("parse", "from_str"):
                    out.add(n.id)
        elif s[0] == "field" and s[1][0] in ("tuple",):
            continue
        elif s[0] == "var" and len(s) > 2 and s[1] not in seen:
            path = _path(t, s)
            seen.add(s[1])
            for d in F.defs.get(s[1], []):
                if d.id in F.at:
                    u = F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d)
                    out |= parsed(F, _pick(u, path), seen, depth + 1)
            seen.discard(s[1])
    return out


def _path(t, s):
    """the projections applied to the subterm s in t: [(kind, name)] outermost last; [] if not a pure projection"""
    out = []
    u = t
    while isinstance(u, tuple) and u != s and u[0] in ("field", "variant"):
        out.append((u[0], u[2]))
        u = u[1]
    return out[::-1] if u == s else []


def _pick(u, path):
    for k, name in path:
        if u[0] == "adt" and k == "variant":
            if u[2] != name:
                return ("none",)
            continue
        if u[0] == "adt" and k == "field":
            u = dict(u[3]).get(name, u)
        elif u[0] == "tuple" and k == "field" and str(name).isdigit() and int(name) < len(u[1]):
            u = u[1][int(name)]
        else:
            u = (k, u, name)
    return u


def bounded(F, ids):
    """the values parsed by one of the calls that are compared with a large constant"""
    out = []
    for n in F.nodes:
        if n.kind != "switch" or n.id not in F.at:
            continue
        for e in {e for _, e in n.succ if e is not None}:
            for f in {f for i in F.at[n.id] for f in F.pfacts(i, e)}:
                if f[0][0] in ("lt", "eq"):
                    for x, y in ((f[0][1], f[0][2]), (f[0][2], f[0][1])):
                        k = ev(y, ("none",), 0, None)
                        if k is not None and k >= 1 << 16 and parsed(F, x) & ids and x not in out:
                            out.append(x)
    return out


def kept_out(c, F, ids, v):
    """a filter on the parsed number drops the value v"""
    for k in c.calls(F, "Option.filter", "Result.filter"):
        a = c.args(F, k)
        if len(a) != 2 or a[1][0] != "closure" or not parsed(F, a[0]) & ids:
            continue
        b = c.prog._b(a[1][1], F.root.crate)
        for f in (c.implied(c.flat(b), ("c", ((0, 0), ())), True) if b is not None else None) or ():
            if f[0][0] in ("lt", "eq") and any(x[0] != "const" and truth(f, strip(x), v, None) is False for x in f[0][1:3]):
                return True
    return False


def narrow(c, F, nid):
    """the number was parsed as a type no larger than i32"""
    fn = F.nodes[nid].data[3]
    return bool(fn) and any(x in str(fn.get("args", "")) for x in ("u16", "u8"))


def false_left(fs):
    """the tested literal is assigned and not true"""
    for t, b in fs:
        if t[0] == "is" and (t[2], b) in (("Some", True), ("None", False)) and is_call(t[1], "assigned") and \
                not any(is_call(y, "not") or (y[0] == "un" and y[1] == "Not") for y in t[1][2]):
            for u, d in fs:
                if not d and u[0] == "eq" and strip(t[1]) in [strip(x) for x in u[1:]] and any(
                        y[0] == "adt" and y[2] == "Some" and any(constval(v) in (1, True) for _, v in y[3]) for y in u[1:]):
                    return True
    return False


false_left.all_facts = True


def unchecked(c):
    """every literal of a new clause is kept unless it is false, repeated, or makes the clause true"""
    F = c.flat("Solver.add_unchecked_clause")
    assigned = lambda f, v: f[1] and f[0][0] == "eq" and has_call(f[0], "assigned", "assign") and \
        has(f[0], lambda s: s[0] == "adt" and s[2] == "Some" and s[3] and constval(s[3][0][1]) == v) or \
        (f[0][0] == "true" and has_call(f[0], "assigned", "assign") and f[1] == bool(v)) or \
        (f[0][0] == "eq" and has_call(f[0], "assigned", "assign") and (f[0][2] == ("const", v) or f[0][2] == ("const", bool(v))) and f[1])
    true_ = lambda f: assigned(f, 1)
    false_ = lambda f: assigned(f, 0)
    opposite = lambda f: f[1] and (f[0][0] in ("eq", "true")) and has_call(f[0], "not")
    repeated = lambda f: f[1] and f[0][0] == "eq" and not has_call(f[0], "not", "assigned", "assign") and \
        constval(f[0][2]) is None
    dead = adt_nodes(c, F, "RefClause", "Dead")
    c.floor("simplifies", 1, len(dead))
    c.only_if("simplifies", F, dead, F_any(true_, opposite), "a true literal or a literal and its negation", "add:dead")
    keep = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and is_index_of_arg(F, n)]
    keep += [k for k in c.calls(F, "Vec.push") if loop_around(F, k) and not has_field(c.args(F, k)[0], "trail")]
    rt = c.calls(F, "Vec.retain", "Vec.retain_mut")
    if keep:
        c.each_iteration("simplifies", F, keep, "keeping the literal", "add:kept", [false_, repeated, true_, opposite, false_left])
        c.no_early_exit("simplifies", F, keep[0], "going through the literals", "add:all", [true_, opposite])
        for k in [k for k in c.calls(F, "Vec.truncate")]:
            t = c.args(F, k)[1]
            c.ob("simplifies", t[0] == "var" or is_call(t, "len"), f"{c.where(F, k)}: cuts the clause at {tstr(t)[:60]}", "add:cut", c.where(F, k))
    compact = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and is_index_of_arg(F, n)]
    if compact:
        done = [k for k in c.calls(F, "RegisterClause", "AssignStack.assign_at_root_level", "PropagateIF.assign_at_root_level", "ClauseDB.new_clause",
                                   "ClauseDBIF.new_clause")]
        c.before("simplifies", F, c.calls(F, "Vec.truncate", "Vec.drain", "Vec.set_len", "Vec.split_off", "Vec.resize"), done,
                 "cutting off the literals dropped", "add:cut-off")
    for k in rt:
        a = c.args(F, k)
        if len(a) > 1 and a[1][0] == "closure":
            ok = c.closure_implies(a[1][1], F_any(false_, repeated), want=False)
            c.ob("simplifies", ok, f"{c.where(F, k)}: drops literals that are not false", "add:retain", c.where(F, k))
    c.ob("simplifies", bool(keep or rt or c.calls(F, "Vec.dedup")), f"{F.root.where()}: literals are not gone through", "add:loop", F.root.where())
    for k in c.calls(F, "Vec.pop", "Vec.remove", "Vec.swap_remove", "Vec.drain", "Vec.split_off"):
        c.ob("simplifies", False, f"{c.where(F, k)}: removes a literal", "add:removes", c.where(F, k))
    # the result: nothing, a unit, or a stored clause
    size = lambda v: (lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "len") and v in (constval(f[0][1]), constval(f[0][2])))
    none = F_any(size(0), lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "is_empty"))
    unit = c.calls(F, "AssignStack.assign_at_root_level", "PropagateIF.assign_at_root_level")
    store = c.calls(F, "ClauseDB.new_clause", "ClauseDBIF.new_clause")
    c.floor("simplifies", 2, len(unit) + len(store))
    c.always("simplifies", F, unit + store, "assigning the unit or storing the clause", "add:result", [none, true_, opposite])
    c.only_if("simplifies", F, unit, F_any(size(1), lambda f: f[0][0] == "is" and f[1]), "exactly one literal", "add:unit")
    for k in store:
        t = c.args(F, k)
        c.ob("simplifies", has_arg(t[2], 2) or t[2][0] in ("arg", "var"), f"{c.where(F, k)}: stores another clause", "add:which", c.where(F, k))
        p = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: False,
                    lambda i, j, e: not (e is not None and F.nodes[F.pn[i]].kind == "switch" and any(f[0][0] == "eq" and not f[1] and
                                         has_call(f[0], "len") and 1 in (constval(f[0][1]), constval(f[0][2])) for f in F.pfacts(i, e)) or
                                         (e is not None and F.nodes[F.pn[i]].kind == "switch" and any(f[0][0] == "lt" and f[1] and constval(f[0][1]) in (1,)
                                          for f in F.pfacts(i, e)))))
        c.ob("simplifies", p is None, f"{c.where(F, k)}: a clause of one literal is stored like a longer one", "add:unit-stored", c.where(F, k),
             F.show(p) if p else None)
    empty = [k for k in adt_nodes(c, F, "RefClause", "EmptyClause")]
    mo = [a for k in c.calls(F, "Result.map_or", "Result.map_or_else") for a in c.reads(F, F.nodes[k].data[1][1])]
    c.only_if("simplifies", F, [k for k in empty if k not in mo], F_any(none, F_is("Err", "assign_at_root_level")),
              "an empty clause or a conflicting unit", "add:empty")
    srt = c.calls(F, "[T].sort", "[T].sort_unstable", "[T].sort_by_key", "[T].sort_unstable_by_key", "[T].sort_by")
    adjacent = any(has_call(f[0], "not") and f[0][0] == "eq" and has(f[0], lambda s: s[0] == "var")
                   for n in F.nodes if n.kind == "switch" and n.id in F.at for e in {e for _, e in n.succ if e is not None}
                   for f in F.edge_facts(n, e))
    if keep and adjacent:
        c.before("simplifies", F, srt, keep, "sorting the literals", "add:sorted")


def is_index_of_arg(F, n):
    t = strip(F.place_term(n.data[0]))
    return t[0] == "index" and has(F.place_term(n.data[0]), lambda s: is_arg(s, 2))


# ------------------------------------------------------------------ the CNF utility
def is_clauses(t):
    t = strip(t)
    return t[0] == "field" and t[2] == "clauses"


@prop("P27", "obligation and path automaton rules over MIR",
      "Each way a CNF is built, loaded and saved is followed through every branch.")
def p27(c):
    A = c.flat("CNF.add_clause")
    stored(c, A, "add", False)
    V = c.flat("CNF.from_vec_i32")
    stored(c, V, "vector", True)
    L = c.flat("CNF.load")
    reading(c, L, "reads", "load", ("CNF.add_clause", "CnfIf.add_clause"))
    quiet(c, L, "no-panic", "load")
    oks = [n for n in adt_nodes(c, L, "Result", "Ok") if any(d == n for d in rets(L))]
    c.floor("header", 1, len(oks))
    header(c, L, "header", "load", oks, ())
    dup = lambda f: f[1] and (has_name(f[0], "AddingClauseExists") or f[0][0] == "is" and f[0][2] == "AddingClauseExists")

    def dupflag(f):
        """a variable that is true only after a clause was there already"""
        if not (f[0][0] == "true" and f[1] and f[0][1][0] == "var"):
            return False
        ds = [d for d in L.defs.get(f[0][1][1], []) if d.id in L.at]
        ok = False
        for d in ds:
            if d.kind != "assign" or d.data[0][1]:
                return False
            v = constval(L.rv_term(d.data[1], 0, (), d))
            if v in (0, False):
                continue
            if v is None or L.guard_path(d.id, dup) is not None:
                return False
            ok = True
        return ok
    c.only_if("count", L, oks, F_any(lambda f: f[1] and f[0][0] == "eq" and has_call(f[0], "num_clauses", "len") and
                                     constval(f[0][2]) is None, dup, dupflag),
              "as many clauses as declared", "load:count")
    for k in c.calls(L, "CNF.add_clause"):
        ex = [dup]
        failure(c, "reads", L, k, "a clause that cannot be added is not an error", "load:add-error", ex)
    saving(c)


def rets(F):
    return [d.id for d in F.defs.get((0, 0), [])]


def stored(c, F, key, loop):
    """each clause given is stored as it is, and counted in"""
    pu = [k for k in c.calls(F, "Vec.push") if is_clauses(c.args(F, k)[0])]
    ex = [k for k in c.calls(F, "Vec.extend", "Vec.extend_from_slice", "Vec.append") if is_clauses(c.args(F, k)[0])]
    wr = [k for k in c.writes(F, "clauses")]
    err = lambda p: F.nodes[F.pn[p]].kind == "return" and not is_err(F, p)
    if not loop or ex or wr:
        c.always("stored", F, pu + ex + wr, "storing the clause", key + ":stored", [], err)
    if loop and pu:
        c.each_iteration("stored", F, pu, "storing the clause", key + ":stored", [ERR])
        c.no_early_exit("stored", F, pu[0], "storing the clauses", key + ":all", [ERR])
    c.ob("stored", bool(pu or ex or wr), f"{F.root.where()}: clauses are not stored", key + ":stored", F.root.where())
    for k in pu:
        t = c.args(F, k)[1]
        ok = has(t, lambda s: is_arg(s, 2 if not loop else 1))
        c.ob("stored", ok, f"{c.where(F, k)}: stores {tstr(t)[:60]}, not the clause given", key + ":which", c.where(F, k))
        op = F.nodes[k].data[1][1]
        cutters(c, F, op, key)
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and n.data[1] and last(n.data[0][0]) in (
                "dedup", "dedup_by", "dedup_by_key", "truncate", "retain", "retain_mut", "clear", "drain", "pop", "remove", "swap_remove",
                "split_off", "pop_if", "extract_if") and is_clauses(c.args(F, n.id)[0]):
            c.ob("stored", False, f"{c.where(F, n.id)}: {last(n.data[0][0])} takes away clauses stored before", key + ":taken", c.where(F, n.id))
    nv = [k for k in c.writes(F, "num_vars")]
    for n in F.nodes:       # or built with the structure
        if n.kind == "assign" and n.id in F.at and n.data[1][0] == "agg" and n.data[1][1].get("k") == "adt" and \
                short(n.data[1][1]["adt"]) == "CNF" and not n.data[1][1].get("default"):
            if "num_vars" in n.data[1][1]["fields"]:
                nv.append(n.id)
    # nothing larger, or nothing at all
    smaller = lambda f: not f[1] and f[0][0] == "lt" and has_field(f[0][1], "num_vars") or \
        (f[0][0] == "is" and is_call(f[0][1], "max") and (f[0][2], f[1]) in (("None", True), ("Some", False)))
    inner = [k for k in nv if loop_around(F, k, 1 if loop else 0)]
    for k in inner:
        h, body = loop_around(F, k)
        c.each_iteration("counted", F, [k for k in inner if k in body], "updating the number of variables", key + ":count", [ERR, smaller])
        c.no_early_exit("counted", F, k, "going through the literals", key + ":count-all", [ERR])
    per = [k for k in nv if loop and loop_around(F, k)]
    if per and not inner:
        c.each_iteration("counted", F, per, "updating the number of variables", key + ":count", [ERR, smaller])
        c.no_early_exit("counted", F, per[0], "going through the clauses", key + ":count-all", [ERR])
    elif not inner or not loop:
        c.always("counted", F, [loop_around(F, k)[0] for k in inner] or nv, "updating the number of variables", key + ":count", [smaller], err)
    mx = c.calls(F, "u32.max", "Iterator.max", "max", "Ord.max")
    c.ob("counted", bool(mx) or cmp_max(F), f"{F.root.where()}: the number of variables is not the largest index", key + ":max", F.root.where())
    for k in nv:
        if F.nodes[k].data[1][0] == "agg":
            continue
        v = c.wval(F, k)
        vs = [a for a, _ in alternatives(F, v)]
        ok = any(has_call(a, "unsigned_abs", "abs", "wrapping_abs", "max", "fold") for a in vs) or v[0] == "var"
        c.ob("counted", ok, f"{c.where(F, k)}: {tstr(v)[:60]} is not the largest index", key + ":count-value", c.where(F, k))
        keepold = has_field(v, "num_vars") or loop or has(v, lambda s: s[0] == "var") or \
            any(has_field(f[0], "num_vars") for f in F.facts_at(k))
        c.ob("counted", keepold, f"{c.where(F, k)}: forgets the variables of earlier clauses", key + ":count-old", c.where(F, k))
    signs = c.calls(F, "i32.unsigned_abs", "i32.wrapping_abs", "i32.checked_abs", "i32.saturating_abs", "unsigned_abs", "i32.abs", "i64.abs",
                    "i64.unsigned_abs", "i32.abs_diff", "i32.wrapping_neg", "i32.neg", "i32.overflowing_neg")
    sign = any(f[0][0] == "lt" and 0 in (constval(f[0][1]), constval(f[0][2])) or is_call(f[0][1], "is_negative", "is_positive", "signum")
               for n in F.nodes if n.kind == "switch" and n.id in F.at for i in F.at[n.id] for _, e in F.ps[i] if e is not None
               for f in F.pfacts(i, e))
    neg = sign and any(n.kind == "assign" and n.id in F.at and n.data[1][0] == "un" and n.data[1][1] == "Neg" for n in F.nodes)
    c.ob("counted", bool(signs) or neg, f"{F.root.where()}: negative literals are counted as they are", key + ":sign", F.root.where())
    for k in c.calls(F, "i32.abs"):
        c.ob("counted", False, f"{c.where(F, k)}: the absolute value of the most negative integer overflows", key + ":abs", c.where(F, k))
    for k in c.calls(F, "i32.unsigned_abs", "i32.wrapping_abs", "i32.checked_abs", "unsigned_abs"):
        t = c.args(F, k)[0]
        c.ob("counted", not has_call(t, "max", "min", "fold", "last", "first"), f"{c.where(F, k)}: the absolute value is taken after the largest "
             "literal was chosen", key + ":abs-last", c.where(F, k))
    for k in c.calls(F, *["Iterator." + s for s in SKIPPERS]):
        c.ob("counted", False, f"{c.where(F, k)}: some literals or clauses are skipped", key + ":skips", c.where(F, k))
    # refusals
    e1 = adt_nodes(c, F, "CNFOperationError", "AddingClauseExists")

    def equal(t):
        """a search through the clauses looks for an equal one"""
        for s in subterms(t):
            if s and s[0] == "call" and last(s[1]) in ("any", "find", "position") and len(s[2]) == 2 and s[2][1][0] == "closure":
                return c.closure_implies(s[2][1][1], lambda f: f[1] and f[0][0] == "eq" and not has_call(f[0], "len", "first", "last", "get") or
                                         f[1] and f[0][0] == "true" and has_call(f[0], "eq"), True, F.root.crate)
        return not has_call(t, "starts_with", "ends_with", "is_subset", "is_superset", "len", "is_empty")
    c.only_if("refuses", F, e1, lambda f: (f[1] and f[0][0] == "true" and has_field(f[0], "cls_map") and equal(f[0])) or
              (not f[1] and f[0][0] == "true" and has_call(f[0], "insert")), "the clause being there already", key + ":exists")
    e2 = adt_nodes(c, F, "CNFOperationError", "AddingEmptyClause")
    c.only_if("refuses", F, e2, lambda f: f[1] and (f[0][0] == "true" and is_call(f[0][1], "is_empty") or
                                                  f[0][0] == "eq" and has_call(f[0], "len") and 0 in (constval(f[0][1]), constval(f[0][2]))),
              "an empty clause", key + ":empty")
    e3 = adt_nodes(c, F, "CNFOperationError", "AddignConflictingAssingment")
    c.only_if("refuses", F, e3, lambda f: f[1] and f[0][0] == "true" and has_field(f[0], "assign") and
              has(f[0], lambda s: s[0] == "un" and s[1] == "Neg" or is_call(s, "wrapping_neg", "neg", "checked_neg")),
              "the opposite literal being given", key + ":conflict")


def cmp_max(F):
    return any(has_field(f[0], "num_vars") for n in F.nodes if n.kind == "switch" and n.id in F.at
               for e in {e for _, e in n.succ if e is not None} for f in F.edge_facts(n, e) if f[0][0] == "lt")


def cutters(c, F, op, key):
    """the vector handed over is not shortened before"""
    if op[0] not in ("c", "m"):
        return
    loc = op[1][0]
    locs = {loc}
    for _ in range(6):
        for l in list(locs):
            for d in F.defs.get(l, []):
                if d.kind == "assign" and d.data[1][0] == "use" and d.data[1][1][0] in ("c", "m") and not d.data[1][1][1][1]:
                    locs.add(d.data[1][1][1][0])
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and n.data[1] and last(n.data[0][0]) in \
                ("dedup", "retain", "pop", "truncate", "remove", "swap_remove", "clear", "drain", "dedup_by_key", "split_off", "push"):
            for r in c.reads(F, n.data[1][0]):
                d = F.nodes[r]
                if d.kind == "assign" and d.data[1][0] in ("ref", "raw") and d.data[1][2][0] in locs and not d.data[1][2][1]:
                    c.ob("stored", False, f"{c.where(F, n.id)}: the clause is changed by {last(n.data[0][0])} before it is stored",
                         key + ":changed", c.where(F, n.id))


def saving(c):
    S = c.flat("CNF.save")
    cr = c.calls(S, "File.create", "OpenOptions.open", "write")
    c.floor("saves", 1, len(cr))
    bad = lambda p: S.nodes[S.pn[p]].kind == "return" and not is_err(S, p)
    c.once_true("saves", S, F_any(F_is("Err", "create"), F_is("Err", "open")), [], bad, "a file that cannot be created is not an error",
                "save:create")
    wr = c.calls(S, "BufWriter.write_all", "Write.write_all", "File.write_all", "Write.write_fmt", "write")
    c.ob("saves", bool(wr), f"{S.root.where()}: nothing is written", "save:writes", S.root.where())
    c.always("saves", S, wr, "writing the clauses", "save:writes", [F_is("Err", "create"), F_is("Err", "open")])
    for k in wr:
        a = c.args(S, k)
        c.ob("saves", any(has_call(x, "dump_to_string") or has_field(x, "clauses") for x in a), f"{c.where(S, k)}: does not write the CNF",
             "save:what", c.where(S, k))
    # a buffered writer is flushed and its result reaches the caller
    buf = c.calls(S, "BufWriter.new", "BufWriter.with_capacity", "LineWriter.new")
    fl = c.calls(S, "BufWriter.flush", "Write.flush", "BufWriter.into_inner", "flush", "into_inner")
    if buf:
        c.ob("saves", bool(fl), f"{S.root.where()}: a buffered writer is not flushed", "save:flush", S.root.where())
        done = list(fl)
        for k in c.calls(S, "Result.and_then", "Result.map"):
            for a in c.args(S, k)[1:]:
                if a[0] == "closure" and any(S.nodes[f].body.uid == a[1] for f in fl):
                    done.append(k)      # runs unless the writing failed
        c.together("saves", S, wr, done, "flushing the writer", "save:flush",
                   [F_is("Err", "create"), F_is("Err", "open"), F_is("Err", "write_all"), F_is("Err", "write_fmt")])
    from props_answers import result_uses
    for k in wr + fl:
        d = S.nodes[k].data[2]
        kinds, final = result_uses(S, d[0])
        ok = "RET" in final or kinds & {"match", "branch", "via:branch", "is_err", "is_ok"}
        c.ob("saves", ok, f"{c.where(S, k)}: whether writing succeeded is not reported", "save:result", c.where(S, k))
        t = strip(S.call_term(S.nodes[k]))
        c.once_true("saves", S, F_is("Err", pred=lambda u: strip(u) == t), [], bad, "a failed write is not an error", "save:write-error")
    D = c.flat("CNF.dump_to_string")
    disp = [strip(c.args(D, k)[0]) for k in c.calls(D, "Argument.new_display", "Argument.new_debug", "ToString.to_string", "T.to_string",
                                                   "i32.to_string", "String.push_str", "String.add")]
    allt = disp + [strip(x) for k in c.calls(D, "Arguments.new", "String.push_str", "Write.write_fmt", "String.push") for x in c.args(D, k)]
    c.ob("dumps", any(t == ("field", ("arg", "self"), "num_vars") or is_call(t, "num_vars") for t in disp), f"{D.root.where()}: the header "
         "does not give the number of variables", "dump:vars", D.root.where())
    c.ob("dumps", any(is_call(t, "num_clauses") or is_call(t, "len") and is_clauses(t[2][0]) for t in disp), f"{D.root.where()}: the header does not give the number of clauses",
         "dump:clauses", D.root.where())
    for t in disp:
        if t[0] == "bin":
            c.ob("dumps", False, f"{D.root.where()}: the header gives {tstr(t)[:60]}", "dump:number", D.root.where())
    its = [k for k in c.calls(D, "Iterator.map", "I.into_iter", "[T].iter", "Vec.iter", "Iterator.for_each", "Iterator.flat_map", "Iterator.fold")
           if has_field(c.args(D, k)[0], "clauses")]
    c.ob("dumps", bool(its), f"{D.root.where()}: the clauses are not written", "dump:all", D.root.where())
    for k in c.calls(D, *["Iterator." + s for s in SKIPPERS + ("find", "last")]):
        c.ob("dumps", False, f"{c.where(D, k)}: some clauses or literals are not written", "dump:skips", c.where(D, k))
    zero = any("0\n" in s or "0\\n" in s for s in strings(D))
    c.ob("dumps", zero, f"{D.root.where()}: clauses are not ended by a zero", "dump:zero", D.root.where())
    c.ob("dumps", any("p cnf" in s for s in strings(D)), f"{D.root.where()}: no header is written", "dump:header", D.root.where())


def strings(F):
    out = []
    for n in F.nodes:
        if n.kind in ("call",) and n.id in F.at:
            for a in n.data[1]:
                for s in subterms(F.term(a)):
                    if s and s[0] == "const" and isinstance(s[-1], str):
                        out.append(s[-1])
    return out
