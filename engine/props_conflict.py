"""P28 what happens after a conflict."""
from rules import *
from registry import prop
from paths import machine, known
from props_model import lin, offset, norm, enclosing, parts, indexed, call_node, vi_of
from props_assign import alternatives, unc

ERR = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err"
NEW = ("ClauseDB.new_clause", "ClauseDBIF.new_clause")
ASSIGN = ("AssignStack.assign_by_implication", "PropagateIF.assign_by_implication")
ROOT = ("AssignStack.assign_at_root_level", "PropagateIF.assign_at_root_level")
CANCEL = ("AssignStack.cancel_until", "PropagateIF.cancel_until")


def is_err(F, i):
    return (F.pval[i].get((0, 0)) or "??")[1] == "Err"


def learnt0(t):
    """the first literal of the learnt clause"""
    i = indexed(t)
    return bool(i) and constval(i[1]) == 0 and has_field(i[0], "new_learnt")


def learnt1(t):
    i = indexed(t)
    return bool(i) and constval(i[1]) == 1 and has_field(i[0], "new_learnt")


def two(f):
    t, pol = f
    if t[0] == "eq" and 2 in (constval(t[1]), constval(t[2])) and has_call(t, "len"):
        return pol
    if t[0] == "true" and t[1][0] == "call" and "bi" in last(t[1][1]) and "clause" in last(t[1][1]).lower() + "clause":
        return pol
    if t[0] == "lt" and constval(t[1]) == 2 and has_call(t[2], "len"):
        return not pol
    return None


def unit_under(f):
    return f[1] and f[0][0] == "true" and has_call(f[0][1], "is_unit_under", "is_unit")


@prop("P28", "path state machines and value-flow rules over MIR",
      "Every path of the conflict handler is followed with the level it went back to; the analysis functions are checked for "
      "balanced marks and for the level they return. That the learnt clause itself is right is not decided.")
def p28(c):
    from props_prims import flags
    flags(c, "Var")
    handler(c)
    learning(c)
    level(c)
    redundancy(c)


def handler(c):
    F = c.flat("handle_conflict")
    an = c.calls(F, "conflict_analyze")
    new = c.calls(F, *NEW)
    asg = c.calls(F, *ASSIGN)
    root = c.calls(F, *ROOT)
    cn = c.calls(F, *CANCEL)
    c.floor("conflict", 4, len(an) + len(new) + len(asg) + len(cn))
    if not an or not asg:
        return
    # the clause is analysed at the level of the conflict: nothing is undone before
    for k in cn:
        if any(c.reaches(F, k, x) for x in an):
            t = c.args(F, k)[1]
            c.ob("stored", not lin(t).get(1) and not has(t, lambda s: s[0] == "bin" and s[1] in ("Div", "Shr")), f"{c.where(F, k)}: backtracks to "
                 f"{tstr(t)[:60]} before the conflict is analysed", "level-first", c.where(F, k))
    # an answer other than an error means a new assertion or a stored clause
    ok = lambda i: F.nodes[F.pn[i]].kind == "return" and not is_err(F, i)
    for k in an:
        p = F.path_after(k, ok, lambda i: F.pn[i] in new + root)
        c.ob("stored", p is None, f"{c.where(F, k)}: the learnt clause is neither stored nor asserted", "always", c.where(F, k),
             F.show(p) if p else None)
    p = F._find(F.pstart, ok, lambda i: F.pn[i] in an)
    chrono = any("chrono" in x for x in ())
    c.ob("stored", p is None, f"{F.root.where()}: a conflict can pass without being analysed", "analysed", F.root.where(),
         F.show(p) if p else None)
    for k in new:
        a = c.args(F, k)
        c.ob("stored", any(has_field(x, "new_learnt") for x in a), f"{c.where(F, k)}: stores another clause", "which", c.where(F, k))
        c.ob("stored", constval(a[-1]) in (1, True), f"{c.where(F, k)}: the clause is not marked as learnt", "learnt", c.where(F, k))
    for k in root:
        a = c.args(F, k)
        c.ob("stored", learnt0(a[-1]), f"{c.where(F, k)}: asserts {tstr(a[-1])[:60]}", "unit", c.where(F, k))
        c.only_if("stored", F, [k], lambda f: f[1] and f[0][0] == "eq" and 1 in (constval(f[0][1]), constval(f[0][2])) and
                  has_call(f[0], "len") or (f[0][0] == "lt" and has_call(f[0], "len")), "the clause having one literal", "unit-only")
    # asserting literal, level and reason
    lv = {norm(c.args(F, k)[3]) for k in asg}
    c.ob("asserted", len(lv) == 1, f"{F.root.where()}: assigned at different levels", "one-level", F.root.where())
    for k in asg:
        a = c.args(F, k)
        w = c.where(F, k)
        c.ob("asserted", has_call(a[3], "conflict_analyze") and not lin(a[3]).get(1), f"{w}: assigned at level {tstr(a[3])[:60]}", "level", w)
        c.ob("asserted", not has(a[3], lambda x: is_call(x, "max", "clamp") and has_call(x, "decision_level")),
             f"{w}: assigned at level {tstr(a[3])[:80]}, which can be above the level of the clause", "level-raised", w)
        inclause = F_is("Clause", *[last(x) for x in NEW])
        own = inclause in () or any(inclause(f) for f in F.facts_at(k))
        lit = learnt0(a[1]) or own and is_call(strip(a[1]), "lit0")
        c.ob("asserted", lit, f"{w}: assigns {tstr(a[1])[:60]}, not the asserting literal", "literal", w)
        fs = F.facts_at(k)
        r = a[2]
        if r[0] == "adt" and r[2] == "Implication":
            cid = dict(r[3]).get("0", r[3][0][1] if r[3] else None)
            c.ob("asserted", has(cid, lambda s: s[0] in ("variant",) and s[2] == "Clause") and has_call(cid, "new_clause"),
                 f"{w}: the reason is {tstr(r)[:80]}", "reason", w)
            c.ob("asserted", any(two(f) is False for f in fs) or not any(two(f) is not None for f in anyfacts(F)),
                 f"{w}: a two-literal clause gets a long reason", "reason-kind", w)
        elif r[0] == "adt" and r[2] == "BinaryLink":
            x = strip(r[3][0][1])
            n = 0
            while is_call(x, "not") or x[0] == "un":
                x, n = (x[2][0] if x[0] == "call" else x[2]), n + 1
            c.ob("asserted", n == 1 and (learnt1(x) or own and is_call(x, "lit1")), f"{w}: the reason is {tstr(r)[:80]}", "reason", w)
            reg = any(f[1] and f[0][0] == "is" and f[0][2] == "RegisteredClause" for f in fs)
            c.ob("asserted", reg or any(two(f) is True for f in fs), f"{w}: a longer clause gets a two-literal reason", "reason-kind", w)
        else:
            c.ob("asserted", r[0] == "var", f"{w}: the reason is {tstr(r)[:80]}", "reason", w)
        # read before the clause is stored (storing takes the literals away)
        for x in F.nodes[k].data[1][1:3]:
            for m in c.reads(F, x):
                n = F.nodes[m]
                if n.kind == "call" and last(n.data[0][0]) in ("index", "get", "first") and has_field(F.term(n.data[1][0]), "new_learnt"):
                    for s in new:
                        c.ob("asserted", not c.reaches(F, s, m), f"{c.where(F, m)}: read after the clause was stored", "stale",
                             c.where(F, m))
    # going back
    L = c.args(F, asg[0])[3]
    watch = {s[1] for k in cn for s in subterms(c.args(F, k)[1]) if s and s[0] == "var"}
    an_s = set(an)

    def resolve(t, dm):
        if t[0] == "var" and t[1] in dm:
            d = F.nodes[dm[t[1]]]
            return F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d)
        return t

    why = {}

    def step(st, n, dm):
        off, done, unit = st
        if n.id in cn:
            t = resolve(c.args(F, n.id)[1], dm)
            o = offset(t, L)
            if o is None and lin(t) and all(k == 1 or is_call(k, "decision_level") for k in lin(t)):
                o = "far"
            if o is None:
                d = lin(t)
                for x, v in lin(L).items():
                    d[x] = d.get(x, 0) - v
                # less one only if a comparison holds
                if all(not v or is_call(x, "from", "into") and has(x, lambda s: s[0] == "bin" and s[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"))
                       for x, v in d.items() if x != 1) and not d.get(1):
                    o = "maybe"
            return (o if o is not None else "?", done, False)
        if n.id in new:
            if off is None:
                why["p"] = ("stored before the search went back", n)
                return ("bad", done, unit)
            return (off, "new", unit)
        if n.id in asg:
            if done != "new":
                why["p"] = ("assigned before the clause was stored", n)
                return ("bad", done, unit)
            if (isinstance(off, int) and off != 0 or off in ("far", "maybe")) and not unit:
                why["p"] = ("assigned although the search went back further than the clause needs" if off not in ("far", "maybe") and off < 0 else
                            "the search does not go back far enough", n)
                return ("bad", done, unit)
            return (off, "asserted", unit)
        return (off, done, unit)

    def edge(st, f, env):
        off, done, unit = st
        if f[0][0] == "true" and f[1] and is_call(f[0][1], "is_none_or", "is_some_and") and len(f[0][1][2]) == 2 and \
                f[0][1][2][0][0] == "var" and f[0][1][2][1][0] == "closure":
            some = known(env, f[0][1][2][0][1], ("is", "Some"))
            if some and c.closure_implies(f[0][1][2][1][1], unit_under, True, F.root.crate):
                unit = True
        if unit_under(f):
            unit = True
        return (off, done, unit)

    def bad(st, n, i, dm):
        if st[0] == "bad":
            return True
        if n.kind == "return" and not is_err(F, i) and st[1] == "new" and (st[0] in (0, "maybe") or isinstance(st[0], int) and st[0] > 0):
            why["p"] = ("the asserting literal is not assigned although the search went back to its level", n)
            return True
        return False

    starts = [j for k in an for i in F.at[k] for j, e in F.ps[i]]
    p = machine(F, starts, (None, "", False), step, bad, edge, watch)
    m, n = why.get("p", ("", None))
    w = c.where(F, n.id) if n is not None and p is not None else F.root.where()
    c.ob("backjump", p is None, f"{w}: {m}", "paths", w, F.show(p) if p else None)
    for k in cn:
        if not any(c.reaches(F, a, k) for a in an):
            continue
        for t, d in alternatives(F, c.args(F, k)[1]):
            o = offset(t, L)
            c.ob("backjump", o is None or o <= 0, f"{c.where(F, k)}: goes back to {tstr(t)[:60]}, above the level of the clause", "level",
                 c.where(F, k))
            c.ob("backjump", o is not None or has(t, lambda s: s[0] in ("var", "phi")) or
                 has_call(t, "conflict_analyze", "decision_level"),
                 f"{c.where(F, k)}: goes back to {tstr(t)[:60]}", "which", c.where(F, k))


def anyfacts(F):
    out = []
    for n in F.nodes:
        if n.kind == "switch" and n.id in F.at:
            for e in {e for _, e in n.succ if e is not None}:
                out += F.edge_facts(n, e)
    return out


SEEN = lambda t: has_name(t, "CA_SEEN")


def marks(c, F, on):
    """calls that set (True) or clear (False) the mark"""
    out = []
    for k in c.calls(F, "Var.turn_on" if on else "Var.turn_off", "FlagIF.turn_on" if on else "FlagIF.turn_off"):
        if SEEN(c.args(F, k)[1]):
            out.append(k)
    for k in c.calls(F, "Var.set", "FlagIF.set"):
        a = c.args(F, k)
        if SEEN(a[1]) and constval(a[2]) == (1 if on else 0):
            out.append(k)
    return out


def learning(c):
    """every mark set while analysing is either resolved away or belongs to a literal of the learnt clause"""
    F = c.flat("conflict_analyze")
    on, off = marks(c, F, True), marks(c, F, False)
    c.floor("marks", 4, len(on) + len(off))
    mini = c.calls(F, "minimize_learnt")
    push = [k for k in c.calls(F, "Vec.push") if has_field(c.args(F, k)[0], "new_learnt")]
    cnt = {}
    for loc, ds in F.defs.items():
        for d in ds:
            if d.id in F.at and d.kind == "assign" and not d.data[0][1]:
                v = F.rv_term(d.data[1], 0, (), d)
                o = offset(v, ("var", loc, F._lname(loc)))
                if o in (1, -1):
                    cnt.setdefault(loc, {}).setdefault(o, []).append(d.id)
                elif v[0] == "bin" and v[1].startswith("Add") and v[2] == ("var", loc, F._lname(loc)) and v[3][0] == "var":
                    # adds what a choice gave: the choice of 1 counts
                    alt = alternatives(F, v[3])
                    if alt and all(constval(x) in (0, 1) and k is not None for x, k in alt):
                        cnt.setdefault(loc, {}).setdefault(1, []).extend(k for x, k in alt if constval(x) == 1)
    dl = lambda t: has_call(t, "decision_level")
    at_level = lambda f: f[0][0] == "eq" and any(dl(x) for x in f[0][1:]) and any(has_call(x, "level") for x in f[0][1:])
    # the counter goes up under level == decision level
    up = []
    ctr = None
    for loc, m in cnt.items():
        if 1 in m and -1 in m:
            # decremented together with clearing a mark, and tested against zero
            if any(f[0][0] in ("eq", "lt") and ("var", loc, F._lname(loc)) in f[0][1:] for f in anyfacts(F)):
                ctr, up = loc, m[1]
    c.ob("marks", ctr is not None, f"{F.root.where()}: no count of the open literals of the conflict level", "count", F.root.where())
    if ctr is None:
        return
    down = cnt[ctr][-1]
    lvt = lambda t: has_call(t, "level") and not dl(t)
    for k in up:
        for f in F.facts_at(k):
            if f[0][0] in ("eq", "lt") and any(dl(x) for x in f[0][1:]) and any(lvt(x) for x in f[0][1:]):
                good = f[0][0] == "eq" and f[1] or f[0][0] == "lt" and not f[1] and lvt(f[0][1])
                good = good and not lin(f[0][1]).get(1) and not lin(f[0][2]).get(1)
                c.ob("marks", good, f"{c.where(F, k)}: counts a variable that need not be at the conflict level", "count-level", c.where(F, k))
    for k in on:
        v = norm(c.args(F, k)[0])
        mine = [x for x in push if vi_of(v) is not None and has(norm(c.args(F, x)[1]), lambda s: s == norm(vi_of(v)))]
        c.together("marks", F, [k], up + mine, "the marked variable being counted or its literal kept", "kept",
                   local=loop_around(F, k) is not None)
        e1 = [at_level]
        w = c.where(F, k)
        # on the side of the conflict level it is counted, on the other it is kept
        for pol, B, what in ((True, up, "a marked variable of the conflict level is not counted"),
                             (False, mine, "a marked variable below the conflict level is not in the learnt clause")):
            for s in level_tests(F, at_level, v):
                for pi in F.at.get(s, ()):
                    for j, e in F.ps[pi]:
                        if e is None or not any(at_level(f) and f[1] == pol for f in F.pfacts(pi, e)):
                            continue
                        if not (c.reaches(F, k, s) or c.reaches(F, s, k)):
                            continue
                        enc = loop_around(F, s)
                        goal = lambda x: enc is not None and F.pn[x] == enc[0] or F.nodes[F.pn[x]].kind == "return"
                        # only paths on which the mark is set
                        after_mark = s in reach_local(F, k, enc)
                        if not after_mark:
                            continue
                        p = F._find(j, goal, lambda x: F.pn[x] in B)
                        c.ob("marks", p is None, f"{c.where(F, s)}: {what}", "side:" + str(pol), c.where(F, s), F.show([pi] + p) if p else None)
    for x in push:
        t = c.args(F, x)[1]
        if isinstance(constval(strip(t)), int) or is_call(strip(t), "from"):
            continue
    # clearing while walking back
    for d in down:
        c.together("marks", F, [d], off, "clearing the mark of the resolved variable", "resolved", local=True)
    for k in off:
        c.together("marks", F, [k], down, "counting the resolved variable", "resolved-count", local=True)
        v = vi_of(c.args(F, k)[0])
        c.ob("marks", v is not None and (has_call(v, "stack") or v[0] == "var"), f"{c.where(F, k)}: clears the mark of {tstr(v)[:50]}",
             "resolved-which", c.where(F, k))
    ret = lambda i: F.nodes[F.pn[i]].kind == "return"
    c.always("marks", F, mini, "minimising the learnt clause, which clears the other marks", "minimised")
    # the asserting literal
    w0 = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0][1] and learnt0(F.place_term(n.data[0]))]
    ins = [k for k in c.calls(F, "Vec.insert", "Option.insert", "replace") if has_field(c.args(F, k)[0], "new_learnt")]
    c.before("asserting", F, w0 + ins, mini, "the asserting literal being put in front", "front")
    for k in w0:
        v = strip(c.wval(F, k))
        n = 0
        while is_call(v, "not") or v[0] == "un" and v[1] == "Not":
            v, n = (v[2][0] if v[0] == "call" else v[2]), n + 1
        c.ob("asserting", n % 2 == 1, f"{c.where(F, k)}: puts {tstr(c.wval(F, k))[:60]} in front", "negated", c.where(F, k))
    me = ("var", ctr, F._lname(ctr))
    none_open = lambda f: f[0][0] == "eq" and f[1] and me in f[0][1:] and 0 in (constval(f[0][1]), constval(f[0][2])) or \
        f[0][0] == "lt" and (not f[1] and constval(f[0][1]) == 0 and f[0][2] == me or
                             f[1] and f[0][1] == me and constval(f[0][2]) == 1)
    c.only_if("asserting", F, w0, none_open, "all literals of the conflict level being resolved", "done")
    # each literal of the reason is looked at
    for k in on:
        r = loop_around(F, k)
        if r is None or len(enclosing(F, k)) < 2:
            continue
        seen = lambda f: f[1] and f[0][0] == "true" and SEEN(f[0][1])
        root = lambda f: f[1] and f[0][0] == "eq" and any(has_call(x, "root_level") or constval(x) == 0 for x in f[0][1:]) and \
            has_call(f[0], "level")
        own = lambda f: f[1] and f[0][0] == "eq" and has_call(f[0][1], "vi") and has_call(f[0][2], "vi")
        c.each_iteration("analysis", F, [k], "marking the literal", "each", [seen, root, own])
        c.no_early_exit("analysis", F, k, "the loop over the literals of the reason", "all")
        for m in r[1]:
            n = F.nodes[m]
            if n.kind == "call" and last(n.data[0][0]) == "next" and loop_around(F, m)[0] == r[0]:
                t = F.term(n.data[1][0])
                for s in subterms(t):
                    if s and s[0] == "call" and last(s[1]) == "skip" and len(s[2]) == 2 and isinstance(constval(s[2][1]), int):
                        c.ob("analysis", constval(s[2][1]) <= 1, f"{c.where(F, m)}: skips {constval(s[2][1])} literals of the reason", "skip",
                             c.where(F, m))
                    if s and s[0] == "call" and last(s[1]) in ("take", "step_by", "take_while", "skip_while"):
                        c.ob("analysis", False, f"{c.where(F, m)}: looks at some literals of the reason only", "skip", c.where(F, m))


def level_tests(F, pred, v):
    out = []
    for n in F.nodes:
        if n.kind == "switch" and n.id in F.at:
            fs = [f for e in {e for _, e in n.succ if e is not None} for f in F.edge_facts(n, e)]
            if any(pred(f) and vi_of(v) is not None and has(norm(f[0]), lambda s: s == norm(vi_of(v))) for f in fs):
                out.append(n.id)
    return out


def reach_local(F, k, enc):
    """flat nodes reachable after k without starting another round of the loop enc"""
    out, st = set(), [s for i in F.at.get(k, ()) for s, _ in F.ps[i]]
    seen = set()
    while st:
        x = st.pop()
        if x in seen or enc is not None and F.pn[x] == enc[0]:
            continue
        seen.add(x)
        out.add(F.pn[x])
        st += [j for j, _ in F.ps[x]]
    return out


def level(c):
    """the level to go back to is the highest level among the other literals, and a literal of it is the second one"""
    F = c.flat("minimize_learnt")
    off = marks(c, F, False)
    red = c.calls(F, "Lit.is_redundant", "is_redundant")
    c.floor("cleared", 1, len(off))
    c.each_iteration("cleared", F, off, "clearing the mark", "each")
    for k in off:
        c.no_early_exit("cleared", F, k, "the loop clearing the marks", "all")
        for r in red:
            c.ob("cleared", not c.reaches(F, k, r), f"{c.where(F, k)}: cleared before the minimisation is over", "order", c.where(F, k))
        # the list of variables to be cleared starts as a copy of the whole clause
        v = vi_of(c.args(F, k)[0])
        if loop_around(F, k):
            hs = loop_around(F, k)
            for m in hs[1]:
                n = F.nodes[m]
                if n.kind == "call" and last(n.data[0][0]) == "next" and loop_around(F, m)[0] == hs[0]:
                    t = F.term(n.data[1][0])
                    c.ob("cleared", not has_call(t, "skip", "take", "filter", "step_by"), f"{c.where(F, m)}: clears some marks only", "some",
                         c.where(F, m))
                    src = list_of(c, F, n.data[1][0])
                    base = t
                    while base[0] == "call" and base[2] and last(base[1]) in ("into_iter", "iter", "deref", "as_slice", "index", "copied",
                                                                              "cloned", "iter_mut", "drain") or base[0] in ("ref", "deref"):
                        base = base[2][0] if base[0] == "call" else base[1]
                    # ... or is filled from it
                    for x in c.calls(F, "Vec.extend", "Vec.append", "Vec.extend_from_slice", "Extend.extend"):
                        a = c.args(F, x)
                        if a and a[0] == base and has(a[1], lambda s: s[0] == "arg"):
                            src.add(x)
                    drop = c.calls(F, "Vec.retain", "Vec.truncate", "Vec.clear", "minimize_with_bi_clauses")
                    for d in src:
                        for x in drop:
                            c.ob("cleared", not c.reaches(F, x, d), f"{c.where(F, d)}: the list of marks is copied after literals were dropped",
                                 "copy", c.where(F, d))
                    if base[0] == "arg" and not src:
                        for x in drop:
                            c.ob("cleared", not (c.reaches(F, x, m) and norm(base) == norm(strip_arg(c.args(F, x)))),
                                 f"{c.where(F, m)}: only the marks of the literals left are cleared", "all-marks", c.where(F, m))
    for r in red:
        # the collected literals go to the same list
        a = c.args(F, r)
        c.ob("cleared", len(a) < 4 or a[3][0] != "const", f"{c.where(F, r)}: marks are not recorded", "recorded", c.where(F, r))
    p = F._find(F.pstart, lambda i: F.nodes[F.pn[i]].kind == "return", lambda i: F.pn[i] in [h for k in off for h in [loop_around(F, k)[0]] if loop_around(F, k)])
    c.ob("cleared", p is None, f"{F.root.where()}: can finish without clearing the marks", "always", F.root.where(), F.show(p) if p else None)
    # the level
    lvls, idxs = set(), set()
    tests = []
    lvl = lambda t: is_call(strip(t), "level")
    for n in F.nodes:
        if n.kind == "switch" and n.id in F.at and loop_around(F, n.id):
            for pi in F.at[n.id]:
                for j, e in F.ps[pi]:
                    if e is None:
                        continue
                    for f in F.pfacts(pi, e):
                        if f[0][0] == "lt" and (lvl(f[0][1]) or lvl(f[0][2])) and (f[0][1][0] == "var" or f[0][2][0] == "var"):
                            tests.append((pi, j, n.id, f))
    sw = [k for k in c.calls(F, "[T].swap", "slice.swap") if 1 in [constval(x) for x in c.args(F, k)[1:]]]
    retv = ("c", ((0, 0), ()))
    if tests:
        for pi, j, sid, f in tests:
            (op, a, b), pol = f
            var, new = (a, b) if a[0] == "var" else (b, a)
            # new > var  <=> lt(var,new) True
            greater = (a[0] == "var") == pol if a[0] == "var" else None
            if a[0] == "var":
                greater = pol            # var < new
            else:
                greater = None if pol is False else False   # new < var: definitely not greater
            defs = [d.id for d in F.defs.get(var[1], []) if d.id in F.at and loop_around(F, d.id)]
            h = loop_around(F, sid)
            if greater:
                p = F._find(j, lambda x: F.pn[x] == h[0], lambda x: F.pn[x] in defs)
                c.ob("level", p is None, f"{c.where(F, sid)}: a higher level is not taken", "higher", c.where(F, sid))
                pos = [d.id for k in sw for x in c.args(F, k)[1:] if x[0] == "var" for d in F.defs.get(x[1], []) if loop_around(F, d.id)]
                if pos:
                    p = F._find(j, lambda x: F.pn[x] == h[0], lambda x: F.pn[x] in pos)
                    c.ob("level", p is None, f"{c.where(F, sid)}: the literal of the higher level is not remembered", "position",
                         c.where(F, sid))
                    for d in pos:
                        n = F.nodes[d]
                        v = F.rv_term(n.data[1], 0, (), n) if n.kind == "assign" else F.call_term(n)
                        me = n.data[0][0] if n.kind == "assign" else None
                        moves = lambda s: s[0] == "call" and last(s[1]) == "next" or s[0] == "elem" or \
                            s[0] == "var" and s[1] != me and any(x.id in h[1] for x in F.defs.get(s[1], []))
                        c.ob("level", has(v, moves), f"{c.where(F, d)}: remembers {tstr(v)[:50]}", "which-position", c.where(F, d))
            elif greater is False:
                p = F._find(j, lambda x: F.pn[x] in defs, lambda x: F.pn[x] == h[0], lambda i, jj, e: F.pn[jj] in h[1])
                c.ob("level", p is None, f"{c.where(F, sid)}: a lower level is taken", "lower", c.where(F, sid))
        for pi, j, sid, f in tests[:1]:
            c.no_early_exit("level", F, sid, "the search for the highest level", "all")
            h = loop_around(F, sid)
            for m in h[1]:
                n = F.nodes[m]
                if n.kind == "call" and last(n.data[0][0]) == "next" and loop_around(F, m)[0] == h[0]:
                    for s in subterms(F.term(n.data[1][0])):
                        if s and s[0] == "call" and last(s[1]) == "skip" and len(s[2]) == 2:
                            v = constval(s[2][1])
                            c.ob("level", v in (1, 2), f"{c.where(F, m)}: starts at literal {v}", "from", c.where(F, m))
                        if s and s[0] == "adt" and s[1].endswith("RangeFrom"):
                            v = constval(s[3][0][1])
                            c.ob("level", v is None or v in (1, 2), f"{c.where(F, m)}: starts at literal {v}", "from", c.where(F, m))
    c.floor("level", 1, len(sw))
    for k in sw:
        few = lambda f: f[0][0] == "lt" and not f[1] and has_call(f[0][2], "len") or f[0][0] == "lt" and f[1] and has_call(f[0][1], "len") or \
            f[0][0] == "eq" and has_call(f[0], "len")
        c.always("level", F, [k], "putting a literal of that level second", "second", [few])
        for pi, j, sid, f in tests[:1]:
            c.ob("level", not c.reaches(F, k, sid), f"{c.where(F, k)}: moved before the search is over", "second-order", c.where(F, k))


def strip_arg(args):
    """the argument of the function a call works on"""
    for a in args:
        for s in subterms(a):
            if s and s[0] == "arg":
                return s
    return ("?",)


def list_of(c, F, op):
    """nodes defining the list an iterator runs over"""
    out = set()
    for m in c.reads(F, op):
        n = F.nodes[m]
        if n.kind == "call" and last(n.data[0][0]) in ("clone", "to_vec", "to_owned", "collect"):
            out.add(m)
    return out


def redundancy(c):
    """marks set while looking for a proof of redundancy are recorded, or cleared when the search fails"""
    F = c.flat("Lit.is_redundant")
    on, off = marks(c, F, True), marks(c, F, False)
    c.floor("trial-marks", 2, len(on) + len(off))
    arg = lambda t: t[0] == "arg" or has(t, lambda s: s[0] == "arg")
    rec = [k for k in c.calls(F, "Vec.push") if strip(c.args(F, k)[0])[0] == "arg"]
    for k in on:
        v = vi_of(c.args(F, k)[0])
        mine = [x for x in rec if v is not None and norm(c.args(F, x)[1]) == norm(v)] or \
            [x for x in rec if v is not None and has(norm(c.args(F, x)[1]), lambda s: s == norm(v))]
        c.together("trial-marks", F, [k], mine, "recording the mark", "recorded", local=loop_around(F, k) is not None)
        unseen = lambda f: not f[1] and f[0][0] == "true" and SEEN(f[0][1])
    cut = [k for k in c.calls(F, "Vec.truncate", "Vec.drain", "Vec.split_off") if strip(c.args(F, k)[0])[0] == "arg"]
    pops = [loop_around(F, k)[0] for k in c.calls(F, "Vec.pop") if strip(c.args(F, k)[0])[0] == "arg" and loop_around(F, k) and
            set(off) & set(loop_around(F, k)[1])]
    no = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and not n.data[0][1] and n.data[0][0] == (0, 0) and
          n.data[1][0] == "use" and n.data[1][1][0] == "k" and n.data[1][1][1].get("v") in (0, False)]
    # after a mark was set, giving up clears the marks
    starts = set(on)
    for k in on:
        for r in no:
            p = F.path_after(k, lambda i: F.pn[i] == r, lambda i: F.pn[i] in [loop_around(F, o)[0] for o in off if loop_around(F, o)] or
                             F.pn[i] in off)
            c.ob("trial-marks", p is None, f"{c.where(F, r)}: gives up without clearing the marks set", "cleared", c.where(F, r),
                 F.show(p) if p else None)
    for r in no:
        for k in on:
            if c.reaches(F, k, r):
                p = F.path_after(k, lambda i: F.pn[i] == r, lambda i: F.pn[i] in cut + pops)
                c.ob("trial-marks", p is None, f"{c.where(F, r)}: gives up without forgetting the cleared marks", "forgotten", c.where(F, r),
                     F.show(p) if p else None)
    nopop = lambda f: f[0][0] == "is" and is_call(f[0][1], "pop") and f[1] == (f[0][2] == "None")
    for k in cut:
        for o in off:
            h = loop_around(F, o)
            if h and last(F.nodes[k].data[0][0]) == "truncate":
                p = F.path_after(k, lambda i: F.pn[i] == o, lambda i: F.pn[i] in on)
                c.ob("trial-marks", p is None, f"{c.where(F, k)}: forgets the marks before they are cleared", "order", c.where(F, k))
        t = c.args(F, k)[1] if len(c.args(F, k)) > 1 else None
        if t is not None and is_call(t, "len"):
            for x in rec:
                c.ob("trial-marks", not c.reaches(F, x, call_node(t)), f"{c.where(F, k)}: cut at a length read after marks were recorded",
                     "from", c.where(F, k))
    for o in off:
        c.no_early_exit("trial-marks", F, o, "the loop clearing the marks", "all")
        c.each_iteration("trial-marks", F, [o], "clearing the mark", "each", [nopop])
        h = loop_around(F, o)
        for m in (h[1] if h else ()):
            n = F.nodes[m]
            if n.kind == "call" and last(n.data[0][0]) == "next" and loop_around(F, m)[0] == h[0]:
                for s in subterms(F.term(n.data[1][0])):
                    if s and s[0] == "adt" and s[1].endswith("RangeFrom"):
                        lo = s[3][0][1]
                        ln = [x for x in subterms(lo) if x and is_call(x, "len")]
                        c.ob("trial-marks", offset(lo, ln[0]) in (0, None) if ln else True, f"{c.where(F, m)}: clears from {tstr(lo)[:40]}",
                             "range", c.where(F, m))
                        for x in ln:
                            for y in rec:
                                c.ob("trial-marks", not c.reaches(F, y, call_node(x)), f"{c.where(F, m)}: clears from a length read after "
                                     "marks were recorded", "range", c.where(F, m))
