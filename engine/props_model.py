"""P07 rebuilding the values of eliminated variables."""
from rules import *
from registry import prop
from props_assign import unc, is_arg, has_arg, alternatives, has_top, range_of
from props_answers import errlike

ERR = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err"
ADD = ("Add", "AddWithOverflow", "AddUnchecked")
SUB = ("Sub", "SubWithOverflow", "SubUnchecked")


def norm(t):
    """like strip, but variables keep their identity"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        return ("call", t[1], tuple(norm(x) for x in t[2]))
    if t and t[0] in ("arg", "var"):
        return t
    return tuple(norm(x) for x in t)


def lin(t, sign=1, acc=None):
    """a sum as {atom: coefficient}; constants under 1"""
    top = acc is None
    acc = {} if top else acc
    t = unc(norm(t))
    if t[0] == "field" and t[2] in ("0", 0) and t[1][0] == "bin":
        t = t[1]
    if t[0] == "bin" and t[1] in ADD + SUB:
        lin(t[2], sign, acc)
        lin(t[3], sign if t[1] in ADD else -sign, acc)
    elif is_call(t, "saturating_sub", "wrapping_sub") and len(t[2]) == 2:
        lin(t[2][0], sign, acc)
        lin(t[2][1], -sign, acc)
    elif is_call(t, "saturating_add", "wrapping_add") and len(t[2]) == 2:
        lin(t[2][0], sign, acc)
        lin(t[2][1], sign, acc)
    elif isinstance(constval(t), int) and not isinstance(constval(t), bool):
        acc[1] = acc.get(1, 0) + sign * constval(t)
    else:
        acc[t] = acc.get(t, 0) + sign
    return {k: v for k, v in acc.items() if v} if top else acc


def offset(a, b):
    """a - b when it is a constant, else None"""
    d = lin(a)
    for k, v in lin(b).items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    if not d:
        return 0
    return d[1] if set(d) == {1} else None


def indexed(t):
    """(container, index) of an indexing term"""
    if t[0] == "index" and len(t) > 2:
        return t[1], t[2]
    if is_call(t, "index", "index_mut", "get_unchecked", "get_unchecked_mut") and len(t[2]) == 2:
        return t[2][0], t[2][1]
    return None


def conv(t):
    return is_call(t, "from", "into", "as_bool")


def lit_sat(f):
    """the fact says a stored literal agrees with (True) or contradicts (False) the model; None if it is something else"""
    t, pol = f
    if t[0] != "eq":
        return None
    if has_field(t, "assign") or has_call(t, "assigned", "assign"):
        return None         # the assignment before the repair
    for a, b in ((t[1], t[2]), (t[2], t[1])):
        if not has_call(a, "vi"):
            continue
        b = strip(b)
        if b[0] == "adt" and b[2] == "Some" and len(b[3]) == 1:
            b = strip(b[3][0][1] if isinstance(b[3][0], tuple) and len(b[3][0]) == 2 else b[3][0])
            neg = False
            while b[0] == "un" and b[1] == "Not" or is_call(b, "not") and len(b[2]) == 1:
                neg = not neg
                b = strip(b[2] if b[0] == "un" else b[2][0])
            if has(b, conv) or is_call(b, "as_bool"):
                for s in subterms(b):
                    if s and (s[0] == "un" and s[1] == "Not" or is_call(s, "not")):
                        neg = not neg
                if pol:
                    return not neg
                return None if not neg else "not-false"
    return None


@prop("P07", "ordering, value-flow and guarded-write rules over MIR",
      "The functions that save clauses of an eliminated variable, hand them over and rebuild a model are checked on every path. "
      "That the resolvents kept in the database are right is not decided here (see P08 for their presence).")
def p07(c):
    saving(c)
    ordering(c)
    handing_over(c)
    rebuilding(c)


# ------------------------------------------------------------------ saving
def saving(c):
    F = c.flat("make_eliminated_clause")
    stores = lambda k: F.root.locals[1] and is_store(F, c.args(F, k)[0])
    push = [k for k in c.calls(F, "Vec.push", "Vec.insert") if stores(k)]
    bulk = [k for k in c.calls(F, "Extend.extend", "Vec.extend", "Vec.extend_from_slice", "Vec.append") if stores(k)]
    lits = [k for k in push if loop_around(F, k)]
    width = [k for k in push if not loop_around(F, k) and is_width(F, c.args(F, k)[-1])]
    c.floor("saved", 2, len(push) + len(bulk))
    for k in bulk:
        t = c.args(F, k)[1]
        c.ob("saved", not parts(t) or len(bulk) + len(lits) > 1, f"{c.where(F, k)}: keeps only some literals", "literals:some", c.where(F, k))
    if not bulk:
        c.each_iteration("saved", F, lits, "saving the literal", "literals:each")
        for k in lits:
            c.no_early_exit("saved", F, k, "the loop over the literals", "literals:all")
            if loop_around(F, k):
                for s in whole(F, k):
                    c.ob("saved", False, f"{c.where(F, k)}: visits only some literals ({s})", "literals:some", c.where(F, k))
            t = strip(c.args(F, k)[-1])
            c.ob("saved", not is_call(t, "not", "neg"), f"{c.where(F, k)}: saves {tstr(t)[:60]}", "literals:value", c.where(F, k))
    c.always("saved", F, width, "saving the number of literals", "width")
    for k in width:
        for x in lits + bulk:
            c.ob("saved", not c.reaches(F, k, x), f"{c.where(F, x)}: a literal is saved after the number of literals",
                 "width:last", c.where(F, x))
    # the literal of the variable comes first
    sw = [k for k in c.calls(F, "[T].swap", "slice.swap", "Vec.swap") if stores(k)]
    ismine = lambda f: f[1] and f[0][0] == "eq" and any(has_call(x, "vi") for x in f[0][1:])
    if sw:
        n = len(c.edges_with(F, ismine))
        c.ob("saved", n > 0 or any(has_call(c.args(F, k)[i], "position", "find", "rposition") for k in sw for i in (1, 2)),
             f"{c.where(F, sw[0])}: swaps without looking for the variable", "first:looked", c.where(F, sw[0]))
        c.once_true("saved", F, ismine, sw, lambda i: F.pn[i] in width or F.nodes[F.pn[i]].kind == "return",
                    "the literal of the eliminated variable can stay away from the front", "first")
        for k in sw:
            a = c.args(F, k)[1:]
            pos = []
            for x in a:
                ln = [s for s in subterms(x) if s and is_call(s, "len") and is_store(F, s[2][0])]
                pos.append(any(all(not c.reaches(F, p, call_node(s)) for p in lits + bulk) for s in ln if call_node(s) is not None)
                           and unc(strip(x))[0] != "bin")
            c.ob("saved", any(pos) and norm(a[0]) != norm(a[1]), f"{c.where(F, k)}: swaps {' and '.join(tstr(x)[:40] for x in a)}, not with the "
                 "start of the saved clause", "first:where", c.where(F, k))
    U = c.flat("make_eliminating_unit_clause")
    p = c.calls(U, "Vec.push")
    x = [k for k in p if strip(c.args(U, k)[1])[0] == "arg"]
    w = [k for k in p if is_call(c.args(U, k)[1], "from") and constval(strip(c.args(U, k)[1])[2][0]) == 1]
    if p:
        c.always("saved", U, x, "saving the default value", "unit:literal")
        c.always("saved", U, w, "saving the number of literals", "unit:width")
        for a in w:
            for b in x:
                c.ob("saved", not c.reaches(U, a, b), f"{c.where(U, b)}: saved after the number of literals", "unit:order",
                     c.where(U, b))


def parts(t):
    """the term drops elements of a sequence"""
    return has(t, lambda s: s[0] == "call" and (last(s[1]) in ("skip", "filter", "step_by", "skip_while", "take_while", "truncate") or
                                                last(s[1]) == "take" and len(s[2]) == 2))


def call_node(t):
    for x in t[3:]:
        if isinstance(x, int) and not isinstance(x, bool):
            return x
    return None


def is_store(F, t):
    """the list literals are saved to"""
    return t[0] == "arg" and len(t) > 2 and "Vec<" in F.root.locals[t[2]] or has_field(t, "elim_lits")


def is_width(F, t):
    return is_call(strip(t), "from", "into") and has_call(t, "len") or is_call(t, "from") and \
        t[2] and not has_call(t, "next") and not has(t, lambda s: s[0] == "arg" and F.root.locals[s[2]].endswith("Lit"))


def whole(F, k):
    """adaptors that drop elements of the iterator of the loop around k"""
    out = []
    r = loop_around(F, k)
    for m in r[1]:
        n = F.nodes[m]
        if n.kind == "call" and last(n.data[0][0]) in ("next", "next_back") and loop_around(F, m) and \
                loop_around(F, m)[0] == r[0] and n.data[1]:
            for s in subterms(F.term(n.data[1][0])):
                if s and s[0] == "call" and last(s[1]) in ("skip", "take", "filter", "step_by", "skip_while", "take_while"):
                    out.append(last(s[1]))
    return out


def elems(F, t, depth=0):
    """closure parameters replaced by the sequence they run over"""
    if not isinstance(t, tuple) or depth > 12:
        return t
    if t and t[0] == "elem" and isinstance(t[1], int) and F.nodes[t[1]].kind == "call":
        return ("elem", elems(F, F.term(F.nodes[t[1]].data[1][0]), depth + 1))
    return tuple(elems(F, x, depth + 1) for x in t)


def occurs(t):
    """which occurrence lists a term comes from"""
    out = set()
    for n in ("pos_occurs", "neg_occurs"):
        if has_field(t, n):
            out.add(n[:3])
    return out


def ordering(c):
    E = c.flat("eliminate_var", inline=("make_eliminated_clauses", "make_eliminated_clause", "make_eliminating_unit_clause"))
    stored = [k for k in c.calls(E, "Vec.push") if has_field(c.args(E, k)[0], "elim_lits")]
    bulk = [k for k in c.calls(E, "Extend.extend", "Vec.extend", "Vec.extend_from_slice", "Vec.append") if
            has_field(c.args(E, k)[0], "elim_lits")]
    # the loops over the clauses to be saved: loops whose element indexes the database and feeds the stored literals
    src = {}
    for k in stored + bulk:
        t = c.args(E, k)[1]
        o = set()
        for s in subterms(t):
            if s and s[0] in ("index", "call") and indexed(s) and has(indexed(s)[1], lambda x: x[0] == "elem" or is_call(x, "next")):
                for a, d in spread(E, elems(E, indexed(s)[1])):
                    o |= {(x, d) for x in occurs(a)}
        if o:
            src[k] = o
    c.floor("both", 2, len(src))
    # default literals
    units, signs = [], {}
    for k in stored:
        t = strip(c.args(E, k)[1])
        if not is_call(t, "from"):
            continue
        tup = c.args(E, k)[1][2][0] if t[2] else None
        if not tup or tup[0] not in ("tuple", "adt"):
            continue
        sign = tup[-1][-1] if isinstance(tup[-1], (tuple, list)) else None
        if isinstance(sign, tuple) and len(sign) == 2 and sign[0] in ("1", 1):
            sign = sign[1]
        if sign is None:
            continue
        for a, d in spread(E, sign):
            v = constval(a)
            if v is not None and not (isinstance(v, int) and v > 1):
                units.append((k, bool(v), d))
            elif a[0] in ("bin", "call", "un"):
                units.append((k, None, d))
                signs[(k, d)] = a
    c.floor("default", 1 if any(v is None for _, v, _ in units) else 2, len(units))
    for k, v, d in units:
        if v is None:
            t = signs[(k, d)]
            fs = E.facts_at(k) if d is None else set(E.facts_at(k)) | set(E.facts_at(d))
            ok = True
            for x, o in src.items():
                for y, dd in o:
                    if not c.reaches(E, x, k):
                        continue
                    f2 = set(fs) | (set(E.facts_at(dd)) if dd is not None else set())
                    f2 = {(norm(f[0]), f[1]) for f in f2}
                    ok &= bool({(norm(f[0]), f[1]) for f in bool_fact(t, y == "neg")} & f2)
            c.ob("default", ok, f"{c.where(E, k)}: the default value {tstr(t)[:60]} does not follow from which clauses are saved",
                 "default:computed", c.where(E, k))
            continue
        want = "neg" if v else "pos"
        other = "pos" if v else "neg"
        w = c.where(E, k)
        good = [x for x, o in src.items() for (y, dd) in o if y == want and compatible(c, E, d, dd) and reach_or_loop(c, E, x, k)]
        c.ob("default", bool(good), f"{w}: the default value {'true' if v else 'false'} is saved without the clauses it falsifies",
             "default:clauses", w)
        for x, o in src.items():
            for y, dd in o:
                if y == other and compatible(c, E, d, dd) and (d is not None or dd is not None):
                    c.ob("default", not (c.reaches(E, x, k) or c.reaches(E, k, x)), f"{w}: the default value goes with the wrong "
                         "clauses", "default:sign", w)
                elif y == other:
                    c.ob("default", not c.reaches(E, x, k) or bool(good), f"{w}: the default value goes with the wrong "
                         "clauses", "default:sign", w)
            for y, dd in o:
                c.ob("default", not c.reaches(E, k, x), f"{c.where(E, x)}: clauses are saved after the default value, which "
                     "would then override them", "default:last", c.where(E, x))
    for k in set(src):
        h = loop_around(E, k, 1) if k in stored else loop_around(E, k)
        if h:
            c.each_iteration("both", E, [k for k in src if h[0] in [x[0] for x in enclosing(E, k)]] + heads(E, k, h),
                             "saving the clause", "each", [lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "is_dead")],
                             outer=len([x for x in enclosing(E, k) if len(x[1]) < len(h[1])]))
            c.no_early_exit("both", E, k, "the loop over the clauses", "all", [ERR],
                            outer=len([x for x in enclosing(E, k) if len(x[1]) < len(h[1])]))
    # everything is saved before the clauses are removed
    rm = c.calls(E, "ClauseDB.remove_clause", "remove_clause_fn", "ClauseDBIF.remove_clause")
    c.floor("order", 1, len(rm))
    c.before("order", E, [k for k, _, _ in units], rm, "saving the clauses of the variable", "saved-first")
    for r in rm:
        for x in src:
            c.ob("order", not c.reaches(E, r, x), f"{c.where(E, x)}: saved after clauses were removed", "removed-late", c.where(E, x))
    ev = [k for k in c.calls(E, "Instantiate.handle", "AssignStack.handle") if has_name(c.args(E, k)[1], "Eliminate") and
          not has_field(c.args(E, k)[0], "restart")]
    ev += c.calls(E, "AssignStack.make_var_eliminated", "VarManipulateIF.make_var_eliminated")
    ok = lambda i: E.nodes[E.pn[i]].kind == "return" and (E.pval[i].get((0, 0)) or "??")[1] != "Err"
    c.after("order", E, [k for k, _, _ in units], ev, "marking the variable as eliminated", "marked", [ERR], goal=ok)
    c.before("order", E, [k for k, _, _ in units], ev, "saving the clauses of the variable", "marked-late")
    n = 0
    for b, line in c.callers("AssignStack.make_var_eliminated", "VarManipulateIF.make_var_eliminated"):
        for o in c.owner(b):
            n += 1
            c.ob("order", o in ("AssignStack.handle", "eliminate_var"), f"{b.file}:{line}: {o} eliminates a variable without "
                 "saving its clauses", "who:" + o, b.where(line))


def enclosing(F, k):
    out = []
    i = 0
    while True:
        r = loop_around(F, k, i)
        if not r:
            return out
        out.append(r)
        i += 1


def heads(F, k, h):
    """headers of inner loops around k inside h: an empty clause passes through without a literal"""
    return [x[0] for x in enclosing(F, k) if len(x[1]) < len(h[1])]


def spread(F, t):
    """the values of a term, variables replaced by what may be assigned to them: [(term, defining node)]"""
    vs = []
    for s in subterms(t):
        if s and s[0] == "var" and s not in vs and len(F.defs.get(s[1], [])) > 1:
            vs.append(s)
    if not vs:
        return [(t, None)]
    out = []
    for v in vs:
        path = ()
        for s in subterms(t):
            if s and s[0] == "field" and s[1] == v:
                path = (s,)
        for a, d in alternatives(F, v):
            if d is None:
                continue
            if path and a[0] in ("tuple", "adt"):
                items = a[-1]
                idx = path[0][2]
                for n, it in enumerate(items):
                    if isinstance(it, tuple) and len(it) == 2 and str(it[0]) == str(idx):
                        a = it[1]
                        break
                    if str(n) == str(idx):
                        a = it
                        break
            out.append((a, d))
    return out or [(t, None)]


def compatible(c, F, d, e):
    """two definitions can be made on one path"""
    if d is None or e is None or d == e:
        return True
    return c.reaches(F, d, e) or c.reaches(F, e, d)


def reach_or_loop(c, F, x, k):
    return c.reaches(F, x, k)


# ------------------------------------------------------------------ handing over
def handing_over(c):
    n = 0
    for fn in ("Solver.solve", "search"):
        F = c.flat(fn)
        simp = c.calls(F, "Eliminator.simplify", "EliminateIF.simplify")
        app = [k for k in c.calls(F, "Vec.append", "Extend.extend", "Vec.extend", "Vec.extend_from_slice") if
               has_field(c.args(F, k)[0], "eliminated") and (has_call(c.args(F, k)[1], "eliminated_lits") or
                                                             has_field(c.args(F, k)[1], "elim_lits"))]
        new = c.calls(F, "Eliminator.instantiate", "Instantiate.instantiate")
        srch = c.calls(F, "search") if fn == "Solver.solve" else []
        n += len(simp)
        goal = (lambda i: F.pn[i] in srch or F.pn[i] in new) if srch else \
            (lambda i: F.pn[i] in new or F.nodes[F.pn[i]].kind == "return" and (F.pval[i].get((0, 0)) or "??")[1] != "Err")
        for k in simp:
            p = F.path_after(k, goal, lambda i: F.pn[i] in app, None)
            c.ob("handed-over", p is None, f"{c.where(F, k)}: the clauses saved by the simplification can get lost",
                 fn, c.where(F, k), F.show(p) if p else None)
        for k in app:
            t = strip(c.args(F, k)[1])
            c.ob("handed-over", not has_call(t, "rev") and not parts(t), f"{c.where(F, k)}: hands over only a part or in "
                 "another order", fn + ":order", c.where(F, k))
    c.floor("handed-over", 2, n)
    # nothing else changes the saved clauses
    MUT = {"clear", "truncate", "pop", "drain", "remove", "swap_remove", "retain", "split_off", "take", "replace", "reverse",
           "sort", "sort_unstable", "dedup", "insert", "swap", "rotate_left", "rotate_right", "resize"}
    m = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib":
            continue
        txt = [t for _, t in body_calls(b)]
        if not any(True for _ in txt):
            continue
        if not touches(b, ("eliminated", "elim_lits")):
            continue
        F = c.flat(b)
        for k in c.calls(F, *MUT, *["Vec." + x for x in MUT]):
            a = c.args(F, k)
            if not a:
                continue
            f = strip(a[0])
            if f[0] == "field" and f[2] in ("eliminated", "elim_lits") and F.nodes[k].body.crate == "splr.lib":
                m += 1
                nm = last(F.nodes[k].data[0][0])
                again = any(x[1] and x[0][0] == "is" and x[0][2] == "Reinitialize" for x in F.facts_at(k))
                if nm in ("take", "replace") and any(has_field(c.args(F, x)[0], "eliminated") for x in
                                                     c.calls(F, "Vec.append", "Extend.extend", "Vec.extend")):
                    continue
                if nm == "swap" and b.key.startswith("make_eliminated"):
                    continue
                c.ob("handed-over", again, f"{c.where(F, k)}: {nm} on the saved clauses", "lost:" + b.key, c.where(F, k))
        for k in c.writes(F, "eliminated") + c.writes(F, "elim_lits"):
            c.ob("handed-over", False, f"{c.where(F, k)}: replaces the saved clauses", "lost:" + b.key, c.where(F, k))


def touches(b, fields):
    for blk in b.blocks:
        for s in blk["s"]:
            if s[0] == "=" and any(f'"{x}"' in json.dumps(s) for x in fields):
                return True
        t = blk["t"]
        if t[0] == "call" and any(f'"{x}"' in json.dumps(t) for x in fields):
            return True
    return False


# ------------------------------------------------------------------ rebuilding
def rebuilding(c):
    F = c.flat("AssignStack.extend_model")
    el = lambda t: has_field(t, "eliminated")
    w = []
    for n in F.nodes:
        if n.kind != "assign" or n.id not in F.at:
            continue
        if not n.data[0][1]:
            continue
        d = F.place_term(n.data[0])
        if indexed(d) and has_call(indexed(d)[1], "vi") and el(indexed(d)[1]):
            w.append(n.id)
    rep = [k for k in c.calls(F, "Option.replace", "Option.insert", "replace") if el(c.args(F, k)[0]) and has_call(c.args(F, k)[0], "vi")]
    c.floor("rebuild", 1, len(w) + len(rep))
    for k in w:
        d = F.place_term(F.nodes[k].data[0])
        v = strip(c.wval(F, k))
        where = c.where(F, k)
        # the value of the literal itself
        tgt = vi_of(indexed(d)[1])
        if v[0] == "adt" and v[2] == "Some":
            neg = sum(1 for s in subterms(v) if s and (s[0] == "un" and s[1] == "Not" or is_call(s, "not", "neg")))
            c.ob("rebuild", neg % 2 == 0 and tgt is not None and has(v, lambda s: strip(s) == strip(tgt)),
                 f"{where}: assigns {tstr(v)[:80]}", "value", where)
        r = loop_around(F, k)
        if not c.ob("rebuild", r is not None, f"{where}: not in a loop over the saved clauses", "loop", where):
            continue
        outer = enclosing(F, k)[-1]
        # an edge that shows a literal not falsified must not lead to the write in the same round
        seen = 0
        for s in sorted(outer[1]):
            n = F.nodes[s]
            if n.kind != "switch":
                continue
            for pi in F.at.get(s, ()):
                for j, e in F.ps[pi]:
                    if e is None:
                        continue
                    for f in F.pfacts(pi, e):
                        kind = verdict(c, F, f, tgt)
                        if kind is None:
                            continue
                        seen += 1
                        if kind == "kept":
                            p = F._find(j, lambda x: F.pn[x] == k, lambda x: F.pn[x] == outer[0],
                                        lambda x, y, ee: F.pn[y] in outer[1])
                            c.ob("rebuild", p is None, f"{where}: changes a value although a literal of the saved clause is not "
                                 "false", "kept", where, F.show([pi] + p) if p else None)
        c.ob("rebuild", seen > 0, f"{where}: changes a value without looking at the other literals", "looked", where)
        # a verdict about one literal is not overwritten by the next
        for n in F.nodes:
            if n.kind == "assign" and n.id in F.at and n.id in outer[1] and not n.data[0][1] and n.data[1][0] == "bin" or \
                    n.kind == "call" and n.id in F.at and n.id in outer[1] and last(n.data[0][0]) in ("eq", "ne") and \
                    len(enclosing(F, n.id)) > len(enclosing(F, k)):
                t = F.rv_term(n.data[1], 0, (), n) if n.kind == "assign" else F.call_term(n)
                if len(enclosing(F, n.id)) <= len(enclosing(F, k)):
                    continue
                if all(verdict(c, F, f, tgt) is None for w_ in (True, False) for f in bool_fact(t, w_)):
                    continue
                p = F.path_after(n.id, lambda i: F.pn[i] == n.id, lambda i: F.pn[i] == outer[0],
                                 lambda i, j, e: e is None or all(verdict(c, F, (f[0], w_), tgt) is None for f in F.pfacts(i, e)
                                                                 for w_ in (True, False)))
                c.ob("rebuild", p is None, f"{c.where(F, n.id)}: only the last literal decides", "overwritten", c.where(F, n.id),
                     F.show(p) if p else None)
        # each falsified clause is repaired
        good = {verdict(c, F, f, tgt) for f in allfacts(c, F, outer, tgt)}
        if good:
            mark = "falsified-all" if "falsified-all" in good else "maybe"
            c.once_true("rebuild", F, lambda f: verdict(c, F, f, tgt) == mark, [k],
                        lambda x: F.pn[x] == outer[0] or F.nodes[F.pn[x]].kind == "return",
                        "a clause all of whose other literals are false can be left unrepaired", "repaired")
        # nothing else stops the walk
        sz = lambda t: is_call(strip(t), "len") and el(t)
        nothing = lambda f: f[0][0] == "true" and f[1] and is_call(f[0][1], "is_empty") and el(f[0]) or \
            f[0][0] == "eq" and f[1] and any(sz(x) for x in f[0][1:]) and any(constval(x) == 0 for x in f[0][1:]) or \
            f[0][0] == "lt" and (f[1] and sz(f[0][1]) and constval(f[0][2]) == 1 or
                                 not f[1] and constval(f[0][1]) == 0 and sz(f[0][2])) or \
            f[0][0] == "is" and has_call(f[0], "last", "first") and el(f[0])
        p = F._find(F.pstart, lambda x: F.nodes[F.pn[x]].kind == "return", lambda x: F.pn[x] == outer[0],
                    c.edge_ok(F, [nothing]))
        c.ob("rebuild", p is None, f"{F.root.where()}: can return without walking over the saved clauses", "walked",
             F.root.where(), F.show(p) if p else None)
        c.no_early_exit("rebuild", F, k, "the walk over the saved clauses", "all", [lambda f: False], outer=len(enclosing(F, k)) - 1)
        walkback(c, F, k, outer, tgt)
    # start from the assignment, give back the repaired model
    if w:
        m = indexed(F.place_term(F.nodes[w[0]].data[0]))[0]
        c.ob("rebuild", made_by(F, m, "assign_ref") or has_field(m, "assign") or has_field(m, "var"), f"{F.root.where()}: starts from "
             f"{tstr(m)[:60]}, not from the assignment", "start", F.root.where())


def vi_of(t):
    for s in subterms(t):
        if s and is_call(s, "vi") and s[2]:
            return s[2][0]
    return None


def verdict(c, F, f, tgt):
    """kept: some other literal is not false; falsified-all: all are false; seen: another look at the other literals"""
    t, pol = f
    if t[0] == "true" and is_call(t[1], "all", "any", "position", "find") and len(t[1][2]) == 2 and t[1][2][1][0] == "closure" \
            and has_field(t[1][2][0], "eliminated"):
        kind = last(t[1][1])
        cu = t[1][2][1][1]
        sat = lambda g: lit_sat(g) in (True, "not-false")
        fal = lambda g: lit_sat(g) is False
        if kind == "all" and c.closure_implies(cu, fal, True, F.root.crate):
            return "falsified-all" if pol else "kept"
        if kind == "any" and c.closure_implies(cu, fal, False, F.root.crate):
            return "kept" if pol else "falsified-all"
        if kind == "any" and (c.closure_implies(cu, sat, True, F.root.crate) or c.closure_implies(cu, fal, False, F.root.crate)):
            return "kept" if pol else "maybe"
        if kind == "any" and c.closure_implies(cu, fal, True, F.root.crate):
            return "kept" if not pol else "some"
        if kind == "all" and c.closure_implies(cu, sat, True, F.root.crate):
            return "kept" if pol else "some"
        return None
    if t[0] == "eq" and has_field(t, "eliminated"):
        if tgt is not None and any(same(s, tgt) for x in t[1:] for s in subterms(x) if s):
            return None
        r = lit_sat(f)
        if r in (True, "not-false"):
            return "kept"
        if r is False:
            return "some"
    return None


def allfacts(c, F, outer, tgt):
    out = []
    for s in outer[1]:
        if F.nodes[s].kind == "switch":
            for pi in F.at.get(s, ()):
                for j, e in F.ps[pi]:
                    if e is not None:
                        out += [f for f in F.pfacts(pi, e) if verdict(c, F, f, tgt) in ("falsified-all", "maybe")]
    return out


def walkback(c, F, k, outer, tgt):
    """the walk goes from the end to the start, and its parts are cut where they were written"""
    where = c.where(F, k)
    ti = indexed(tgt) if tgt is not None else None
    if not ti:
        return
    target = ti[1]
    widths = [s for s in subterms(target) if s and is_call(s, "from", "into") and has_field(s, "eliminated")]
    if len(widths) != 1 or not indexed(widths[0][2][0]):
        return
    wi = indexed(widths[0][2][0])[1]
    c.ob("walk", offset(target, ("bin", "Sub", wi, widths[0])) in (0, None), f"{where}: takes the literal at {tstr(target)[:60]}",
         "target", where)
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and n.id in outer[1] and last(n.data[0][0]) == "new" and "Range" in n.data[0][0]:
            a = c.args(F, n.id)
            lo, hi = offset(a[0], target), offset(a[1], wi)
            c.ob("walk", lo in (1, None), f"{c.where(F, n.id)}: the other literals start {lo} after the first", "from", c.where(F, n.id))
            c.ob("walk", hi in (-1, None), f"{c.where(F, n.id)}: the other literals end {hi} from their number", "to", c.where(F, n.id))
    for n in F.nodes:
        if n.kind != "assign" or n.id not in F.at:
            continue
        v = c.wval(F, n.id)
        for s in subterms(v):
            if s and s[0] == "adt" and s[1].endswith("Range") and len(s[3]) == 2 and n.id in outer[1]:
                a = [x[1] for x in s[3]]
                lo, hi = offset(a[0], target), offset(a[1], wi)
                c.ob("walk", lo in (1, None), f"{c.where(F, n.id)}: the other literals start {lo} after the first", "from",
                     c.where(F, n.id))
                c.ob("walk", hi in (0, None), f"{c.where(F, n.id)}: the other literals end {hi} from their number", "to",
                     c.where(F, n.id))
    # the index variable
    vs = {s for s in subterms(wi) if s and s[0] == "var"}
    if len(vs) == 1:
        v = vs.pop()
        for d in F.defs.get(v[1], []):
            if d.id not in F.at or d.kind not in ("assign", "call") or d.kind == "assign" and d.data[0][1]:
                continue
            t = F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d)
            if d.id in outer[1]:
                a, b = offset(t, v), offset(t, target)
                ok = (a is None or a == -1) and (b is None or b == 0) if not (a is None and b is None) else True
                if a is not None and a != -1:
                    ok = False
                c.ob("walk", ok, f"{c.where(F, d.id)}: moves to {tstr(t)[:60]}", "step", c.where(F, d.id))
            else:
                good = not isinstance(constval(t), int)
                if is_call(t, "len"):
                    good = has_field(t, "eliminated")
                c.ob("walk", good, f"{c.where(F, d.id)}: the walk starts at {tstr(t)[:60]}, not at the end of the saved clauses", "start",
                     c.where(F, d.id))
