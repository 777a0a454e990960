"""P12 undoing decisions, P13 free decision variables, P15 the saved trail."""
from rules import *
from registry import prop
from props_level import *

LIT_VI = ("vi",)


def is_arg(t, i):
    return isinstance(t, tuple) and len(t) > 3 and t[0] == "arg" and t[2] == i


def has_arg(t, i):
    return has(t, lambda s: is_arg(s, i))


def elem_of_trail(t):
    """the term is (derived from) an element of the trail"""
    return has_field(t, "trail")


def is_none(t):
    return t[0] in ("adt", "named") and has_name(t, "None") or (t[0] == "adt" and t[2] == "None")


def field_writes(c, F, field, val=None):
    return c.writes(F, field, val=val)


def range_of(F, nid):
    """(lower, upper) of the Range the loop around nid runs over; None where it is not recognised"""
    r = loop_around(F, nid)
    if not r:
        return None
    for m in r[1]:
        n = F.nodes[m]
        if n.kind == "call" and last(n.data[0][0]) in ("next", "next_back") and n.data[1] and loop_around(F, m) and \
                loop_around(F, m)[0] == r[0]:
            for s in subterms(F.term(n.data[1][0])):
                if s and s[0] == "adt" and s[1].endswith("Range") and len(s[3]) == 2:
                    return [x[1] for x in s[3]]
    return None


def trail_len(t):
    return is_call(strip(t), "len") and has_field(t, "trail") and not has_field(t, "trail_lim", "trail_saved")


def lim_of(t, lv):
    """t is the trail length at the start of level lv"""
    return has_field(t, "trail_lim") and (not lv or lv(t))


def is_root(t):
    return has_field(t, "root_level") or has_call(t, "root_level") or has(t, lambda s: constval(s) == 0)


@prop("P12", "guarded-loop, ordering and value-flow rules over MIR",
      "The functions that undo and make assignments are checked on every path; who else may write an assignment is enumerated. "
      "Chronological backtracking (a feature that is off by default) is not analysed.")
def p12(c):
    undo(c, "AssignStack.cancel_until", lambda t: has_arg(t, 2), True)
    undo(c, "AssignStack.backtrack_sandbox", is_root, False)
    saved(c)
    assigning(c)
    clearing(c)
    levels_base(c)
    # who writes assignments, reasons and levels
    allowed = {"AssignStack.cancel_until", "AssignStack.backtrack_sandbox", "AssignStack.assign_at_root_level",
               "AssignStack.assign_by_implication", "AssignStack.assign_by_decision"}
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in FOREIGN_TRAITS:
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                fs = [e for e in s[2][1] if e[0] == "f"]
                if s[3][0] in ("ref", "raw") and s[3][1] == "mut":
                    fs = [e for e in s[3][2][1] if e[0] == "f"]
                if fs and fs[-1][1] == "assign" and fs[-1][2].endswith("Var"):
                    n += 1
                    for o in c.owner(b):
                        c.ob("who-assigns", o in allowed, f"{b.file}:{s[1]}: {o} changes an assignment", "assign:" + o,
                             b.where(s[1]))
    c.floor("who-assigns", 4, n)


def undo(c, fn, lv, saving):
    F = c.flat(fn)
    key = last(fn)
    trunc = [k for k in c.calls(F, "Vec.truncate", "Vec.drain", "Vec.split_off", "Vec.set_len") if
             has_field(c.args(F, k)[0], "trail") and not has_field(c.args(F, k)[0], "trail_lim")]
    pops = [k for k in c.calls(F, "Vec.pop") if has_field(c.args(F, k)[0], "trail") and
            not has_field(c.args(F, k)[0], "trail_lim")]
    lims = [k for k in c.calls(F, "Vec.truncate", "Vec.drain", "Vec.split_off", "Vec.clear") if
            has_field(c.args(F, k)[0], "trail_lim")]
    plain = lambda t: not has(t, lambda s: s[0] == "bin" or s[0] == "call" and last(s[1]).startswith(("saturating", "wrapping")))
    level = lambda t: (has_field(t, "trail_lim") or has_call(t, "decision_level")) and plain(t)
    low = lambda f: root_fact(f) or (
        not f[1] and f[0][0] == "lt" and level(f[0][2]) and lv(f[0][1]) and plain(f[0][1]) or
        f[1] and f[0][0] == "lt" and level(f[0][1]) and lv(f[0][2]) and plain(f[0][2]) or
        f[1] and f[0][0] == "eq" and has(f[0], level) and lv(f[0]) and plain(f[0]))
    if not pops:
        c.always("undo", F, trunc, "shortening the trail", key + ":trail", [low])
    c.always("undo", F, lims, "shortening the list of levels", key + ":levels", [low])
    for k in trunc:
        t = c.args(F, k)[1]
        c.ob("undo", lim_of(t, lv), f"{c.where(F, k)}: the trail is cut at {tstr(t)[:80]}, not at the start of the "
             "abandoned levels", key + ":where", c.where(F, k))
    for k in lims:
        a = c.args(F, k)
        if len(a) > 1:
            c.ob("undo", lv(a[1]) and plain(a[1]) and not has_call(a[1], "len", "max"), f"{c.where(F, k)}: keeps "
                 f"{tstr(a[1])[:60]} levels", key + ":how-many", c.where(F, k))
    none = lambda v: v[0] == "adt" and v[2] == "None"
    un = c.writes(F, "assign", val=none)
    rs = c.writes(F, "reason", val=none)
    c.floor("undo:" + key, 2, len(un) + len(rs))
    for what, ws in (("unassigning the variable", un), ("forgetting its reason", rs)):
        k2 = key + ":" + what.split()[0]
        c.each_iteration("undo", F, ws, what, k2, [ERR_])
        for w in ws:
            d = F.place_term(F.nodes[w].data[0])
            c.ob("undo", has_field(d, "trail") and has_call(d, "vi"), f"{c.where(F, w)}: touches {tstr(d)[:80]}, not the "
                 "variable of the literal on the trail", k2 + ":which", c.where(F, w))
            c.no_early_exit("undo", F, w, what, k2 + ":all", [ERR_])
            rg = range_of(F, w)
            if rg:
                c.ob("undo", lim_of(rg[0], lv) and strip(rg[0])[0] not in ("bin",) and trail_len(rg[1]),
                     f"{c.where(F, w)}: runs over {tstr(rg[0])[:50]}..{tstr(rg[1])[:50]}, not over the abandoned part of the "
                     "trail", k2 + ":range", c.where(F, w))
            for k in trunc:
                if has_call(d, "split_off", "drain"):
                    continue        # walks what was cut off
                c.ob("undo", not c.reaches(F, k, w) or bool(pops), f"{c.where(F, w)}: runs after the trail was cut",
                     k2 + ":order", c.where(F, w))
    ins = c.calls(F, "AssignStack.insert_heap", "VarHeapIF.insert_heap")
    sv = [k for k in c.calls(F, "AssignStack.save_trail", "TrailSavingIF.save_trail")]
    if sv and saving:
        c.always("selectable", F, sv + ins, "making the variables selectable again", key + ":saved", [low])
        for k in sv:
            a = c.args(F, k)
            c.ob("selectable", lv(a[1]) and a[1][0] != "bin", f"{c.where(F, k)}: the trail is saved for another level",
                 key + ":saved-level", c.where(F, k))
            for w in un + rs + trunc + lims:
                c.ob("selectable", not c.reaches(F, w, k), f"{c.where(F, k)}: the trail is saved after it was undone",
                     key + ":saved-order", c.where(F, k))
    else:
        c.each_iteration("selectable", F, ins, "making the variable selectable again", key + ":heap")
        for k in ins:
            v = c.args(F, k)[1]
            c.ob("selectable", has_field(v, "trail") and has_call(v, "vi"), f"{c.where(F, k)}: inserts {tstr(v)[:60]}",
                 key + ":heap-which", c.where(F, k))
            c.no_early_exit("selectable", F, k, "the loop over the trail", key + ":heap-all")
    # the pointer never stays beyond the trail
    qs = c.writes(F, "q_head")
    good = [q for q in qs if trail_len(c.wval(F, q)) or (is_call(c.wval(F, q), "min") and any(
        trail_len(x) or lim_of(x, lv) for x in c.wval(F, q)[2])) or lim_of(c.wval(F, q), lv)]
    short = lambda f: f[0][0] == "lt" and ((not f[1] and trail_len(f[0][1]) and has_field(f[0][2], "q_head")) or
                                           (f[1] and has_field(f[0][1], "q_head") and trail_len(f[0][2]))) or \
        f[0][0] == "lt" and not f[1] and lim_of(f[0][1], lv) and has_field(f[0][2], "q_head")
    beyond = lambda f: f[0][0] == "lt" and (f[1] and (trail_len(f[0][1]) or lim_of(f[0][1], lv)) and has_field(f[0][2], "q_head") or
                                            not f[1] and has_field(f[0][1], "q_head") and (trail_len(f[0][2]) or
                                                                                           lim_of(f[0][2], lv)))
    if saving:              # (a sandbox starts with everything propagated)
        for q in good:
            if not is_call(c.wval(F, q), "min"):
                c.only_if("pointer", F, [q], beyond, "the pointer being beyond the trail", key + ":forward")
            else:
                c.ob("pointer", has_field(c.wval(F, q), "q_head"), f"{c.where(F, q)}: the propagation pointer becomes "
                     f"{tstr(c.wval(F, q))[:80]}", key + ":forward", c.where(F, q))
    for q in qs:
        c.ob("pointer", q in good, f"{c.where(F, q)}: the propagation pointer becomes {tstr(c.wval(F, q))[:80]}",
             key + ":value", c.where(F, q))
    c.always("pointer", F, qs, "moving the propagation pointer back", key + ":moved", [low, short])
    # lengths must be read after the cut
    for q in good:
        for k in c.reads(F, ("c", F.nodes[q].data[1][1][1]) if F.nodes[q].data[1][0] == "use" and
                         F.nodes[q].data[1][1][0] in ("c", "m") else ("k", {})):
            n = F.nodes[k]
            if n.kind == "call" and last(n.data[0][0]) == "len" and trail_len(F.call_term(n)):
                for t in trunc:
                    c.ob("pointer", not c.reaches(F, k, t), f"{c.where(F, k)}: the length is read before the trail is cut",
                         key + ":stale", c.where(F, k))


ERR_ = lambda f: False


def saved(c):
    """under trail saving every abandoned variable is either put back into the heap or remembered"""
    if not c.prog.fns("AssignStack.save_trail", "splr.lib"):
        return
    F = c.flat("AssignStack.save_trail")
    push = [k for k in c.calls(F, "Vec.push", "Vec.insert") if has_field(c.args(F, k)[0], "trail_saved")]
    ins = c.calls(F, "AssignStack.insert_heap", "VarHeapIF.insert_heap")
    c.floor("selectable:save", 2, len(push) + len(ins))
    done = set()
    for k in push + ins:
        r = loop_around(F, k)
        if not c.ob("selectable", r is not None, f"{c.where(F, k)}: not in a loop over the trail", "save:loop", c.where(F, k)):
            continue
        if r[0] in done:
            continue
        done.add(r[0])
        mine = [x for x in push + ins if loop_around(F, x) and loop_around(F, x)[0] == r[0]]
        c.each_iteration("selectable", F, mine, "putting the variable into the heap or remembering it", "save:each")
        c.no_early_exit("selectable", F, k, "the loop over the abandoned literals", "save:all")
        for x in mine:
            v = c.args(F, x)[1]
            c.ob("selectable", has_field(v, "trail"), f"{c.where(F, x)}: handles {tstr(v)[:60]}", "save:which", c.where(F, x))
    # the loops cover the abandoned part: chain of ranges from the start of the level to the end of the trail
    rgs = {}
    for k in push + ins:
        rg = range_of(F, k)
        h = loop_around(F, k)
        if rg and h:
            rgs[h[0]] = (rg, k)
    if rgs and len(rgs) == len(done):
        tops = [h for h, (rg, k) in rgs.items() if trail_len(rg[1])]
        lv = lambda t: has_arg(t, 2)
        c.ob("selectable", bool(tops), f"{F.root.where()}: the end of the trail is not covered", "save:end", F.root.where())
        for h in tops:
            (lo, hi), k = rgs[h]
            los = alternatives(F, lo)
            for t, d in los:
                ok = lim_of(t, lv) and strip(t)[0] != "bin"
                for h2, ((lo2, hi2), k2) in rgs.items():
                    if h2 != h and strip(hi2) == strip(t) and lim_of(lo2, lv) and strip(lo2)[0] != "bin" and \
                            (d is None or c.reaches(F, h2, d)):
                        ok = True
                c.ob("selectable", ok, f"{c.where(F, k)}: starts at {tstr(t)[:80]}: abandoned variables before it are lost",
                     "save:start", c.where(F, k))
    C = c.flat("AssignStack.clear_saved_trail")
    ins = c.calls(C, "AssignStack.insert_heap", "VarHeapIF.insert_heap")
    c.each_iteration("selectable", C, ins, "putting the remembered variable into the heap", "clear:each")
    for k in ins:
        c.no_early_exit("selectable", C, k, "the loop over the remembered literals", "clear:all")
        v = c.args(C, k)[1]
        c.ob("selectable", has_field(v, "trail_saved"), f"{c.where(C, k)}: inserts {tstr(v)[:60]}", "clear:which",
             c.where(C, k))
        rg = range_of(C, k)
        if rg:
            c.ob("selectable", constval(rg[0]) == 0 and is_call(rg[1], "len") and has_field(rg[1], "trail_saved"),
                 f"{c.where(C, k)}: runs over {tstr(rg[0])[:40]}..{tstr(rg[1])[:40]}", "clear:range", c.where(C, k))
    emptied = [k for k in c.calls(C, "Vec.clear", "Vec.drain", "mem.take", "take", "Vec.truncate") if
               has_field(c.args(C, k)[0], "trail_saved")]
    for e in emptied:
        for k in ins:
            if last(C.nodes[e].data[0][0]) == "clear":
                c.ob("selectable", not c.reaches(C, e, k), f"{c.where(C, e)}: forgotten before they are put back",
                     "clear:order", c.where(C, e))


def alternatives(F, t):
    """the values a local may have: [(term, defining node or None)]"""
    ds = F.defs.get(t[1]) if t[0] == "var" else None
    if not ds:
        return [(t, None)]
    out = []
    for d in ds:
        if d.id in F.at and d.kind == "assign":
            out.append((F.rv_term(d.data[1], 0, (), d), d.id))
    return out or [(t, None)]


def assigning(c):
    some = lambda v: v[0] == "adt" and v[2] == "Some" and has_call(v, "from", "as_bool")
    for fn in ("assign_by_implication", "assign_by_decision"):
        F = c.flat("AssignStack." + fn)
        larg = lambda t: has_arg(t, 2)
        w = c.writes(F, "assign", val=lambda v: some(v) and larg(v) and not has_call(v, "not", "neg"))
        c.always("assign", F, w, "giving the literal's variable its value", fn + ":value")
        p = [k for k in c.calls(F, "Vec.push") if has_field(c.args(F, k)[0], "trail") and
             not has_field(c.args(F, k)[0], "trail_lim")]
        c.always("assign", F, p, "recording the literal on the trail", fn + ":trail")
        for k in p:
            c.ob("assign", strip(c.args(F, k)[1])[0] == "arg", f"{c.where(F, k)}: records {tstr(c.args(F, k)[1])[:50]}",
                 fn + ":which", c.where(F, k))
            c.ob("assign", F.path_after(k, lambda i: F.pn[i] == k or F.pn[i] in p, lambda i: False) is None,
                 f"{c.where(F, k)}: records the literal twice", fn + ":once", c.where(F, k))
        if fn == "assign_by_implication":
            lv = c.writes(F, "level", val=lambda v: is_arg(v, 4))
            rs = c.writes(F, "reason", val=lambda v: has_arg(v, 3))
            c.always("assign", F, lv, "recording the given level", fn + ":level")
            c.always("assign", F, rs, "recording the given reason", fn + ":reason")
        else:
            exact = lambda v: (has_field(v, "trail_lim") or has_call(v, "decision_level")) and \
                not has(v, lambda s: s[0] == "bin" or s[0] == "call" and last(s[1]).startswith(("saturating", "wrapping")))
            lv = c.writes(F, "level", val=exact)
            rs = c.writes(F, "reason", val=lambda v: v[0] == "adt" and v[2] == "Decision" and exact(v))
            c.always("assign", F, lv, "recording the current level", fn + ":level")
            c.always("assign", F, rs, "marking it as a decision", fn + ":reason")
            up = c.calls(F, "AssignStack.level_up") + [k for k in c.calls(F, "Vec.push") if
                                                      has_field(c.args(F, k)[0], "trail_lim")]
            c.before("assign", F, up, p + lv, "entering a new level", fn + ":level-first")
        for k in c.writes(F, "assign") + c.writes(F, "level") + c.writes(F, "reason"):
            d = F.place_term(F.nodes[k].data[0])
            c.ob("assign", larg(d), f"{c.where(F, k)}: touches {tstr(d)[:60]}", fn + ":whose", c.where(F, k))
    U = c.flat("AssignStack.level_up")
    for k in c.calls(U, "Vec.push"):
        t = c.args(U, k)[1]
        c.ob("assign", trail_len(t), f"{c.where(U, k)}: the level starts at {tstr(t)[:60]}", "level_up:start", c.where(U, k))
    R = c.flat("AssignStack.assign_at_root_level")
    larg = lambda t: has_arg(t, 2)
    none = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None" and (has_field(f[0], "assign") or
                                                                         has_call(f[0], "assigned", "assign")) or \
        (not f[1] and f[0][0] == "is" and f[0][2] == "Some" and (has_field(f[0], "assign") or
                                                                 has_call(f[0], "assigned", "assign")))
    ret = lambda x: R.nodes[R.pn[x]].kind == "return"
    w = c.writes(R, "assign", val=lambda v: some(v) and larg(v) and not has_call(v, "not", "neg"))
    p = [k for k in c.calls(R, "Vec.push") if has_field(c.args(R, k)[0], "trail")]
    m = c.once_true("assign", R, none, w, ret, "a free variable can stay without its value", "root:value")
    m += c.once_true("assign", R, none, p, ret, "a free variable's literal can miss on the trail", "root:trail")
    ma = c.calls(R, "AssignStack.make_var_asserted", "VarManipulateIF.make_var_asserted")
    m += c.once_true("assign", R, none, ma, ret, "a fixed variable can stay selectable", "root:asserted")
    c.floor("assign:root", 3, m)
    c.only_if("assign", R, w + p, none, "the variable being free", "root:free")
    lvl = c.writes(R, "level", val=is_root_level)
    c.always("assign", R, lvl, "recording the root level", "root:level",
             [lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Some", lambda f: f[0][0] == "eq"])
    M = c.flat("AssignStack.make_var_asserted")
    out = c.calls(M, "AssignStack.remove_from_heap", "VarHeapIF.remove_from_heap")
    # literals assigned at the root level become asserted
    I = c.flat("AssignStack.assign_by_implication")
    ma = c.calls(I, "AssignStack.make_var_asserted", "VarManipulateIF.make_var_asserted")
    low = lambda x: is_root_level(x) or constval(x) == 0
    base = lambda f: f[1] and f[0][0] == "eq" and any(low(x) for x in f[0][1:]) and any(is_arg(strip(x), 4) or is_arg(x, 4) or
                                                                                        has_arg(x, 4) for x in f[0][1:]) or \
        f[0][0] == "lt" and (not f[1] and low(f[0][1]) and has_arg(f[0][2], 4) or f[1] and has_arg(f[0][1], 4) and
                             constval(f[0][2]) == 1)
    c.only_if("assign", I, ma, base, "the level being the root level", "implied:asserted")
    c.once_true("assign", I, base, ma, lambda x: I.nodes[I.pn[x]].kind == "return", "a literal fixed at the root level can stay "
                "selectable", "implied:asserted-always")
    rs = c.writes(M, "reason", val=lambda v: v[0] == "adt" and v[2] == "Decision" and has(v, lambda s: constval(s) == 0) or
                  v[0] == "adt" and v[2] == "None")
    c.always("assign", M, rs, "marking it as fixed", "asserted:reason")
    c.always("assign", M, out, "taking it out of the selection", "asserted:heap")


def clearing(c):
    F = c.flat("AssignStack.clear_asserted_literals")
    cl = [k for k in c.calls(F, "Vec.clear", "Vec.truncate", "Vec.drain") if has_field(c.args(F, k)[0], "trail")]
    c.floor("root-literals", 1, len(cl))
    cnt = c.writes(F, "num_asserted_vars", val=lambda v: has_field(v, "num_asserted_vars") and has_call(v, "len") and
                   has_field(v, "trail") and not has_name(v, "Sub"))
    zero = c.writes(F, "q_head", val=lambda v: constval(v) == 0)
    done = lambda f: not f[1] and f[0][0] == "true" and is_call(f[0][1], "remains")
    counted = {s[3] for k in cnt for s in subterms(c.wval(F, k)) if s and s[0] == "call" and last(s[1]) == "len" and
               len(s) > 3 and has_field(s[2][0], "trail")}
    c.before("root-literals", F, counted or cnt, cl, "counting the literals", "counted")
    c.together("root-literals", F, cl, cnt, "adding their number to the counter", "added")
    c.only_if("root-literals", F, cl, done, "everything having been propagated", "propagated")
    c.together("root-literals", F, cl, zero, "restarting the propagation pointer", "pointer")
    for k in cnt:
        for x in cl:
            p = F.path_after(k, lambda i: F.pn[i] == k, lambda i: F.pn[i] == x)
            c.ob("root-literals", p is None, f"{c.where(F, k)}: counted twice", "once", c.where(F, k))
    # nothing is propagated between the last check and the clean-up without being counted
    simp = c.calls(F, "AssignStack.propagate_at_root_level")
    p = None
    for s in simp:
        p = F.path_after(s, lambda i: F.pn[i] in cl, lambda i: any(
            done(f) or (f[1] and f[0][0] == "true" and is_call(f[0][1], "remains")) for f in ()) or
            (F.nodes[F.pn[i]].kind == "call" and "AssignStack.remains" in F.nodes[F.pn[i]].data[0]))
        c.ob("root-literals", p is None, f"{c.where(F, s)}: literals fixed by the clean-up are dropped unpropagated",
             "rechecked", c.where(F, s), F.show(p) if p else None)


# ------------------------------------------------------------------ P13
def unassigned_fact(vi):
    """the variable vi(t) has no value"""
    def p(f):
        t, b = f
        if t[0] == "is" and ((t[2] == "None") == b) and t[2] in ("None", "Some"):
            x = t[1]
        elif t[0] == "true" and is_call(t[1], "is_none", "is_some") and (last(t[1][1]) == "is_none") == b:
            x = t[1][2][0]
        else:
            return False
        return (has_field(x, "assign") or is_call(x, "assigned", "assign")) and vi(x)
    return p


def not_eliminated(vi):
    return F_flag(False, "ELIMINATED", vi)


def taking(c, V, roots, rets):
    """a variable taken from the heap reaches rets only when it is free, and is skipped only when it is not"""
    vi = lambda t: made_by(V, t, "get_heap_root")
    c.only_if("select", V, rets, unassigned_fact(vi), "the selected variable being unassigned", "select_var:free")
    c.only_if("select", V, rets, not_eliminated(vi), "the selected variable not being eliminated", "select_var:eliminated")
    for k in roots:
        for what, fact in (("free", unassigned_fact(vi)), ("eliminated", not_eliminated(vi))):
            p = V.path_after(k, lambda i: V.pn[i] in rets, lambda i: False, c.edge_ok(V, [fact]))
            c.ob("select", p is None, f"{c.where(V, k)}: a variable taken from the heap is returned unchecked ({what})",
                 "select_var:fresh-" + what, c.where(V, k), V.show(p) if p else None)
        # a variable dropped from the heap is not free
        alt = [lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Some" and has_field(f[0], "assign"),
               F_flag(True, "ELIMINATED"), lambda f: f[0][0] == "true" and not f[1] and is_call(f[0][1], "is_none"),
               lambda f: f[0][0] == "true" and f[1] and is_call(f[0][1], "is_some")]
        p = V.path_after(k, lambda i: V.pn[i] == k, lambda i: False, c.edge_ok(V, alt))
        c.ob("select", p is None, f"{c.where(V, k)}: a free variable taken from the heap can be skipped",
             "select_var:dropped", c.where(V, k), V.show(p) if p else None)


def no_more(name):
    """a fact saying that the counter is zero"""
    def p(f):
        t, b = f
        k = lambda x: has_name(x, name)
        z = lambda x, n: constval(x) == n
        if t[0] == "lt":
            return (not b and z(t[1], 0) and k(t[2])) or (b and k(t[1]) and z(t[2], 1))
        return t[0] == "eq" and b and ((k(t[1]) and z(t[2], 0)) or (k(t[2]) and z(t[1], 0)))
    return p


def ok_return(F):
    return lambda x: F.nodes[F.pn[x]].kind == "return" and (F.pval[x].get((0, 0)) or "??")[1] != "Err"


def mentions(term):
    """a predicate: contains the given term"""
    s = strip(term)
    return lambda t: has(strip(t), lambda x: x == s)


@prop("P13", "guarded-path, ordering and value-flow rules over MIR",
      "Whether the heap always yields the most active variable is not decided; that each removed entry is an assigned, "
      "eliminated or remembered one is.")
def p13(c):
    from props_prims import flags
    flags(c, "Var")
    S = c.flat("search")
    rem = F_true(False, "remains")
    dec = c.calls(S, "AssignStack.assign_by_decision", "PropagateIF.assign_by_decision")
    c.floor("decide", 1, len(dec))
    c.only_if("decide", S, dec, rem, "everything having been propagated", "search:propagated")
    for k in dec:
        c.ob("decide", has_call(c.args(S, k)[1], "select_decision_literal"), f"{c.where(S, k)}: decides "
             f"{tstr(c.args(S, k)[1])[:80]}", "search:selected", c.where(S, k))
    # completion
    done = no_more("NumUnassignedVar")
    change = dec + c.calls(S, "AssignStack.propagate", "PropagateIF.propagate", "AssignStack.cancel_until", "handle_conflict",
                           "AssignStack.clear_asserted_literals", "AssignStack.assign_by_implication",
                           "AssignStack.assign_at_root_level", "ClauseDB.vivify", "Eliminator.simplify")
    for what, fact in (("variables left to decide", done), ("unpropagated literals left", rem)):
        eo = c.edge_ok(S, [fact])
        bad = S._find(S.pstart, ok_return(S), lambda x: False, eo)
        c.ob("complete", bad is None, f"search: claims completion with {what}", "search:" + what.split()[0],
             S.root.where(), S.show(bad) if bad else None)
        for k in change:
            bad = S.path_after(k, ok_return(S), lambda x: False, eo)
            c.ob("complete", bad is None, f"{c.where(S, k)}: search can claim completion with {what}",
                 "search:stale-" + what.split()[0], c.where(S, k), S.show(bad) if bad else None)
    # selection
    D = c.flat("AssignStack.select_decision_literal")
    ls = c.calls(D, "Lit.from", "From.from")
    own = c.calls(D, "AssignStack.get_heap_root", "VarHeapIF.get_heap_root")
    lits = [k for k in ls if has_call(c.args(D, k)[0], "select_var") or any(
        made_by(D, t, "get_heap_root") for t in subterms(c.args(D, k)[0]) if t)]
    c.ob("select", bool(lits), f"{D.root.where()}: the decision literal is not made from the selected variable",
         "literal:var", D.root.where())
    for k in lits:
        for t in subterms(c.args(D, k)[0]):
            if t and t[0] == "tuple" and len(t[1]) == 2:
                c.ob("select", is_call(strip(t[1][0]), "select_var") or made_by(D, t[1][0], "get_heap_root"),
                     f"{c.where(D, k)}: decides {tstr(t[1][0])[:50]}", "literal:which", c.where(D, k))
    if own:
        taking(c, D, own, lits)
    V = c.flat("AssignStack.select_var") if not own or c.prog.fns("AssignStack.select_var", "splr.lib") else D
    roots = c.calls(V, "AssignStack.get_heap_root", "VarHeapIF.get_heap_root")
    c.floor("select", 1, len(roots))
    if V is not D:
        taking(c, V, roots, [n.id for n in V.nodes if n.kind == "return" and n.id in V.at])
        rt = V.term(("c", ((0, 0), ())))
        if rt[0] != "var":
            c.ob("select", made_by(V, rt, "get_heap_root"), f"select_var returns {tstr(rt)[:60]}", "select_var:returned",
                 V.root.where())
    # the order is rebuilt with every free variable
    R = c.flat("AssignStack.rebuild_order")
    ins = c.calls(R, "AssignStack.insert_heap", "VarHeapIF.insert_heap", "VarIdHeap.insert")
    alt = [F_flag(True, "ELIMINATED"), lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Some" and has_field(f[0], "assign"),
           lambda f: not f[1] and f[0][0] == "is" and f[0][2] == "None" and has_field(f[0], "assign")]
    c.each_iteration("rebuild", R, ins, "inserting a free variable", "each", alt)
    cl = c.calls(R, "AssignStack.clear_heap", "VarHeapIF.clear_heap", "VarIdHeap.clear")
    for k in ins:
        c.no_early_exit("rebuild", R, k, "the loop over the variables", "all")
        for x in cl:
            c.ob("rebuild", not c.reaches(R, k, x), f"{c.where(R, x)}: the heap is cleared after variables were inserted",
                 "order", c.where(R, x))
        rg = range_of(R, k)
        if rg:
            c.ob("rebuild", constval(rg[0]) in (0, 1) and is_call(strip(rg[1]), "len") and has_field(rg[1], "var"),
                 f"{c.where(R, k)}: runs over {tstr(rg[0])[:30]}..{tstr(rg[1])[:40]}", "range", c.where(R, k))
    # the heap never runs dry while variables are remembered
    G = c.flat("AssignStack.get_heap_root")
    root = c.calls(G, "VarIdHeap.get_root", "VarOrderIF.get_root")
    if c.prog.fns("AssignStack.clear_saved_trail", "splr.lib"):
        back = c.calls(G, "AssignStack.clear_saved_trail", "TrailSavingIF.clear_saved_trail")
        mine = lambda f: has_field(f[0], "var_order", "idxs") or has(f[0], lambda s: s[0] == "arg") and \
            not has_field(f[0], "trail", "trail_lim", "trail_saved")
        left = [lambda f: mine(f) and (F_true(False, "is_empty")(f) or f[0][0] == "lt" and f[1] and has_call(f[0][2], "len") or
                                       f[0][0] == "eq" and not f[1] and has_call(f[0], "len"))]
        c.before("refill", G, back, root, "putting back the remembered variables", "refill", left)
    for k in root:
        pd = c.calls(G, "AssignStack.percolate_down", "VarHeapIF.percolate_down")
        c.after("refill", G, [k], pd, "restoring the heap order", "percolate",
                [lambda f: f[0][0] == "lt" and not f[1] and has_call(f[0][2], "len"), F_true(True, "is_empty"),
                 lambda f: f[0][0] == "lt" and f[1] and has_call(f[0][1], "len")])
    # who removes variables from the heap
    who = c.who_calls("removed", ["AssignStack.remove_from_heap", "VarHeapIF.remove_from_heap"],
                      {"AssignStack.make_var_asserted", "AssignStack.make_var_eliminated"},
                      "takes a variable out of the selection", "remove_from_heap", "splr.lib")
    who += c.who_calls("removed", ["VarIdHeap.get_root", "VarOrderIF.get_root"], {"AssignStack.get_heap_root"},
                       "takes a variable out of the selection", "get_root", "splr.lib")
    who += c.who_calls("removed", ["AssignStack.get_heap_root", "VarHeapIF.get_heap_root"],
                       {"AssignStack.select_var", "AssignStack.select_decision_literal"},
                       "takes a variable out of the selection", "get_heap_root", "splr.lib")
    who += c.who_calls("removed", ["AssignStack.clear_heap", "VarHeapIF.clear_heap"], {"AssignStack.rebuild_order"},
                       "empties the selection", "clear_heap", "splr.lib")
    who += c.who_calls("removed", ["AssignStack.select_decision_literal", "VarSelectIF.select_decision_literal",
                                   "AssignStack.select_var"], {"search", "AssignStack.select_decision_literal"},
                       "takes a variable out of the selection", "select", "splr.lib")
    c.floor("removed", 5, who)
    saved(c)
    eliminated(c)
    heap(c)
    counters(c)
    forgotten(c)


def eliminated(c):
    """a variable is eliminated only while it is free"""
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure":
            continue
        if not any(op_fn(t[2]) and any(last(k) == "handle" for k in c.prog.callkeys(op_fn(t[2]), b.crate))
                   for _, t in body_calls(b)):
            continue
        if not c.is_known(b):
            continue
        F = c.flat(b)
        ks = [k for k in c.calls(F, "AssignStack.handle", "Instantiate.handle") if
              has(c.args(F, k)[1], lambda s: s[0] == "adt" and s[2] == "Eliminate") and
              any("asg" in str(x) for x in root_args(c.args(F, k)[0]))]
        for k in ks:
            n += 1
            v = [s for s in subterms(c.args(F, k)[1]) if s and s[0] == "adt" and s[2] == "Eliminate"][0][3][0][1]
            m = mentions(v)
            c.only_if("eliminate", F, [k], unassigned_fact(m), "the variable being unassigned", "free")
            for x in c.calls(F, "AssignStack.assign_at_root_level", "PropagateIF.assign_at_root_level"):
                p = F.path_after(x, lambda i: F.pn[i] == k, lambda i: False, c.edge_ok(F, [unassigned_fact(m)]))
                if p is not None:
                    # a resolvent: its literals never contain the variable
                    c.ob("eliminate", has_field(c.args(F, x)[1], "new_learnt"), f"{c.where(F, x)}: may assign the variable "
                         "that is eliminated next", "still-free", c.where(F, x), F.show(p))
    c.floor("eliminate", 1, n)
    M = c.flat("AssignStack.make_var_eliminated")
    arg = lambda t: is_arg(strip(t), 2) or has_arg(t, 2) or has(strip(t), lambda s: s[0] == "arg")
    on = [k for k in c.calls(M, "Var.turn_on", "FlagIF.turn_on", "Var.set", "FlagIF.set") if
          has_name(c.args(M, k)[1], "ELIMINATED")]
    was = F_flag(True, "ELIMINATED")
    c.always("eliminated", M, on, "marking the variable as eliminated", "mark", [was])
    cnt = c.writes(M, "num_eliminated_vars")
    c.always("eliminated", M, cnt, "counting the eliminated variable", "count", [was])
    c.only_if("eliminated", M, cnt, F_flag(False, "ELIMINATED"), "the variable not being eliminated yet", "count-once")
    out = c.calls(M, "AssignStack.remove_from_heap", "VarHeapIF.remove_from_heap")
    for k in on + out:
        t = c.args(M, k)[0 if k in on else 1]
        c.ob("eliminated", arg(t), f"{c.where(M, k)}: handles {tstr(t)[:60]}", "which", c.where(M, k))
    c.who_calls("eliminated", ["AssignStack.make_var_eliminated", "VarManipulateIF.make_var_eliminated"],
                {"AssignStack.handle"}, "marks a variable as eliminated", "make_var_eliminated", "splr.lib")


def taken_inside(F, k):
    """the value written by k is read inside the loop around k"""
    lp = loop_around(F, k)
    rv = F.nodes[k].data[1]
    if lp is None or rv[0] != "use" or rv[1][0] not in ("c", "m") or rv[1][1][1]:
        return False
    loc, seen = rv[1][1][0], set()
    while loc not in seen:
        seen.add(loc)
        ds = [d for d in F.defs.get(loc, ()) if d.id in F.at]
        if len(ds) == 1 and ds[0].kind == "assign" and ds[0].data[1][0] == "use" and ds[0].data[1][1][0] in ("c", "m") and \
                not ds[0].data[1][1][1][1]:
            loc = ds[0].data[1][1][1][0]
            continue
        return bool(ds) and all(d.id in lp[1] for d in ds)
    return False


def heap(c):
    """the two tables of the heap stay inverse to each other and its size counts the entries"""
    n = 0
    for fn in ("get_root", "insert", "remove"):
        F = c.flat("VarIdHeap." + fn)
        hs = [k for k in c.calls(F, "[T].swap", "Vec.swap") if has_top(c.args(F, k)[0], "heap")]
        ix = [k for k in c.calls(F, "[T].swap", "Vec.swap") if has_top(c.args(F, k)[0], "idxs")]
        n += len(hs) + len(ix)
        for k in hs:
            c.together("heap", F, [k], ix, "swapping the positions too", fn + ":paired")
            a, b = [strip(x) for x in c.args(F, k)[1:3]]
            for k2 in ix:
                x, y = [strip(t) for t in c.args(F, k2)[1:3]]
                ok = any(at(x, p, F) and at(y, q, F) for p, q in ((a, b), (b, a)))
                c.ob("heap", ok, f"{c.where(F, k2)}: the positions of {tstr(x)[:40]} and {tstr(y)[:40]} are swapped, not those "
                     f"of the entries at {tstr(a)[:30]} and {tstr(b)[:30]}", fn + ":same", c.where(F, k2))
        for k in ix:
            p = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: F.pn[i] in hs)
            q = F.path_after(k, lambda i: F.nodes[F.pn[i]].kind == "return", lambda i: F.pn[i] in hs)
            c.ob("heap", p is None or q is None, f"{c.where(F, k)}: positions change without the entries", fn + ":alone",
                 c.where(F, k))
        cnt = [w for w in idx0(F)]
        want = "Sub" if fn != "insert" else "Add"
        for w in cnt:
            v = strip(c.wval(F, w))
            if v[0] == "bin":
                c.ob("heap", v[1].startswith(want) and constval(v[3]) == 1 or v[1].startswith("Add") and constval(v[2]) == 1,
                     f"{c.where(F, w)}: the size becomes {tstr(v)[:50]}", fn + ":size", c.where(F, w))
            elif v[0] == "call" and (last(v[1]) in ("max", "min") or last(v[1]).startswith(("saturating_", "wrapping_"))):
                c.ob("heap", last(v[1]).endswith(want.lower()) and len(v[2]) > 1 and constval(v[2][1]) == 1,
                     f"{c.where(F, w)}: the size becomes {tstr(v)[:50]}", fn + ":size", c.where(F, w))
        for k in hs:
            rs = lambda i: F.nodes[F.pn[i]].kind == "return"
            p = F.path_after(k, rs, lambda i: F.pn[i] in cnt)
            q = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: F.pn[i] in cnt)
            c.ob("heap", p is None or q is None, f"{c.where(F, k)}: the size of the heap does not change with its entries",
                 fn + ":counted", c.where(F, k), F.show(p) if p else None)
        for w in cnt:
            p = F.path_after(w, lambda i: F.pn[i] in cnt, lambda i: False)
            c.ob("heap", p is None, f"{c.where(F, w)}: counted twice", fn + ":once", c.where(F, w))
    # an entry is removed only if present, inserted only if absent
    I = c.flat("VarIdHeap.insert")
    sw = [k for k in c.calls(I, "[T].swap")]
    here = F_any(F_true(False, "contains"), F_cmp("lt", lambda t: at0(t), lambda t: has_top(t, "idxs")))
    c.only_if("heap", I, sw, here, "the variable being absent", "insert:absent")
    Rm = c.flat("VarIdHeap.remove")
    there = F_any(F_true(True, "contains"), F_cmp("lt", lambda t: at0(t), lambda t: has_top(t, "idxs"), False))
    c.only_if("heap", Rm, c.calls(Rm, "[T].swap"), there, "the variable being present", "remove:present")
    for fn in ("percolate_up", "percolate_down"):
        F = c.flat("AssignStack." + fn)
        hw, iw = [], []
        for nd in F.nodes:
            if nd.kind != "assign" or nd.id not in F.at or not nd.data[0][1]:
                continue
            t = F.place_term(nd.data[0])
            if t[0] == "index" and has_top(t[1], "heap"):
                hw.append((nd.id, t[2], c.wval(F, nd.id)))
            elif t[0] == "index" and has_top(t[1], "idxs"):
                iw.append((nd.id, t[2], c.wval(F, nd.id)))
        n += len(hw)
        # the entry taken out at the start is put back before the end
        moves = [k for k, q, v in hw if taken_inside(F, k)]
        for k in moves:
            p = F.path_after(k, lambda i: F.nodes[F.pn[i]].kind == "return", lambda i: F.pn[i] in [x[0] for x in hw if x[0] not in moves])
            c.ob("heap", p is None, f"{c.where(F, k)}: an entry is moved and the one it replaces is never put back", fn + ":hole",
                 c.where(F, k), F.show(p) if p else None)
        for k, q, v in hw:
            good = [k2 for k2, v2, q2 in iw if unc(v2) == unc(v) and unc(q2) == unc(q)]
            # ... before either value changes
            chg = {d.id for s in subterms((q, v)) if s and s[0] == "var" for d in F.defs.get(s[1], []) if
                   d.kind != "assign" or not d.data[0][1]}
            p = F.path_after(k, lambda i: F.nodes[F.pn[i]].kind == "return" or F.pn[i] in chg or
                             F.pn[i] in [x[0] for x in hw], lambda i: F.pn[i] in good)
            if p is not None and not within(F, k, good, chg):
                p = None
            c.ob("heap", p is None, f"{c.where(F, k)}: {tstr(v)[:40]} is placed at {tstr(q)[:30]} without recording its "
                 "position", fn + ":position", c.where(F, k), F.show(p) if p else None)
        for k2, v2, q2 in iw:
            good = [k for k, q, v in hw if unc(v2) == unc(v) and unc(q2) == unc(q)]
            p = F.path_after(k2, lambda i: F.nodes[F.pn[i]].kind == "return" or F.pn[i] in [x[0] for x in iw],
                             lambda i: F.pn[i] in good)
            if p is not None and not within(F, k2, good, ()):
                p = None
            c.ob("heap", p is None, f"{c.where(F, k2)}: records a position without placing the entry", fn + ":entry",
                 c.where(F, k2), F.show(p) if p else None)
    c.floor("heap", 10, n)
    # nobody else touches the tables
    okw = {"VarIdHeap.get_root", "VarIdHeap.insert", "VarIdHeap.remove", "VarIdHeap.clear", "VarIdHeap.new",
           "AssignStack.percolate_up", "AssignStack.percolate_down", "AssignStack.expand_heap"}
    m = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in FOREIGN_TRAITS:
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                fs = [e for e in s[2][1] if e[0] == "f"]
                if s[3][0] in ("ref", "raw") and s[3][1] == "mut":
                    fs = [e for e in s[3][2][1] if e[0] == "f"]
                if fs and fs[-1][2].endswith("VarIdHeap"):
                    m += 1
                    for o in c.owner(b):
                        c.ob("heap", o in okw, f"{b.file}:{s[1]}: {o} changes the selection heap", "who:" + o, b.where(s[1]))
    C = c.flat("VarIdHeap.clear")
    ws = []
    for nd in C.nodes:
        if nd.kind == "assign" and nd.id in C.at and nd.data[0][1]:
            t = C.place_term(nd.data[0])
            if t[0] == "index" and has_top(t[1], "heap", ) or t[0] == "index" and has_top(t[1], "idxs"):
                ws.append(nd.id)
                v = c.wval(C, nd.id)
                c.ob("heap", unc(v) == unc(t[2]) or constval(v) == constval(t[2]) is not None, f"{c.where(C, nd.id)}: the entry at "
                     f"{tstr(t[2])[:40]} becomes {tstr(v)[:40]}", "clear:identity", c.where(C, nd.id))
    H = c.flat("VarIdHeap.contains")
    t = unc(H.term(("c", ((0, 0), ()))))
    if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge"):
        a, b = (t[2], t[3]) if t[1] in ("Lt", "Le") else (t[3], t[2])
        size = lambda x: at0(x) or is_call(strip(x), "len")
        ok = t[1] in ("Le", "Ge") if not size(a) else False
        ok = ok and not has_call(t, "max", "min", "saturating_add", "saturating_sub")
        c.ob("heap", ok, f"{H.root.where()}: takes {tstr(t)[:60]} for being present", "contains", H.root.where())
    X = c.flat("AssignStack.expand_heap")
    for fld in ("heap", "idxs"):
        ps = [k for k in c.calls(X, "Vec.push", "Vec.resize", "Vec.extend") if has_top(c.args(X, k)[0], fld)]
        c.always("heap", X, ps, f"growing {fld}", "expand:" + fld)
        for k in ps:
            if last(X.nodes[k].data[0][0]) == "push":
                v = strip(c.args(X, k)[1])
                c.ob("heap", constval(v) is None and not (v[0] == "bin" and has_call(v, "len")), f"{c.where(X, k)}: the new entry of "
                     f"{fld} is {tstr(v)[:40]}", "expand:value:" + fld, c.where(X, k))


def within(F, k, good, chg):
    """some path reaches k in its iteration with no node of good before it (or with a node of chg in between)"""
    h = loop_around(F, k)
    st = list(F.at[h[0]]) if h else [F.pstart]
    ok = (lambda i, j, e: F.pn[j] in h[1] and F.pn[j] != h[0]) if h else None
    if F._find(st, lambda i: F.pn[i] == k, lambda i: F.pn[i] in good, ok) is not None:
        return True
    for x in chg:
        for i in F.at.get(x, ()):
            if F._find(i, lambda i: F.pn[i] == k, lambda i: F.pn[i] in good, ok) is not None:
                return True
    return False


def unc(t):
    """drop integer casts"""
    while isinstance(t, tuple) and t and t[0] == "cast":
        t = t[3]
    if isinstance(t, tuple):
        return tuple(unc(x) if isinstance(x, tuple) else x for x in t)
    return t


def has_top(t, name):
    """the container (last field) is called name"""
    t = strip(t)
    return isinstance(t, tuple) and t[0] == "field" and t[2] == name or \
        (isinstance(t, tuple) and t[0] == "index" and has_top(t[1], name))


def at0(t):
    t = unc(strip(t))
    return t[0] == "index" and has_top(t[1], "idxs") and constval(t[2]) == 0


def idx0(F):
    out = []
    for nd in F.nodes:
        if nd.kind == "assign" and nd.id in F.at and nd.data[0][1]:
            t = strip(F.place_term(nd.data[0]))
            if t[0] == "index" and has_top(t[1], "idxs") and constval(t[2]) == 0:
                out.append(nd.id)
    return out


def at(v, p, F):
    """v is the variable stored at heap position p"""
    v, p = unc(strip(v)), unc(strip(p))
    if v[0] == "index" and has_top(v[1], "heap") and unc(v[2]) == p:
        return True
    return p[0] == "index" and has_top(p[1], "idxs") and unc(p[2]) == v


def counters(c):
    D = None
    for b in c.prog.fns("AssignStack.derefer"):
        if b.crate == "splr.lib":
            F = c.flat(b)
            for n in F.nodes:
                if n.kind != "assign" or n.id not in F.at:
                    continue
                fs = F.facts_at(n.id)
                k = [f[0][2] for f in fs if f[1] and f[0][0] == "is"]
                if "NumUnassignedVar" in k and n.data[0] == ((0, 0), ()):
                    D = True
                    t = F.rv_term(n.data[1], 0, (), n)
                    lin = linear(t)
                    if lin is None:
                        continue
                    want = {"num_vars": 1, "num_asserted_vars": -1, "num_eliminated_vars": -1, "len(trail)": -1}
                    c.ob("counters", lin == want, f"{c.where(F, n.id)}: the number of unassigned variables is {lin}", "unassigned",
                         c.where(F, n.id))
    okw = {"num_asserted_vars": {"AssignStack.clear_asserted_literals"}, "num_eliminated_vars": {"AssignStack.make_var_eliminated"},
           "num_vars": {"AssignStack.handle"}}
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in FOREIGN_TRAITS:
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                fs = [e for e in s[2][1] if e[0] == "f"]
                if s[3][0] in ("ref", "raw") and s[3][1] == "mut":
                    fs = [e for e in s[3][2][1] if e[0] == "f"]
                if fs and fs[-1][1] in okw and fs[-1][2].endswith("AssignStack"):
                    n += 1
                    for o in c.owner(b):
                        c.ob("counters", o in okw[fs[-1][1]], f"{b.file}:{s[1]}: {o} changes {fs[-1][1]}", "who:" + fs[-1][1] + ":" + o,
                             b.where(s[1]))
    c.floor("counters", 3, n)
    for fn, fld in (("make_var_eliminated", "num_eliminated_vars"), ("handle", "num_vars"),
                    ("clear_asserted_literals", "num_asserted_vars")):
        F = c.flat("AssignStack." + fn)
        for w in c.writes(F, fld):
            lin = linear(c.wval(F, w))
            if lin is not None:
                want = {fld: 1, "1": 1} if fn != "clear_asserted_literals" else {fld: 1, "len(trail)": 1}
                c.ob("counters", lin == want, f"{c.where(F, w)}: {fld} becomes {lin}", fld, c.where(F, w))
    H = c.flat("AssignStack.handle")
    new = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "NewVar"
    g = c.writes(H, "num_vars")
    c.only_if("counters", H, g, new, "a new variable", "new")
    for w in g:
        ps = [k for k in c.calls(H, "Vec.push") if has_top(c.args(H, k)[0], "var")]
        ex = c.calls(H, "AssignStack.expand_heap", "VarHeapIF.expand_heap")
        for what, ks in (("its record", ps), ("its place in the heap", ex)):
            rs = lambda i: H.nodes[H.pn[i]].kind == "return"
            p = H.path_after(w, rs, lambda i: H.pn[i] in ks)
            q = H._find(H.pstart, lambda i: H.pn[i] == w, lambda i: H.pn[i] in ks)
            c.ob("counters", p is None or q is None, f"{c.where(H, w)}: a variable is added without {what}", "new:" + what,
                 c.where(H, w))


def linear(t, sign=1, acc=None):
    """{field or len(field) or '1': coefficient} of a sum; None if it is something else"""
    top = acc is None
    acc = {} if top else acc
    t = unc(strip(t))
    if t[0] == "bin" and t[1] in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "AddUnchecked", "SubUnchecked"):
        if linear(t[2], sign, acc) is None or linear(t[3], sign if t[1].startswith("Add") else -sign, acc) is None:
            return None
    elif t[0] == "field":
        acc[t[2]] = acc.get(t[2], 0) + sign
    elif constval(t) is not None and isinstance(constval(t), int):
        acc["1"] = acc.get("1", 0) + sign * constval(t)
    elif is_call(t, "len") and t[2] and strip(t[2][0])[0] == "field":
        k = f"len({strip(t[2][0])[2]})"
        acc[k] = acc.get(k, 0) + sign
    elif is_call(t, "stack_len"):
        acc["len(trail)"] = acc.get("len(trail)", 0) + sign
    else:
        return None
    return {k: v for k, v in acc.items() if v} if top else acc


def forgotten(c):
    """a remembered variable is dropped only when it is assigned again or put back into the heap"""
    if not c.prog.fns("AssignStack.reuse_saved_trail", "splr.lib"):
        return
    F = c.flat("AssignStack.reuse_saved_trail", inline=("AssignStack.truncate_trail_saved",))
    ins = c.calls(F, "AssignStack.insert_heap", "VarHeapIF.insert_heap")
    asg = c.calls(F, "AssignStack.assign_by_implication", "PropagateIF.assign_by_implication")
    back = c.calls(F, "AssignStack.clear_saved_trail", "TrailSavingIF.clear_saved_trail")
    tr = [k for k in c.calls(F, "Vec.truncate") if has_top(c.args(F, k)[0], "trail_saved")]
    cut = [k for k in c.calls(F, "Vec.clear") if has_top(c.args(F, k)[0], "trail_saved")]
    busy = [lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Some" and has_call(f[0], "assigned")]
    anchor = ins + asg
    c.floor("remembered", 3, len(ins) + len(asg) + len(tr) + len(cut))
    loops = [x for x in (loop_around(F, k) for k in asg) if x]
    c.ob("remembered", bool(loops), f"{F.root.where()}: the remembered literals are not walked in a loop", "walk", F.root.where())
    if not loops:
        return
    h, body = loops[0]
    c.each_iteration("remembered", F, asg, "assigning the literal", "each", busy)
    for k in cut:
        ex = [f for f in F.facts_at(k) if f[1] and f[0][0] == "is" and f[0][2] == "None" and has_call(f[0], "next", "next_back")]
        own = c._header_tests(F, h, body)

        def through(i, j, e):
            # leaving the walk by its own test: every literal was looked at
            return not (F.pn[i] in own and F.pn[j] not in body)
        p = None if ex else F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: F.pn[i] in back, through)
        c.ob("remembered", p is None, f"{c.where(F, k)}: remembered variables are dropped before all were looked at", "cleared",
             c.where(F, k), F.show(p) if p else None)
    for k in tr:
        lo = [d for d in c.reads(F, F.nodes[k].data[1][1])]
        # leaving the loop at element i and keeping i + 1 elements: element i is inserted or put back
        free = [f for f in F.facts_at(k)]
        lin = unc(strip(c.args(F, k)[1]))
        if lin[0] == "bin" and lin[1].startswith("Add") and constval(lin[3]) == 1 and has_call(lin[2], "next", "next_back"):
            continue           # the current element is kept with those before it
        if has_call(lin, "next", "next_back") and lin[0] != "bin":
            p = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: F.pn[i] in ins + asg, c.edge_ok(F, busy))
            q = F.path_after(k, lambda i: F.nodes[F.pn[i]].kind == "return", lambda i: F.pn[i] in ins + back)
            c.ob("remembered", p is None or q is None, f"{c.where(F, k)}: the current element is dropped without being put "
                 "back", "current", c.where(F, k))
        elif lin[0] == "bin" and lin[1].startswith("Sub") and has_call(lin, "next", "next_back"):
            c.ob("remembered", False, f"{c.where(F, k)}: drops elements that were not looked at", "cut", c.where(F, k))
    okp = {"AssignStack.save_trail"}
    m = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in FOREIGN_TRAITS:
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            for s in blk["s"]:
                if s[0] != "=" or s[3][0] not in ("ref", "raw") or s[3][1] != "mut":
                    fs = [e for e in s[2][1] if e[0] == "f"] if s[0] == "=" else []
                else:
                    fs = [e for e in s[3][2][1] if e[0] == "f"]
                if fs and fs[-1][1] == "trail_saved":
                    m += 1
                    for o in c.owner(b):
                        c.ob("remembered", o in {"AssignStack.save_trail", "AssignStack.reuse_saved_trail",
                                                 "AssignStack.clear_saved_trail", "AssignStack.truncate_trail_saved"},
                             f"{b.file}:{s[1]}: {o} changes the remembered literals", "who:" + o, b.where(s[1]))
    c.floor("remembered", 3, m)
    c.who_calls("remembered", ["AssignStack.truncate_trail_saved"], {"AssignStack.reuse_saved_trail"}, "drops remembered literals",
                "truncate", "splr.lib")


# ------------------------------------------------------------------ P15
REWRITES = ("ClauseDB.remove_clause", "ClauseDB.transform_by_elimination", "ClauseDB.transform_by_replacement",
            "ClauseDB.transform_by_restriction", "ClauseDB.transform_by_simplification", "ClauseDB.delete_clause",
            "AssignStack.make_var_eliminated")


class Saved(Levels):
    """(decision level, saved trail: E empty, S made from the present clauses, T made before a rewriting)"""
    init = (ROOT, "E")

    def up(self, st):
        return (DEEP, st[1])

    def down(self, st, how):
        if how == "backtrack_sandbox":
            return {(ROOT, st[1])}
        return {(ROOT, "S" if st[0] != ROOT else st[1])}

    def back(self, st):
        return {st} if st[0] == ROOT else {st, (st[0], "S")}

    def event(self, st, ev):
        if has_name(ev, "Reinitialize"):
            return (ROOT, "E")
        return (st[0], "E") if has_name(ev, "Stage") else st

    def other(self, st, ks):
        if any(k in ("AssignStack.clear_saved_trail", "TrailSavingIF.clear_saved_trail") for k in ks):
            return (st[0], "E")
        if st[1] == "S" and any(k in REWRITES or k.replace("IF.", ".") in REWRITES for k in ks):
            return (st[0], "T")
        return st

    def wrong(self, st):
        return st[1] == "T"

    def known_root(self, st):
        return (ROOT, st[1])


@prop("P15", "typestate analysis of the saved trail with function summaries over the whole call graph, and value-flow rules (MIR)",
      "The state of the remembered trail (none, current, older than a rewriting) is followed through every function of the "
      "library. That a reason that still exists still implies its literal under the present assignment is the invariant of the "
      "trail-saving method and is not decided.")
def p15(c):
    if not c.prog.fns("AssignStack.reuse_saved_trail", "splr.lib"):
        c.ob("replay", True, "no trail saving", "none")
        return
    sinks = ("AssignStack.reuse_saved_trail", "TrailSavingIF.reuse_saved_trail")
    L = Saved(c, sinks, also=REWRITES + ("AssignStack.clear_saved_trail",))
    n = 0
    for u in sorted(L.lev):
        b = c.prog.bodies[u]
        if b.kind == "closure" or not c.is_known(b) or any(k in BASE_UP + BASE_DOWN for k in b.keys):
            continue
        L.summary(b, L.init)
        F = c.flat(b)
        n += sum(1 for x in F.nodes if x.kind == "call" and x.id in F.at and any(k in sinks for k in x.data[0]))
        bad = L.viol.get(u, [])
        for nid, s, p in bad:
            c.ob("replay", False, f"{c.where(F, nid)}: literals remembered before clauses were removed or rewritten can be "
                 "replayed", b.key + ":" + last(F.nodes[nid].data[0][0]), c.where(F, nid), F.show(p))
        c.ob("replay", not bad, "", b.key)
    c.floor("replay", 1, n)
    # a later call must not find a remembered trail that became invalid
    for b in entries(L):
        if b.selfadt not in ("Solver", "SolverIter"):
            continue
        outs = L.summary(b, L.init)
        F = c.flat(b)
    # the primitives
    F = c.flat("AssignStack.handle")
    cl = c.calls(F, "AssignStack.clear_saved_trail", "TrailSavingIF.clear_saved_trail")
    for v in ("Stage", "Reinitialize"):
        isv = lambda f, v=v: f[1] and f[0][0] == "is" and f[0][2] == v
        m = c.once_true("primitives", F, isv, cl, lambda x: F.nodes[F.pn[x]].kind == "return",
                        f"{v} keeps the remembered trail", "handle:" + v)
        c.floor("primitives:" + v, 1, m)
    C = c.flat("AssignStack.clear_saved_trail")
    wipe = [k for k in c.calls(C, "Vec.clear", "Vec.drain", "Vec.truncate", "take", "replace", "Vec.pop") if
            has_field(c.args(C, k)[0], "trail_saved")] + c.writes(C, "trail_saved")
    c.always("primitives", C, wipe, "emptying the remembered trail", "clear",
             [F_true(True, "is_empty"), lambda f: f[1] and f[0][0] == "eq" and has_field(f[0], "trail_saved")])
    save(c)
    reuse(c)


def save(c):
    F = c.flat("AssignStack.save_trail")
    push = [k for k in c.calls(F, "Vec.push", "Vec.insert") if has_field(c.args(F, k)[0], "trail_saved")]
    rs = c.writes(F, "reason_saved")
    c.floor("remember", 2, len(push) + len(rs))
    cl = c.calls(F, "AssignStack.clear_saved_trail", "TrailSavingIF.clear_saved_trail")
    c.before("remember", F, cl, push, "dropping the older remembered trail", "fresh")
    for k in push:
        mine = [w for w in rs if loop_around(F, w) and loop_around(F, k) and loop_around(F, w)[0] == loop_around(F, k)[0]]
        p = F.path_after(k, lambda i: F.pn[i] == loop_around(F, k)[0], lambda i: F.pn[i] in mine) if loop_around(F, k) else None
        q = F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: F.pn[i] in mine)
        c.ob("remember", p is None or q is None and bool(mine), f"{c.where(F, k)}: a literal is remembered without its reason",
             "reason", c.where(F, k), F.show(p) if p else None)
        v = strip(c.args(F, k)[1])
        for w in mine:
            d = strip(F.place_term(F.nodes[w].data[0]))
            r = strip(c.wval(F, w))
            c.ob("remember", has(d, lambda s: s == v), f"{c.where(F, w)}: the reason is kept for {tstr(d)[:60]}", "whose",
                 c.where(F, w))
            if d[0] == "field" and r[0] == "field":
                c.ob("remember", r[2] == "reason" and r[1] == d[1], f"{c.where(F, w)}: remembers {tstr(r)[:60]}", "which",
                     c.where(F, w))
        # order: latest first, replayed from the end
    for w in rs:
        r = c.wval(F, w)
        c.ob("remember", not (r[0] == "adt"), f"{c.where(F, w)}: remembers {tstr(r)[:50]} instead of the reason", "value",
             c.where(F, w))
    revs = [has_call(F.term(F.nodes[m].data[1][0]), "rev") for k in push for m in (next_of(F, k),) if m is not None]
    R = c.flat("AssignStack.reuse_saved_trail")
    asg = c.calls(R, "AssignStack.assign_by_implication", "PropagateIF.assign_by_implication")
    rr = [has_call(R.term(R.nodes[m].data[1][0]), "rev") for k in asg for m in (next_of(R, k),) if m is not None]
    if revs and rr and len(set(revs)) == 1 and len(set(rr)) == 1 and range_of(F, push[0]) and \
            last(F.nodes[push[0]].data[0][0]) == "push":
        c.ob("remember", revs[0] == rr[0], f"{R.root.where()}: the trail is replayed in the wrong order", "order", R.root.where())


def next_of(F, nid):
    r = loop_around(F, nid)
    if not r:
        return None
    for m in r[1]:
        n = F.nodes[m]
        if n.kind == "call" and last(n.data[0][0]) in ("next", "next_back") and n.data[1] and \
                loop_around(F, m) and loop_around(F, m)[0] == r[0]:
            return m
    return None


def reuse(c):
    F = c.flat("AssignStack.reuse_saved_trail")
    asg = c.calls(F, "AssignStack.assign_by_implication", "PropagateIF.assign_by_implication")
    c.floor("recheck", 1, len(asg))
    for k in asg:
        a = c.args(F, k)
        lit, why, lvl = strip(a[1]), a[2], a[3]
        c.ob("recheck", has_field(a[1], "trail_saved"), f"{c.where(F, k)}: assigns {tstr(a[1])[:60]}", "which", c.where(F, k))
        none = lambda f: f[0][0] == "is" and (f[0][2] == "None") == f[1] and f[0][2] in ("None", "Some") and \
            has_call(f[0][1], "assigned") and has(strip(f[0][1]), lambda s: s == lit)
        none2 = lambda f: f[0][0] == "true" and f[1] and is_call(f[0][1], "is_none") and has_call(f[0][1], "assigned", "assign")
        c.only_if("recheck", F, [k], F_any(none, none2), "the literal being unassigned now", "free")
        c.ob("recheck", has_field(why, "reason_saved") and has(strip(why), lambda s: s == lit) or why[0] == "adt" and
             has_field(why, "reason_saved"), f"{c.where(F, k)}: the reason is {tstr(why)[:60]}", "reason", c.where(F, k))
        dec = lambda f: f[0][0] == "is" and f[0][2] == "Decision" and f[1] and has_field(f[0][1], "reason_saved")
        good = lambda f: f[0][0] == "is" and f[0][2] in ("BinaryLink", "Implication") and f[1] and \
            has_field(f[0][1], "reason_saved") or f[0][0] == "is" and f[0][2] == "Decision" and not f[1] and \
            has_field(f[0][1], "reason_saved")
        c.only_if("recheck", F, [k], good, "the literal having been implied by a clause", "implied")
        lv = strip(lvl)
        c.ob("recheck", (has_call(lv, "decision_level") or has_field(lv, "trail_lim")) and not has(lv, lambda s: s[0] == "bin"), f"{c.where(F, k)}: at level "
             f"{tstr(lv)[:40]}", "level", c.where(F, k))
    c.each_iteration("recheck", F, asg, "assigning the literal", "each",
                     [lambda f: f[1] and has_call(f[0], "assigned", "assign") and
                      (f[0][0] in ("true", "eq") or f[0][0] == "is" and f[0][2] == "Some")])
    errs = [n.id for n in F.nodes if n.kind == "assign" and n.id in F.at and n.data[0] == ((0, 0), ()) and
            n.data[1][0] == "agg" and n.data[1][1].get("variant") == "Err"]
    false = lambda f: f[0][0] == "true" and not f[1] and has_call(f[0][1], "assigned") or \
        f[0][0] == "eq" and f[1] and has_call(f[0], "assigned") and has(f[0], lambda s: constval(s) in (0, False))
    for k in errs:
        c.only_if("recheck", F, [k], false, "the literal being false now", "conflict")
        t = c.wval(F, k)
        tp = next((s for s in subterms(t) if s and s[0] == "tuple" and len(s[1]) == 2), None)
        if tp:
            l, r = tp[1]
            imp = r[0] == "adt" and r[2] == "Implication"
            ok = has_field(r, "reason_saved") and not is_call(strip(l), "not", "neg") and ((has_call(l, "lit0") and has_field(l, "reason_saved")) or
                                                   has_field(l, "trail_saved"))
            ok = ok and not (r[0] == "adt" and r[2] == "BinaryLink" and has_call(r, "lit0", "lit1", "index", "not", "neg"))
            c.ob("recheck", ok, f"{c.where(F, k)}: reports {tstr(l)[:60]} with {tstr(r)[:60]}", "reported", c.where(F, k))
    # in a conflict the result is reported
    m = c.once_true("recheck", F, lambda f: f[0][0] == "true" and not f[1] and has_call(f[0][1], "assigned"), errs,
                    lambda x: F.nodes[F.pn[x]].kind == "return" or F.pn[x] in asg,
                    "a literal that became false is passed over", "reported-always",
                    [lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Decision"])
    # only implied literals are looked at after a decision: the walk stops there
    heads = {loop_around(F, k)[0] for k in asg if loop_around(F, k)}
    m = c.once_true("recheck", F, lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Decision" and
                    has_field(f[0][1], "reason_saved"), [], lambda x: F.pn[x] in heads,
                    "the replay continues beyond a remembered decision", "decision",
                    [lambda f: f[1] and f[0][0] == "true" and has_call(f[0][1], "assigned")])
    c.floor("recheck:decision", 0, m)
    c.who_calls("replay", ["AssignStack.reuse_saved_trail", "TrailSavingIF.reuse_saved_trail"], {"AssignStack.propagate"},
                "replays the remembered trail", "reuse", "splr.lib")
    c.who_calls("replay", ["AssignStack.save_trail", "TrailSavingIF.save_trail"], {"AssignStack.cancel_until"},
                "remembers a trail", "save", "splr.lib")
