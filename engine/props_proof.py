"""P04 additions to the proof, P05 deletions from the proof, P06 the proof file."""
import re
from rules import *
from registry import prop
from paths import machine
from props_answers import adt_nodes, errlike
from props_model import lin

STORE_ADD = ("CertificationStore.add_clause",)
STORE_DEL = ("CertificationStore.delete_clause",)
UNIT = ("ClauseDB.certificate_add_assertion",)
ROOT = ("AssignStack.assign_at_root_level",)
# user-facing entry points: what they assign is an axiom, not a derived literal
INPUT_FNS = {"Solver.add_unchecked_clause", "Solver.add_assignment", "Solver.inject_assignment"}
GROW = {"push", "insert", "extend", "extend_from_slice", "append", "resize", "splice"}
CUT = {"clear", "pop", "remove", "swap_remove", "truncate", "drain", "retain", "retain_mut", "dedup", "dedup_by_key",
       "split_off", "set_len"}


def is_lits(t):
    """the literal vector of a clause"""
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "field" and t[2] == "lits"


def content_events(F, made=False):
    """{flat id: kind} of the places where the literal vector of a clause changes as a whole; with made, also of those
    where a clause comes into being with its literals"""
    ev = {}
    for n in F.nodes:
        if n.id not in F.at:
            continue
        if n.kind == "call" and n.data[0]:
            k = n.data[0][0]
            a = n.data[1]
            if not a:
                continue
            if k in ("swap", "replace", "take") or k.startswith("mem."):
                ts = [F.term(x) for x in a]
                if any(is_lits(t) for t in ts):
                    ev[n.id] = ("swap", [t for t in ts if not is_lits(t)])
            elif k.startswith("Vec.") and last(k) in (GROW | CUT):
                if is_lits(F.term(a[0])):
                    ev[n.id] = ("edit", last(k))
        elif n.kind == "assign" and n.data[0][1] and n.data[0][1][-1][0] == "f" and n.data[0][1][-1][1] == "lits":
            ev[n.id] = ("set", [F.rv_term(n.data[1], 0, (), n)])
        elif made and n.kind == "assign" and n.data[1][0] == "agg" and n.data[1][1].get("k") == "adt":
            t = F.rv_term(n.data[1], 0, (), n)
            t = dict(t[3]).get("lits") if t[0] == "adt" and last_type(t[1]) == "Clause" else None
            if t is not None and not has_call(t, "default", "new", "with_capacity"):
                ev[n.id] = ("set", [t[2][0] if is_call(t, "take", "replace") else t])
    return ev


def last_type(t):
    return t.rsplit("::", 1)[-1]


def exchanges(F, nid):
    """the event leaves the old content in the place the new one came from"""
    n = F.nodes[nid]
    if n.kind == "call":
        return n.data[0][0] == "swap"
    t = F.rv_term(n.data[1], 0, (), n)
    t = dict(t[3]).get("lits") if t[0] == "adt" else t
    return is_call(t, "take", "replace")


def snapshots(F):
    """calls that copy a clause's literals: node id -> term prefix"""
    out = set()
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and n.data[0] and \
                last(n.data[0][0]) in ("clone", "to_vec", "collect", "replace", "take", "to_owned"):
            if any(has(F.term(a), is_lits) for a in n.data[1]):
                out.add(n.id)
    return out


def record_machine(c, F, rule, key, adds, dels, need_delete, excuse, good_return):
    """whenever a clause's literals change, the new content is added to the proof and, if need_delete, the old one is
    deleted, in this order, before the function returns"""
    ev = content_events(F, True)
    snap = snapshots(F)
    if not c.ob(rule, bool(ev), f"{F.root.where()}: no change of a clause's literals found", key + ":sites", F.root.where()):
        return
    where = {}

    def content(nid, st):
        """is the argument the new or the old content in state st"""
        t = F.term(F.nodes[nid].data[1][1])
        swapped = st[0]
        if is_lits(t):
            return "new" if swapped else "old"
        if t[0] in ("arg", "var", "phi") or t[0] == "call":
            # the other operand of the exchange
            for e, (k, ts) in ev.items():
                if k in ("swap", "set") and any(same(t, x) for x in (ts or [])):
                    if exchanges(F, e):
                        return "old" if swapped else "new"
                    return "new"
            if t[0] == "call" and last(t[1]) in ("replace", "take"):
                return "old"
            if t[0] == "call" and has(t, is_lits) and last(t[1]) in ("clone", "to_vec", "to_owned"):
                r = F.reads(F, F.nodes[nid].data[1][1]) if False else c.reads(F, F.nodes[nid].data[1][1])
                sn = [x for x in r if x in snap]
                if sn and not any(c.reaches(F, e, s) for e in ev for s in sn):
                    return "old"
                return "new" if sn else None
        return None

    def step(st, n):
        sw, add, dele, bad = st
        if n.id in ev:
            return (True, add, dele, bad)
        if n.id in adds:
            w = content(n.id, st)
            if w != "new":
                return (sw, add, dele, "adds a literal list that is not the clause's new content")
            return (sw, True, dele, bad)
        if n.id in dels:
            w = content(n.id, st)
            if w != "old":
                return (sw, add, dele, "deletes a literal list that is not the clause's old content")
            if not add:
                return (sw, add, dele, "deletes the old clause before the new one is recorded")
            return (sw, add, True, bad)
        return st

    def bad(st, n, i):
        sw, add, dele, b = st
        if n.kind != "return":
            return False
        if b:
            where["m"] = b
            return True
        if not good_return(i):
            return False
        if sw and not add:
            where["m"] = "the new content of a clause is not recorded"
            return True
        if sw and need_delete and not dele:
            where["m"] = "the replaced content of a clause is not deleted"
            return True
        if not sw and (add or dele):
            where["m"] = "a proof line is written although no clause changed"
            return True
        return False

    p = c.automaton(F, F.pstart, (False, False, False, None), step, bad, c.edge_ok(F, excuse))
    c.ob(rule, p is None, f"{F.root.where()}: {where.get('m', '')}", key, F.root.where(), F.show(p) if p else None)


def inactive(f):
    return f[0][0] == "true" and not f[1] and is_call(f[0][1], "is_active")


def return_variant(F):
    d = {}
    for i, av in F.returns():
        d[i] = av[1] if av is not None and len(av) > 1 else None
    return d


@prop("P04", "path automaton and must-precede analysis over MIR, with callee inlining",
      "Decides that each derived literal and each new or shortened clause is written to the proof on every path before "
      "it takes effect and before what it replaces is deleted; whether a line is implied by the earlier ones is not "
      "decided.")
def p04(c):
    # derived literals
    owners = {}
    for b, line in c.callers(*ROOT, crate="splr.lib"):
        for o in c.owner(b):
            owners.setdefault(o, []).append((b, line))
    n = 0
    for o in sorted(owners):
        if o in INPUT_FNS:
            continue
        try:
            F = c.flat(o)
        except Missing:
            c.ob("unit", False, f"{o} assigns at root level and cannot be analysed", "owner:" + o)
            continue
        sites = c.calls(F, *ROOT)
        certs = c.calls(F, *UNIT)
        for s in sites:
            n += 1
            lit = c.args(F, s)[1]
            A = [x for x in certs if same(c.args(F, x)[1], lit)]
            c.before("unit", F, A, [s], "the literal being recorded in the proof", o)
    c.floor("unit", 4, n)
    # who assigns at the root level without the checked entry points
    # new clauses
    F = c.flat("ClauseDB.new_clause")
    rv = return_variant(F)
    record_machine(c, F, "new-clause", "recorded", set(c.calls(F, *STORE_ADD)), set(c.calls(F, *STORE_DEL)), False,
                   [inactive], lambda i: rv.get(i) != "RegisteredClause")
    for i, v in rv.items():
        c.ob("new-clause", v in ("Clause", "RegisteredClause"), f"{F.root.where()}: returns {v}", "return:" + str(v),
             F.root.where())
    for k in c.calls(F, *STORE_ADD):
        t = c.args(F, k)[1]
        c.ob("new-clause", is_lits(t) or t[0] == "arg", f"{c.where(F, k)}: records {tstr(t)[:80]}, not the whole clause",
             "whole", c.where(F, k))
    # shortened clauses
    for fn in ("ClauseDB.transform_by_elimination", "ClauseDB.transform_by_simplification"):
        F = c.flat(fn)
        record_machine(c, F, "shorten", fn, set(c.calls(F, *STORE_ADD)), set(c.calls(F, *STORE_DEL)), True, [inactive],
                       lambda i: True)
    if c.callers("ClauseDB.transform_by_replacement", crate="splr.lib"):
        F = c.flat("ClauseDB.transform_by_replacement")
        record_machine(c, F, "shorten", "ClauseDB.transform_by_replacement", set(c.calls(F, *STORE_ADD)),
                       set(c.calls(F, *STORE_DEL)), True, [inactive], lambda i: True)
    # nobody else edits the literals of a stored clause
    lits_editors(c, "editors")
    # what replaces a clause is recorded before the clause goes
    V = c.flat("ClauseDB.vivify")
    new = c.calls(V, "ClauseDB.new_clause")
    rem = c.calls(V, "ClauseDB.remove_clause")
    c.floor("order", 1, len(rem))
    for r in rem:
        h = loop_around(V, r)
        # within one round: from the head of the target loop
        big = max((b for b in loops_of(V).values() if r in b), key=len, default=None)
        c.ob("order", big is not None, f"{c.where(V, r)}: removal outside the target loop", "vivify-loop", c.where(V, r))
        if big is None:
            continue
        head = [hh for hh, b in loops_of(V).items() if b is big][0]
        p = V._find(list(V.at[head]), lambda i: V.pn[i] == r, lambda i: V.pn[i] in new)
        c.ob("order", p is None, f"{c.where(V, r)}: a clause is removed before its shortened form is recorded", "vivify",
             c.where(V, r), V.show(p) if p else None)
    E = c.flat("eliminate_var")
    rem = c.calls(E, "ClauseDB.remove_clause")
    c.floor("order", 2, len(rem) + 1)
    for r in rem:
        for m in c.calls(E, "ClauseDB.new_clause") + c.calls(E, "merge") + c.calls(E, *UNIT):
            p = E.path_after(r, lambda i: E.pn[i] == m, lambda i: False)
            c.ob("order", p is None, f"{c.where(E, m)}: a resolvent is recorded after its parents were removed",
                 "eliminate", c.where(E, m), E.show(p) if p else None)
    for fn in ("strengthen_clause", "AssignStack.propagate_at_root_level"):
        S = c.flat(fn)
        unit = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "UnitClause"
        for r in c.calls(S, "ClauseDB.remove_clause"):
            p = S._find(S.pstart, lambda i: S.pn[i] == r, lambda i: S.pn[i] in c.calls(S, *UNIT),
                        c.edge_ok(S, [lambda f: f[1] and f[0][0] == "is" and f[0][2] == "RegisteredClause"]))
            c.ob("order", p is None, f"{c.where(S, r)}: a clause is removed before the literal it implies is recorded",
                 fn, c.where(S, r), S.show(p) if p else None)
    # the caller's own literal goes to the store unchanged
    A = c.flat("ClauseDB.certificate_add_assertion")
    adds = c.calls(A, *STORE_ADD)
    c.always("unit-store", A, adds, "writing the literal to the proof", "store", [inactive])
    for k in adds:
        t = c.args(A, k)[1]
        c.ob("unit-store", root_args(t) == {"lit"} and not has_call(t, "not"),
             f"{c.where(A, k)}: records {tstr(t)}", "literal", c.where(A, k))


def lits_editors(c, rule):
    """only the clause database's own transformations change the literals of a stored clause"""
    allowed = {"ClauseDB.new_clause", "ClauseDB.new_clause_sandbox", "ClauseDB.transform_by_elimination",
               "ClauseDB.transform_by_simplification", "ClauseDB.transform_by_replacement", "remove_clause_fn"}
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or not mentions_lits(b):
            continue
        G = c.flat(b)
        for nid, (k, x) in content_events(G).items():
            if G.nodes[nid].body.uid != b.uid:
                continue
            for o in c.owner(b):
                n += 1
                c.ob(rule, o in allowed, f"{c.where(G, nid)}: {o} changes the literals of a stored clause ({k})", o,
                     c.where(G, nid))
    c.floor(rule, 6, n)


def mentions_lits(b):
    s = json.dumps(b.blocks)
    return '"lits"' in s


@prop("P05", "path automaton plus who-may-call analysis over MIR",
      "Decides that every clause leaving the database writes exactly one deletion of its full literal list, and that "
      "nothing else writes deletions; trusts that the stored literal list is the one recorded earlier (P04).")
def p05(c):
    R = c.flat("ClauseDB.remove_clause", ("remove_clause_fn",))
    dels = c.calls(R, *STORE_DEL)
    copies = set()
    c.always("removal", R, dels, "writing the deletion to the proof", "written", [inactive])
    for k in dels:
        p = R.path_after(k, lambda i: R.pn[i] in dels, lambda i: False)
        c.ob("removal", p is None, f"{c.where(R, k)}: a deletion is written twice", "once", c.where(R, k))
        t = c.args(R, k)[1]
        moved = t[0] == "call" and last(t[1]) in ("take", "replace", "clone", "to_vec") and t[2] and is_lits(t[2][0])
        if moved:
            copies.add(k)
        c.ob("removal", is_lits(t) or moved, f"{c.where(R, k)}: deletes {tstr(t)[:80]}, not the stored clause", "full",
             c.where(R, k))
        r = c.args(R, k)[0]
        c.ob("removal", has_field(r, "certification_store"), f"{c.where(R, k)}: the deletion goes to {tstr(r)[:60]}",
             "store", c.where(R, k))
    # the literals are still there when the deletion is written
    evs = content_events(R)
    for e in evs:
        for k in dels:
            if k in copies:
                sn = [x for x in c.reads(R, R.nodes[k].data[1][1]) if x in snapshots(R)]
                if not any(c.reaches(R, e2, x) for x in sn for e2 in evs if e2 != x):
                    continue
            p = R.path_after(e, lambda i: R.pn[i] == k, lambda i: False)
            c.ob("removal", p is None, f"{c.where(R, k)}: the deletion is written after the literals were changed",
                 "before-clear", c.where(R, k))
    clears = [e for e, (k, x) in content_events(R).items()]
    c.always("removal", R, clears, "emptying the removed clause", "cleared")
    # the same for the bulk removal
    for b, line in c.callers("remove_clause_fn", crate="splr.lib"):
        for o in c.owner(b):
            c.ob("who-removes", o in {"ClauseDB.remove_clause", "ClauseDB.reset", "ClauseDB.remove_clause_sandbox"},
                 f"{b.file}:{line}: {o} takes clauses out of the database", o, b.where(line))
    S = c.flat("ClauseDB.remove_clause")
    # who writes to the proof
    n = c.who_calls("writers", STORE_DEL, {"ClauseDB.transform_by_elimination", "ClauseDB.transform_by_simplification",
                    "ClauseDB.transform_by_replacement", "remove_clause_fn"}, "a deletion is written outside the clause "
                    "removal and shortening procedures", "delete", "splr.lib")
    n += c.who_calls("writers", STORE_ADD, {"ClauseDB.new_clause", "ClauseDB.transform_by_elimination",
                     "ClauseDB.transform_by_simplification", "ClauseDB.transform_by_replacement",
                     "ClauseDB.certificate_add_assertion"}, "an addition is written outside the clause creation and "
                     "shortening procedures", "add", "splr.lib")
    c.floor("writers", 9, n)
    for fn in ("ClauseDB.transform_by_elimination", "ClauseDB.transform_by_simplification"):
        F = c.flat(fn)
        record_machine(c, F, "shorten", fn, set(c.calls(F, *STORE_ADD)), set(c.calls(F, *STORE_DEL)), True, [inactive],
                       lambda i: True)
    # trial clauses never reach the proof
    for fn in ("ClauseDB.new_clause_sandbox", "ClauseDB.remove_clause_sandbox"):
        F = c.flat(fn)
        for nid in [x.id for x in F.nodes if x.kind in ("call", "diverge") and x.id in F.at]:
            for t in c.args(F, nid):
                c.ob("trial", not (t[0] == "field" and t[2] == "certification_store" and "self" in root_args(t)),
                     f"{c.where(F, nid)}: a trial clause reaches the proof", fn, c.where(F, nid))
    for b, line in c.callers("ClauseDB.remove_clause_sandbox", crate="splr.lib"):
        F = c.flat(b.key) if b.kind != "closure" else None
        for k in (c.calls(F, "ClauseDB.remove_clause_sandbox") if F else ()):
            t = c.args(F, k)[1]
            c.ob("trial", t[0] in ("var", "phi") or has_call(t, "new_clause_sandbox"), f"{c.where(F, k)}: a clause of the formula is "
                 f"removed without a line in the proof ({tstr(t)[:50]})", "trial-remove", c.where(F, k))
    # a clause that does leave is removed, not just forgotten: dead marks come from the removal only
    lits_editors(c, "editors")


@prop("P06", "path automaton over MIR for the proof writer",
      "Decides the shape of every line written (header sign, all literals, terminator), that buffered lines are flushed "
      "before the final line, where the file is created, and that the program completes the proof after an "
      "unsatisfiable answer; unreported I/O failures are listed as known findings.")
def p06(c):
    for fn, sign in (("CertificationStore.add_clause", 1), ("CertificationStore.delete_clause", -1)):
        F = c.flat(fn)
        push = [k for k in c.calls(F, "Vec.push", "Vec.extend", "Vec.insert", "Vec.extend_from_slice")
                if has_field(c.args(F, k)[0], "queue")]
        heads, lits = [], []
        for k in push:
            t = c.args(F, k)[1]
            if has_call(t, "len") and not has_call(t, "i32.from", "next"):
                heads.append(k)
                neg = has(t, lambda x: is_call(x, "neg") or (x[0] == "un" and x[1] == "Neg") or
                          (x[0] == "bin" and "Sub" in str(x[1])))
                c.ob("line", neg == (sign < 0), f"{c.where(F, k)}: the header of a line has the wrong sign", fn + ":sign",
                     c.where(F, k))
            elif has_call(t, "i32.from") or has_call(t, "map"):
                lits.append(k)
                nm = {last(x[1]) for x in subterms(t) if x and x[0] == "call"}
                c.ob("line", not nm & {"skip", "take", "rev", "filter", "step_by", "skip_while", "take_while", "neg",
                                       "not", "abs", "filter_map"},
                     f"{c.where(F, k)}: literals go through {sorted(nm)}", fn + ":literals", c.where(F, k))
            else:
                c.ob("line", False, f"{c.where(F, k)}: queues {tstr(t)[:60]}", fn + ":other", c.where(F, k))
        for k in push:
            for x in c.reads(F, F.nodes[k].data[1][1]):
                m = F.nodes[x]
                if m.kind == "assign" and m.data[1][0] == "cast" and m.data[1][1] == "IntToInt":
                    c.ob("line", m.data[1][3] not in ("u8", "i8", "u16", "i16"), f"{c.where(F, x)}: part of a line is cut "
                         f"down to {m.data[1][3]}", fn + ":width", c.where(F, x))
        c.ob("line", len(heads) >= 1 and len(lits) >= 1, f"{F.root.where()}: header or literals of a line are missing",
             fn + ":parts", F.root.where())
        c.always("line", F, heads, "writing the line's header", fn + ":header", [inactive])
        c.before("line", F, heads, lits, "the line's header", fn + ":order")
        for k in lits:
            if loop_around(F, k):
                c.each_iteration("line", F, [k], "writing the literal", fn + ":each")
                c.no_early_exit("line", F, k, "the loop over the literals", fn + ":all")
                c.ob("line", bool([1 for _ in [0] if iter_of(F, k, "clause")]), f"{c.where(F, k)}: the loop is not over "
                     "the clause", fn + ":over", c.where(F, k))
            else:
                c.always("line", F, [k], "writing the literals", fn + ":lits", [inactive])
        c.ob("line", not [x for x in c.calls(F, "Vec.clear", "Vec.pop", "Vec.truncate", "Vec.drain", "Vec.dedup", "Vec.retain", "Vec.remove",
                                             "Vec.swap_remove", "Vec.dedup_by_key", "Vec.dedup_by", "Vec.retain_mut", "Vec.split_off",
                                             "slice.sort", "slice.sort_unstable", "slice.reverse", "slice.swap", "slice.rotate_left",
                                             "slice.rotate_right", "slice.fill", "Vec.resize")
                          if has_field(c.args(F, x)[0], "queue")], f"{F.root.where()}: queued lines are dropped",
             fn + ":drop", F.root.where())
    # the writer
    D = c.flat("CertificationStore.dump_to_file")
    wr = c.calls(D, "BufWriter.write_all", "Write.write_all", "Write.write_fmt", "BufWriter.write_fmt")
    kinds = {}
    # a line may be put together in a string first
    made = lambda t: {x[3] for x in subterms(t) if x and x[0] == "call" and len(x) > 3 and
                      x[1] in ("String.new", "String.with_capacity", "String.from", "Vec.new", "Vec.with_capacity")}
    whole = {k: made(c.args(D, k)[1]) for k in wr if made(c.args(D, k)[1])}
    pieces = [k for k in c.calls(D, "String.push_str", "String.push", "String.extend", "Write.write_fmt", "Write.write_str", "String.write_fmt",
                                 "String.write_str", "Vec.extend_from_slice", "Vec.extend", "Vec.push")
              if any(made(c.args(D, k)[0]) & s for s in whole.values())]
    whole = {k: s for k, s in whole.items() if k not in pieces}
    for k in pieces:
        mine = made(c.args(D, k)[0])
        out = {w for w, s in whole.items() if s & mine}
        fresh = mine | {x for x in c.calls(D, "String.clear", "Vec.clear") if made(c.args(D, x)[0]) & mine}
        bad = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err" and has_call(f[0][1], "write_all", "write_fmt", "write_str")
        p = D.path_after(k, lambda i: D.pn[i] in fresh or D.nodes[D.pn[i]].kind == "return", lambda i: D.pn[i] in out, c.edge_ok(D, [bad]))
        c.ob("writer", p is None, f"{c.where(D, k)}: what was put together is not written", "assembled", c.where(D, k),
             D.show(p) if p else None)
        for w in out:
            p = D.path_after(w, lambda i: D.pn[i] == k, lambda i: D.pn[i] in fresh)
            c.ob("writer", p is None, f"{c.where(D, k)}: a line is written again with the next one", "assembled-again", c.where(D, k),
                 D.show(p) if p else None)
    wr = [k for k in wr if k not in whole or not pieces]
    for k in sorted(set(wr) | set(pieces)):
        t = c.args(D, k)[1]
        if k in pieces and str(constval(t)).strip() == "" and constval(t) is not None and not has(t, lambda x: x[0] == "index"):
            continue
        s = tstr(t)
        if has(t, lambda x: x[0] == "index" and has_field(x[1], "queue")):
            kinds.setdefault("lit", []).append(k)
        elif "'d '" in s or (has_call(t, "Arguments.new", "Arguments.new_const", "Arguments.from_str") and "d " in s):
            kinds.setdefault("del", []).append(k)
        elif "0\\n" in s or "0\n" in s:
            kinds.setdefault("end", []).append(k)
        else:
            kinds.setdefault("other", []).append(k)
    c.ob("writer", all(kinds.get(x) for x in ("lit", "del", "end")) and not kinds.get("other"),
         f"{D.root.where()}: writes {sorted(kinds)} instead of marker, literals and terminator", "kinds", D.root.where())
    neg = lambda f: f[0][0] == "lt" and f[1] and has_field(f[0][1], "queue") and constval(f[0][2]) == 0 or \
        (f[1] and f[0][0] == "true" and is_call(f[0][1], "is_negative"))
    nonneg = lambda f: (f[0][0] == "lt" and not f[1] and has_field(f[0][1], "queue") and constval(f[0][2]) == 0) or \
        (not f[1] and f[0][0] == "true" and is_call(f[0][1], "is_negative"))
    failed = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err" and has_call(f[0][1], "write_all", "write_fmt")
    nobuf = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None" and has_field(f[0][1], "buffer")
    dele, end, lit = kinds.get("del", []), kinds.get("end", []), kinds.get("lit", [])
    c.only_if("writer", D, dele, neg, "the line being a deletion", "deletion-only")
    # in every round: a negative header writes the marker, then the literals, then the terminator
    outer = [h for h, b in loops_of(D).items() if set(end) & b]
    outer = sorted(outer, key=lambda h: -len(loops_of(D)[h]))
    if c.ob("writer", bool(outer), f"{D.root.where()}: lines are not written in a loop", "loop", D.root.where()):
        h = outer[0]
        body = loops_of(D)[h]
        eo = c.edge_ok(D, [failed])

        def inloop(i, j, e):
            return D.pn[j] in body and eo(i, j, e)
        starts = [(i, j) for i in D.at[h] for j, e in D.ps[i] if inloop(i, j, e)]
        for i, j in starts:
            p = D._find(j, lambda x: D.pn[x] == h, lambda x: D.pn[x] in end, inloop)
            c.ob("writer", p is None, f"{c.where(D, end[0])}: a line can be left unterminated", "terminated",
                 c.where(D, end[0]), D.show(p) if p else None)

            def inloop2(a, b, e):
                n = D.nodes[D.pn[a]]
                return inloop(a, b, e) and not (e is not None and n.kind == "switch" and
                                                any(nonneg(f) for f in D.edge_facts(n, e)))
            p = D._find(j, lambda x: D.pn[x] in end, lambda x: D.pn[x] in dele, inloop2)
            c.ob("writer", p is None, f"{D.root.where()}: a deletion can be written without its marker", "marker",
                 D.root.where(), D.show(p) if p else None)
            # the marker comes before the literals
        for k in dele:
            for e2 in lit:
                def noend(a, b, e):
                    return D.pn[b] in body and D.pn[b] != h
                p = D._find([j for i in D.at[e2] for j, _ in D.ps[i]], lambda x: D.pn[x] == k, lambda x: False, noend)
                c.ob("writer", p is None, f"{c.where(D, k)}: the deletion marker is written after literals", "marker-first",
                     c.where(D, k))
        # literals: as many as the header says
        for k in lit:
            la = loop_around(D, k)
            c.ob("writer", la is not None and la[0] != h, f"{c.where(D, k)}: literals are not written in a loop of their "
                 "own", "literal-loop", c.where(D, k))
            c.each_iteration("writer", D, [k], "writing the literal", "literal-each", [failed])
            c.no_early_exit("writer", D, k, "the loop over the literals", "literal-all", [failed])
        rng = [n for n in D.nodes if n.kind == "call" and n.id in D.at and
               any(x in ("I.into_iter", "Range.into_iter", "IntoIterator.into_iter") or last(x) in ("unsigned_abs", "abs")
                   for x in n.data[0])]
        c.ob("writer", any(has_call(F_term(D, n), "unsigned_abs", "abs") or last(n.data[0][0]) in ("unsigned_abs", "abs")
                           for n in rng), f"{D.root.where()}: the number of literals is not the header's absolute value",
             "count", D.root.where())
    # the loop stops at the end of the queue, not before
    for h in outer[:1]:
        body = loops_of(D)[h]
        for s in D.nodes:
            if s.kind != "switch" or s.id not in body or s.id not in D.at:
                continue
            for i in D.at[s.id]:
                if not any(D._find(j0, lambda x: x == i, lambda x: D.pn[x] in set(lit) | set(end) | {h}, None)
                           for i0 in D.at[h] for j0, _ in D.ps[i0]) and D.pn[i] != h:
                    continue
                for j, e in D.ps[i]:
                    if e is None or D.pn[j] in body:
                        continue
                    for t, v in D.edge_facts(s, e):
                        if t[0] in ("lt", "eq", "true") and has(t, lambda x: x[0] == "index" and has_field(x[1], "queue") or
                                                                is_call(x, "index") and has_field(x[2][0], "queue")):
                            c.ob("writer", False, f"{c.where(D, s.id)}: stops writing because of what a line says ({tstr(t)[:60]})",
                                 "all-lines", c.where(D, s.id))
                        if t[0] != "lt" or not any(has_field(x, "queue") for x in t[1:]):
                            continue
                        # left when !(a < len), or when len < a
                        a, q = (t[2], t[1]) if v else (t[1], t[2])
                        d = [(k, x) for k, x in lin(a).items() if k != 1]
                        off = lin(a).get(1, 0) - lin(q).get(1, 0) - (1 if v else 0)
                        if len(d) != 1 or d[0][1] != 1 or has_field(a, "queue") or len([k for k in lin(q) if k != 1]) != 1:
                            continue
                        c.ob("writer", off <= 0, f"{c.where(D, s.id)}: the loop ends {off} entries before the end of the queue",
                             "to-the-end", c.where(D, s.id))
    # numbers are not cut down on their way
    for fn in ("CertificationStore.add_clause", "CertificationStore.delete_clause", "CertificationStore.dump_to_file"):
        Z = c.flat(fn)
        for n in Z.nodes:
            if n.kind == "assign" and n.id in Z.at and n.data[1][0] == "cast" and n.data[1][1] == "IntToInt" and \
                    n.body.crate == "splr.lib":
                c.ob("writer", n.data[1][3] not in ("u8", "i8", "u16", "i16"), f"{c.where(Z, n.id)}: a number is cut down to "
                     f"{n.data[1][3]}", "width:" + fn, c.where(Z, n.id))
    # the queue is emptied only after everything was written
    clr = [k for k in c.calls(D, "Vec.clear") if has_field(c.args(D, k)[0], "queue")]
    c.after("writer", D, end, clr, "emptying the queue", "emptied", [failed])
    # a line's pieces are separated
    for k in lit:
        t = c.args(D, k)[1]
        for x in subterms(t):
            if not is_call(x, "Arguments.new"):
                continue
            tm = next((y[1] for y in subterms(x) if y and y[0] == "const" and isinstance(y[1], str) and "{" in y[1]), None)
            if tm is None:
                continue
            ends = [y[1] for e in end for y in subterms(c.args(D, e)[1]) if y and y[0] == "const" and isinstance(y[1], str)]
            m = re.fullmatch(r"( *)\{(:[^}]*)?\}( *)", tm)
            ok = bool(m) and (m.group(3) != "" or m.group(1) != "" and ends and all(y.startswith(" ") for y in ends))
            c.ob("writer", ok, f"{c.where(D, k)}: literals are written as {tm!r}, so a line's numbers run together",
                 "separated", c.where(D, k))
            c.ob("writer", not m or not m.group(2) or not re.search("[fp$]", m.group(2)), f"{c.where(D, k)}: literals are "
                 f"written with the options {tm!r}", "plain", c.where(D, k))
        form = {last(y[1]) for y in subterms(t) if y and y[0] == "call" and last(y[1]).startswith("new_")}
        c.ob("writer", form <= {"new_display", "new_debug", "new_const"}, f"{c.where(D, k)}: literals are not written in "
             f"decimal ({sorted(form)})", "decimal", c.where(D, k))
    # buffered lines are written when the writer is dropped: it is never leaked
    k = 0
    for b in c.prog.bodies.values():
        if b.crate not in ("splr.lib", "splr.bin"):
            continue
        for _, t in body_calls(b):
            fn, line = op_fn(t[2]), t[1]
            nm = fn and last(c.prog.callkeys(fn, b.crate)[0])
            if nm not in ("forget", "leak", "into_raw", "into_parts", "new") or fn.get("local"):
                continue
            k += 1
            key = c.prog.callkeys(fn, b.crate)[0]
            if nm == "new" and "ManuallyDrop" not in key:
                continue
            ga = " ".join(str(x) for x in fn.get("ga", []))
            c.ob("leak", not any(x in ga for x in ("BufWriter", "CertificationStore", "ClauseDB", "Solver")),
                 f"{b.file}:{line}: {key} keeps the proof's writer from being flushed", "leak", b.where(line))
    # close
    K = c.flat("CertificationStore.close")
    dump = c.calls(K, "CertificationStore.dump_to_file")
    wl = c.calls(K, "BufWriter.write_all", "Write.write_all")
    c.ob("close", bool(wl), f"{K.root.where()}: no final line is written", "final", K.root.where())
    closed = lambda f: nobuf(f) or (not f[1] and f[0][0] == "true" and is_call(f[0][1], "is_active")) or \
        f[0][0] == "true" and f[0][1][0] == "call" and f[0][1][2] and \
        has_field(f[0][1][2][0], "buffer") and (last(f[0][1][1]), f[1]) in (("is_some", False), ("is_none", True))
    c.before("close", K, dump, wl, "writing the queued lines", "flush-first", [closed])
    c.always("close", K, wl, "writing the final line", "final-line", [closed])
    for k in wl:
        c.ob("close", "0\\n" in tstr(c.args(K, k)[1]) or "0\n" in tstr(c.args(K, k)[1]),
             f"{c.where(K, k)}: the final line is {tstr(c.args(K, k)[1])}", "zero", c.where(K, k))
    gone = c.writes(K, "buffer") + [k for k in c.calls(K, "Option.take") if has_field(c.args(K, k)[0], "buffer")] + \
        c.calls(K, "BufWriter.flush", "Write.flush")
    for k in wl:
        p = K.path_after(k, lambda i: K.nodes[K.pn[i]].kind == "return", lambda i: K.pn[i] in gone) \
            if not any(c.reaches(K, g, k) for g in gone) else None
        c.ob("close", p is None, f"{K.root.where()}: the proof is not flushed when it is closed", "flushed", K.root.where(),
             K.show(p) if p else None)
    # creation
    I = c.flat("CertificationStore.instantiate")
    cr = c.calls(I, "File.create", "OpenOptions.open")
    c.floor("create", 1, len(cr))
    for k in cr:
        t = pathname(c, I, k)
        c.ob("create", has_field(t, "io_odir") and has_field(t, "io_pfile"), f"{c.where(I, k)}: the proof is created at "
             f"{tstr(t)}", "path", c.where(I, k))
    flag = lambda f: f[1] and f[0][0] == "true" and has_field(f[0], "use_certification")
    c.only_if("create", I, cr, flag, "a proof being requested", "requested")
    c.always("create", I, cr, "creating the proof file", "created",
             [lambda f: not f[1] and f[0][0] == "true" and has_field(f[0], "use_certification")])
    st = adt_nodes(c, I, "CertificationStore", "CertificationStore")
    for s in st:
        n = I.nodes[s]
        f = dict(zip(n.data[1][1]["fields"], n.data[1][2]))
        c.ob("create", has_call(I.term(f["buffer"]), "create", "open") if "buffer" in f else False,
             f"{c.where(I, s)}: the proof does not go to the created file", "buffer", c.where(I, s))
    # the program closes the proof
    G = c.flat("ClauseDB.certificate_save")
    c.always("save", G, c.calls(G, "CertificationStore.close"), "closing the proof", "close")
    S = c.flat("Solver.save_certification")
    c.always("save", S, c.calls(S, "ClauseDB.certificate_save"), "closing the proof", "save")
    cli(c)
    io_failures(c)


def pathname(c, F, k):
    """the path a file is opened under; a path put together by `push` reads as a join"""
    t = c.args(F, k)[0]
    for x in c.calls(F, "PathBuf.push"):
        a = c.args(F, x)
        if strip(a[0]) == strip(t) and F.path_after(x, lambda i: F.pn[i] == k, lambda i: False) is not None and \
                F._find(F.pstart, lambda i: F.pn[i] == k, lambda i: F.pn[i] == x) is None:
            t = ("call", "Path.join", (t, a[1]), x)
    return t


def iter_of(F, k, arg):
    t = F.term(F.nodes[k].data[1][1])
    return has(t, lambda x: is_call(x, "next") and arg in root_args(x)) or has(t, lambda x: x[0] == "elem")


def F_term(F, n):
    return F.term(n.data[1][0]) if n.data[1] else ("none",)


def cli(c):
    """the command-line program completes the proof for an unsatisfiable answer"""
    bodies = [b for b in c.prog.bodies.values() if b.crate == "splr.bin" or b.crate.startswith("splr") and b.crate != "splr.lib"]
    c.ob("save", bool(bodies), "the command-line program is not in the analysed program", "program")
    main = [b for b in bodies if b.key == "main" and b.file.endswith("bin/splr.rs")]
    c.ob("save", len(main) == 1, "main of the solver program not found", "main")
    if not main:
        return
    F = c.flat(main[0], inline=("save_result", "report"))
    sv = c.calls(F, "Solver.save_certification")
    c.ob("save", bool(sv), f"{main[0].where()}: the proof is never completed", "called", main[0].where())
    ex = {k for k in F.at if F.nodes[k].kind in ("call", "diverge") and F.nodes[k].data[0] and last(F.nodes[k].data[0][0]) in ("exit", "abort")}
    sol = c.calls(F, "Solver.solve", "SatSolverIF.solve")
    c.floor("save", 1, len(sol))
    noproof = lambda f: not f[1] and f[0][0] == "true" and has_field(f[0], "use_certification")

    def on_edge(st, f, env):
        """0: the answer is not known, 1: it is unsatisfiable, 2: it is another one"""
        t, pol = f
        if noproof(f):
            return None
        if t[0] != "is" or not has_call(t[1], "solve"):
            return st
        w = 1 if t[2] == "UNSAT" and pol else 2 if t[2] == "UNSAT" or pol and t[2] in ("SAT", "Err") else 0
        return st if not w else w if st in (0, w) else None

    starts = [j for k in sol for i in F.at.get(k, ()) for j, _ in F.ps[i]]
    early_proof(c, F, ex)
    p = machine(F, starts, 0, lambda st, n, d: None if n.id in sv else st,
                lambda st, n, i, d: st == 1 and (n.kind == "return" or n.id in ex), on_edge)
    w = c.where(F, F.pn[p[-1]]) if p else main[0].where()
    c.ob("save", p is None, f"{w}: an unsatisfiable answer can end without completing the proof", "unsat", w, F.show(p) if p else None)


def early_proof(c, F, ex):
    """a problem found unsatisfiable while it is loaded gets its proof completed too"""
    contra = lambda f: f[1] and f[0][0] == "is" and f[0][2] in ("EmptyClause", "RootLevelConflict") and has_call(f[0][1], "build", "try_from")
    put = [n.id for n in F.nodes if n.kind == "call" and n.id in F.at and
           last(n.data[0][0]) in ("write", "create", "save_certification", "certificate_save", "open", "write_all", "close")
           and (last(n.data[0][0]) in ("save_certification", "certificate_save", "close") or
                any(has_field(a, "io_pfile") for a in c.args(F, n.id)))]
    noproof = lambda f: not f[1] and f[0][0] == "true" and has_field(f[0], "use_certification")
    if not put:
        return
    done = {k for k in ex if any(constval(a) == 20 for a in c.args(F, k))}
    for pi, j, sid in c.edges_with(F, contra):
        p = F._find(j, lambda x: F.pn[x] in done, lambda x: F.pn[x] in put, c.edge_ok(F, [noproof]))
        c.ob("save", p is None, f"{c.where(F, sid)}: a problem found unsatisfiable while loading can end without its proof", "early",
             c.where(F, sid), F.show(p) if p else None)


def io_failures(c):
    """a failure to create, write or complete the proof file reaches the caller"""
    I = c.flat("CertificationStore.instantiate")
    cr = c.calls(I, "File.create", "OpenOptions.open")
    sig = I.root.d.get("sig", "")
    c.ob("io-failure", "Result" in sig.split("->")[-1] or not cr,
         f"{I.root.where()}: a failure to create the proof file is not reported", "create", I.root.where())
    for fn, key in (("CertificationStore.dump_to_file", "write"), ("CertificationStore.close", "close")):
        F = c.flat(fn)
        wr = c.calls(F, "BufWriter.write_all", "Write.write_all")
        sig = F.root.d.get("sig", "")
        c.ob("io-failure", "Result" in sig.split("->")[-1] or not wr,
             f"{F.root.where()}: a failed write of the proof is not reported", key, F.root.where())
