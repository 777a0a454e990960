"""P14 root-level rewriting, P30 trials undone: the decision level as a typestate over the whole call graph."""
from rules import *
from registry import prop
from props_answers import adt_nodes

ROOT, DEEP, STALE = "root", "deep", "stale"
BASE_UP = ("AssignStack.level_up", "AssignStack.assign_by_decision", "PropagateIF.assign_by_decision")
BASE_DOWN = ("AssignStack.cancel_until", "AssignStack.backtrack_sandbox", "PropagateIF.cancel_until",
             "PropagateIF.backtrack_sandbox")


def is_root_level(t):
    t = strip(t)
    return (t[0] == "field" and t[2] == "root_level") or is_call(t, "root_level") or has_name(t, "RootLevel") or \
        constval(t) == 0


def root_fact(f):
    """an edge on which the current level is known to be the root level"""
    t, b = f
    if t[0] == "true" and b and is_call(t[1], "is_empty") and has_field(t[1], "trail_lim"):
        return True
    if t[0] == "eq" and b:
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if (has_call(x, "decision_level") or has_field(x, "trail_lim")) and is_root_level(y):
                return True
    if t[0] == "lt" and not b:      # !(root_level < decision_level)
        return is_root_level(t[1]) and (has_call(t[2], "decision_level") or has_field(t[2], "trail_lim"))
    return False


class Levels:
    """summaries: for each body and entry state the possible states at return"""

    def __init__(self, c, sinks, also=()):
        self.also = set(also)
        self.c = c
        self.sinks = sinks
        self.memo = {}
        self.needs = {}
        self.active = set()
        self.viol = {}
        self.direct = {}
        self.lev = self._levelling()

    def _calls(self, b):
        out = set()
        for blk in b.blocks:
            t = blk["t"]
            if t[0] != "call":
                continue
            for op in [t[2]] + list(t[3]):
                fn = op_fn(op)
                if fn is None:
                    continue
                x = self.c.prog.resolve(fn, b.crate)
                if x is not None:
                    out.add(x.uid)
                elif fn["local"] and fn["uid"] in self.c.prog.traitmeth:
                    out |= set(self.c.prog.traitimpl.get(fn["uid"], []))
        for cb in self.c.prog.closures.get(b.uid, []):
            out.add(cb.uid)
        return out

    def _levelling(self):
        """bodies from which a level change or a sink can be reached"""
        bodies = {u: b for u, b in self.c.prog.bodies.items() if b.crate == "splr.lib"}
        calls = {u: self._calls(b) for u, b in bodies.items()}
        names = set(BASE_UP) | set(BASE_DOWN) | set(self.sinks) | self.also
        S = {u for u, b in bodies.items() if any(k in names for k in b.keys)}
        ch = True
        while ch:
            ch = False
            for u, cs in calls.items():
                if u not in S and cs & S:
                    S.add(u)
                    ch = True
        self.callgraph = calls
        return S

    def callee(self, n):
        fn = n.data[3]
        if not fn:
            return None
        b = self.c.prog.resolve(fn, n.body.crate)
        if b is None and fn["local"] and fn["uid"] in self.c.prog.traitmeth:
            im = [u for u in self.c.prog.traitimpl.get(fn["uid"], []) if u in self.lev]
            if len(im) == 1:
                b = self.c.prog.bodies[im[0]]
        return b if b is not None and b.uid in self.lev and b.kind != "closure" else None

    def effect(self, F, n, st):
        """(states after the call, None | name of the sink reached in a wrong state)"""
        ks = n.data[0]
        nm = last(ks[0])
        if any(k in BASE_UP for k in ks):
            return {self.up(st)}, None
        if any(k in BASE_DOWN for k in ks):
            if "backtrack_sandbox" in [last(k) for k in ks] or is_root_level(F.term(n.data[1][1])):
                return self.down(st, nm), None
            return self.back(st), None
        if n.data[1] and nm in ("push", "resize", "insert", "extend") and \
                has_field(F.term(n.data[1][0]), "trail_lim"):
            return {self.up(st)}, None
        if nm == "handle" and len(n.data[1]) == 2 and any(k.startswith("AssignStack.") for k in ks):
            ev = F.term(n.data[1][1])
            if ev[0] in ("adt", "named") or has_name(ev, "Stage", "Reinitialize", "Restart", "NewVar", "Conflict"):
                return {self.event(st, ev)}, None
        bad = None
        s = next((k for k in ks if k in self.sinks), None)
        if s is not None and self.wrong(st):
            bad = s
        b = self.callee(n)
        if b is None:
            return {self.other(st, ks)}, bad
        outs = self.summary(b, st)
        if bad is None and self.wrong(st) and self.needs.get((b.uid, st)):
            bad = self.needs[(b.uid, st)]
        return {self.other(x, ks) for x in (outs or {st})}, bad

    # the state: by default only the level
    init = ROOT

    def up(self, st):
        return DEEP

    def down(self, st, how):
        return {ROOT}

    def back(self, st):
        return {st}

    def event(self, st, ev):
        return ROOT if has_name(ev, "Reinitialize") else st

    def other(self, st, ks):
        return st

    def wrong(self, st):
        return st != ROOT

    def known_root(self, st):
        return ROOT

    def summary(self, b, st):
        k = (b.uid, st)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            return {st}
        self.active.add(k)
        outs, bads = self.walk(b, st)
        self.active.discard(k)
        self.memo[k] = outs
        if bads:
            self.needs[k] = bads[0][1]
        if st == self.init:
            self.viol[b.uid] = bads
        return outs

    def walk(self, b, st0):
        F = self.c.flat(b)
        seen = {}
        outs = set()
        bads = []
        work = [(i, st0) for i in [F.pstart]]
        for k in work:
            seen[k] = None
        seenbad = set()
        while work:
            k = work.pop(0)
            i, st = k
            n = F.nodes[F.pn[i]]
            after = {st}
            if n.kind in ("call", "diverge"):
                after, bad = self.effect(F, n, st)
                if bad and n.id not in seenbad:
                    seenbad.add(n.id)
                    p, q = [], k
                    while q is not None:
                        p.append(q[0])
                        q = seen[q]
                    bads.append((n.id, bad, p[::-1]))
            if n.kind == "assign" and n.data[1][0] == "agg" and n.data[1][1].get("variant") == "SolverBug":
                continue        # the solver gives up on its own state
            if n.kind == "return":
                outs.add(st)
            for j, e in F.ps[i]:
                for s in after:
                    s2 = s
                    if e is not None and n.kind == "switch" and any(root_fact(f) for f in F.pfacts(i, e)):
                        s2 = self.known_root(s)
                    q = (j, s2)
                    if q not in seen:
                        seen[q] = k
                        work.append(q)
        return outs, bads


SINKS = ("ClauseDB.reduce", "ClauseDB.vivify", "VivifyIF.vivify", "Eliminator.simplify", "EliminateIF.simplify",
         "AssignStack.clear_asserted_literals", "PropagateIF.clear_asserted_literals", "AssignStack.propagate_at_root_level",
         "ClauseDB.transform_by_simplification", "ClauseDB.transform_by_elimination", "ClauseDB.remove_clause",
         "ClauseDBIF.remove_clause", "ClauseDBIF.reduce", "ClauseDBIF.transform_by_elimination",
         "ClauseDBIF.transform_by_simplification", "eliminate_var", "strengthen_clause",
         "Eliminator.try_subsume", "Eliminator.backward_subsumption_check", "Eliminator.eliminate",
         "Eliminator.eliminate_main",
         "ClauseDB.make_permanent", "ClauseDB.transform_by_replacement", "ClauseDB.transform_by_restriction")


def entries(L):
    called = {x for u, s in L.callgraph.items() for x in s}
    return [L.c.prog.bodies[u] for u in sorted(L.lev) if L.c.prog.bodies[u].kind != "closure" and
            (u not in called or L.c.prog.bodies[u].selfadt in ("Solver", "SolverIter"))]


@prop("P14", "typestate analysis of the decision level with function summaries over the whole call graph (MIR)",
      "Every function of the library is walked with the state 'at the root level' or 'maybe above it'; changes come from the "
      "functions that raise, lower or test the level. A clause rewriting step reached in the second state is a violation.")
def p14(c):
    L = Levels(c, SINKS)
    n = 0
    for u in sorted(L.lev):
        b = c.prog.bodies[u]
        if b.kind == "closure" or not c.is_known(b) or any(k in BASE_UP + BASE_DOWN for k in b.keys):
            continue
        L.summary(b, ROOT)
        F = c.flat(b)
        sites = [x.id for x in F.nodes if x.kind == "call" and x.id in F.at and any(k in SINKS for k in x.data[0])]
        n += len(sites)
        bad = {x[0]: x for x in L.viol.get(u, [])}
        for s in set(sites) | set(bad):
            x = bad.get(s)
            c.ob("root-level", x is None, f"{c.where(F, s)}: {x[1] if x else ''} can run while decisions are in force",
                 f"{b.key}:{last(F.nodes[s].data[0][0])}", c.where(F, s), F.show(x[2]) if x else None)
    c.floor("root-level", 20, n)
    # what the library's entry points leave behind is what the next call starts from
    m = 0
    for b in entries(L):
        if any(k in BASE_UP + BASE_DOWN + SINKS for k in b.keys):
            continue
        outs = L.summary(b, ROOT)
        if b.selfadt in ("Solver", "SolverIter", "Certificate"):
            m += 1
            c.ob("entry-points", outs <= {ROOT}, f"{b.where()}: {b.key} can return with decisions in force", b.key, b.where())
    c.floor("entry-points", 3, m)
    levels_base(c)


def levels_base(c):
    """the primitives the typestate relies on"""
    U = c.flat("AssignStack.assign_by_decision", inline=("AssignStack.level_up",))
    up = [k for k in c.calls(U, "Vec.push") if has_field(c.args(U, k)[0], "trail_lim")]
    c.always("level", U, up, "entering a new level", "level_up")
    R = c.flat("AssignStack.assign_at_root_level")
    down = [k for k in c.calls(R, *BASE_DOWN) if last(R.nodes[k].data[0][0]) == "backtrack_sandbox" or
            is_root_level(c.args(R, k)[1])]
    c.always("level", R, down, "going back to the root level", "assign_at_root_level", [root_fact])
    D = c.flat("AssignStack.decision_level")
    t = D.term(("c", ((0, 0), ())))
    c.ob("level", has_call(t, "len") and has_field(t, "trail_lim"), f"{D.root.where()}: the decision level is not the number "
         f"of levels entered: {tstr(t)[:60]}", "decision_level", D.root.where())
    T = c.flat("AssignStack.root_level")
    t = T.term(("c", ((0, 0), ())))
    c.ob("level", has_field(t, "root_level"), f"{T.root.where()}: {tstr(t)[:60]}", "root_level", T.root.where())
    # the root level itself is never moved
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure":
            continue
        if not any(s[0] == "=" and any(e[0] == "f" and e[1] == "root_level" for e in s[2][1]) for blk in b.blocks
                   for s in blk["s"] if len(s) > 2):
            continue
        c.ob("level", False, f"{b.where()}: moves the root level", "moved:" + b.key, b.where())


@prop("P30", "typestate analysis of tentative assignments over MIR",
      "In every function that makes trial decisions outside the search loop, nothing is fixed, added, removed or returned while "
      "the trial is in force, a new trial starts from a clean state, and the analysis of a failed trial runs before it is undone.")
def p30(c):
    EFFECT = ("ClauseDB.new_clause", "ClauseDB.remove_clause", "ClauseDBIF.new_clause", "ClauseDBIF.remove_clause",
              "AssignStack.clear_asserted_literals", "PropagateIF.clear_asserted_literals",
              "AssignStack.make_var_eliminated", "ClauseDB.transform_by_simplification", "ClauseDB.transform_by_elimination",
              "ClauseDBIF.transform_by_simplification", "AssignStack.make_var_asserted", "AssignStack.propagate_at_root_level",
              "ClauseDB.reduce", "ClauseDB.make_permanent")
    L = Levels(c, EFFECT)
    n = 0
    for u in sorted(L.lev):
        b = c.prog.bodies[u]
        if b.kind == "closure" or not c.is_known(b) or any(k in BASE_UP + BASE_DOWN for k in b.keys):
            continue
        F = c.flat(b)
        dec = c.calls(F, "AssignStack.assign_by_decision", "PropagateIF.assign_by_decision")
        if not dec or "search" in b.keys:
            continue
        n += 1
        trial(c, L, F, dec)
    c.floor("trial", 1, n)
    # who makes decisions at all
    for b, line in c.callers("AssignStack.assign_by_decision", "PropagateIF.assign_by_decision"):
        for o in c.owner(b):
            c.ob("who", o in ("search", "ClauseDB.vivify", "VivifyIF.vivify"), f"{b.file}:{line}: {o} makes decisions",
                 "decides:" + o, b.where(line))
    # propagation during a trial is told apart from the real one
    for b, line in c.callers("AssignStack.propagate", "PropagateIF.propagate"):
        for o in c.owner(b):
            c.ob("who", o in ("search",), f"{b.file}:{line}: {o} uses the search's propagation", "propagates:" + o,
                 b.where(line))
    analysis(c)
    levels_base(c)
    # the end of a trial undoes all of it
    from props_assign import undo, is_root
    undo(c, "AssignStack.backtrack_sandbox", is_root, False)


def trial(c, L, F, dec):
    key = F.root.key
    outer = loop_around(F, dec[0], 1)
    if not c.ob("trial", outer is not None, f"{c.where(F, dec[0])}: a trial is not part of a loop over clauses", key + ":loop",
                c.where(F, dec[0])):
        return
    heads = {outer[0]}
    AN = c.calls(F, "AssignStack.analyze_sandbox")
    new = c.calls(F, "ClauseDB.new_clause")
    effects = set(L.sinks)

    def step(st, n):
        return st
    seen = {}
    work = [(F.pstart, ROOT)]
    seen[work[0]] = None
    bad = {}

    def report(k, what, nid):
        if (what, nid) in bad:
            return
        p, q = [], k
        while q is not None:
            p.append(q[0])
            q = seen[q]
        bad[(what, nid)] = p[::-1]
    while work:
        k = work.pop(0)
        i, st = k
        n = F.nodes[F.pn[i]]
        if n.id in heads and st == DEEP:
            st = STALE
        after = {st}
        if n.kind in ("call", "diverge"):
            ks = n.data[0]
            nm = last(ks[0])
            s = next((x for x in ks if x in effects), None)
            if s and st != ROOT:
                report(k, "effect:" + last(s), n.id)
            if st == STALE and (nm in ("assign_by_decision", "assigned", "propagate_sandbox")):
                report(k, "stale:" + nm, n.id)
            if n.id in AN and st != DEEP:
                report(k, "late-analysis", n.id)
            base, _ = L.effect(F, n, DEEP if st == STALE else st)
            after = {STALE if (x == DEEP and st == STALE and nm != "assign_by_decision") else x for x in base}
        if n.kind == "return" and st != ROOT and (F.pval[i].get((0, 0)) or "??")[1] != "Err":
            report(k, "return", n.id)
        for j, e in F.ps[i]:
            for s in after:
                s2 = s
                if e is not None and n.kind == "switch" and s != ROOT and any(root_fact(f) for f in F.pfacts(i, e)):
                    s2 = ROOT
                q = (j, s2)
                if q not in seen:
                    seen[q] = k
                    work.append(q)
    text = {"effect": "takes effect while a trial is in force", "stale": "starts from what an earlier trial left behind",
            "late-analysis": "the failed trial is analysed after it was undone", "return": "returns while a trial is in force"}
    sites = {("effect:" + last(next(x for x in n.data[0] if x in effects)), n.id) for n in F.nodes
             if n.kind == "call" and n.id in F.at and any(x in effects for x in n.data[0])}
    sites |= {("late-analysis", x) for x in AN}
    for w, nid in sorted(sites | set(bad)):
        p = bad.get((w, nid))
        c.ob("trial", p is None, f"{c.where(F, nid)}: {w.split(':')[-1]} {text[w.split(':')[0]]}", key + ":" + w,
             c.where(F, nid), F.show(p) if p else None)
    c.floor("trial-sites", 4, len(sites))


def analysis(c):
    """literals kept by the analysis are negated trial decisions only"""
    F = c.flat("AssignStack.analyze_sandbox")
    ret = F.term(("c", ((0, 0), ())))
    push = [k for k in c.calls(F, "Vec.push", "Vec.insert")]
    c.floor("analysis", 1, len(push))
    dec = [F.root.lname.get(i) for i in range(1, F.root.argc + 1)]
    for k in push:
        isdec = lambda f: f[1] and f[0][0] == "true" and is_call(f[0][1], "contains", "any") and \
            "decisions" in root_args(f[0][1])
        r = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Decision" and has_call(f[0][1], "reason")
        c.only_if("analysis", F, [k], F_any(isdec, r), "the literal being a trial decision", "decision")
        v = c.args(F, k)[1]
        c.ob("analysis", has_call(v, "not") or has(v, lambda s: s[0] == "un"), f"{c.where(F, k)}: keeps the decision itself "
             "instead of its negation", "negated", c.where(F, k))
