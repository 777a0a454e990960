"""Rule primitives on top of the flow engine, and the bookkeeping of one check run."""
import json, os, sys, time, hashlib
from mir import *

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN_FNS = os.path.join(HERE, "known_fns.json")

FOREIGN_TRAITS = {"Clone", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Debug", "Display", "Default", "From",
                  "Into", "TryFrom", "Index", "IndexMut", "Deref", "DerefMut", "Drop", "Not", "Iterator",
                  "IntoIterator", "FromIterator", "Extend", "AsRef", "Add", "AddAssign", "BitAnd", "BitOr", "Borrow"}


class Missing(Exception):
    """an anchor the rule needs is not in the program"""


# ------------------------------------------------------------------ term predicates
def last(n):
    return n.split(".")[-1]


def is_call(t, *names):
    return isinstance(t, tuple) and len(t) >= 3 and t[0] == "call" and (t[1] in names or last(t[1]) in names)


def has(t, pred):
    return any(pred(s) for s in subterms(t) if s)


def has_call(t, *names):
    return has(t, lambda s: is_call(s, *names))


def has_name(t, *names):
    """mentions a named constant / unit variant / field called one of names"""
    def p(s):
        if s[0] == "named" and s[1] in names:
            return True
        if s[0] == "const" and len(s) > 2 and s[2] in names:
            return True
        if s[0] == "adt" and s[2] in names:
            return True
        return s[0] == "field" and s[2] in names
    return has(t, p)


def has_field(t, *names):
    return has(t, lambda s: s[0] == "field" and s[2] in names)


def fields_of(t):
    return {s[2] for s in subterms(t) if s and s[0] == "field"}


def root_args(t):
    return {s[3] for s in subterms(t) if s and s[0] == "arg" and len(s) > 3}


def constval(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == "const" else None


# fact predicates: a fact is (term, polarity)
def F_true(pol, *names, arg=None):
    def p(f):
        t, b = f
        return b == pol and t[0] == "true" and is_call(t[1], *names) and (arg is None or arg(t[1]))
    return p


def F_is(variant, *names, pred=None):
    """the value produced by a call named names (or satisfying pred) is `variant`"""
    def p(f):
        t, b = f
        if t[0] != "is" or not b or t[2] != variant:
            return False
        if names and not is_call(t[1], *names):
            return False
        return pred is None or pred(t[1])
    return p


def F_any(*ps):
    return lambda f: any(p(f) for p in ps)


def F_flag(pol, flag, pred=None):
    """x.is(FLAG) has polarity pol"""
    def p(f):
        t, b = f
        return b == pol and t[0] == "true" and is_call(t[1], "is", "contains") and has_name(t[1], flag) and \
            (pred is None or pred(t[1]))
    return p


def F_cmp(op, lhs, rhs, pol=True):
    """ordering/equality fact; op in lt, eq; lhs/rhs term predicates"""
    def p(f):
        t, b = f
        if b != pol or t[0] != op:
            return False
        if lhs(t[1]) and rhs(t[2]):
            return True
        return op == "eq" and lhs(t[2]) and rhs(t[1])
    return p


def ANY(t):
    return True


# ------------------------------------------------------------------ loops
def loops_of(F):
    """natural loops of the flat graph restricted to product-reachable nodes: {header: set(body)}"""
    if hasattr(F, "_loops"):
        return F._loops
    reach = set(F.at)
    succ = {i: [s for s, _ in F.nodes[i].succ if s in reach] for i in reach}
    # keep only flat edges realised in the product
    real = defaultdict(set)
    for i in range(len(F.pn)):
        for j, _ in F.ps[i]:
            real[F.pn[i]].add(F.pn[j])
    succ = {i: [s for s in succ[i] if s in real[i]] for i in reach}
    pred = defaultdict(list)
    for i in reach:
        for s in succ[i]:
            pred[s].append(i)
    # reverse post order
    order, seen = [], set()
    st = [(F.entry.id, iter(succ[F.entry.id]))]
    seen.add(F.entry.id)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    num = {n: i for i, n in enumerate(order)}
    idom = {F.entry.id: F.entry.id}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for p in pred[n]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == F.entry.id or b not in idom:
                return False
            b = idom[b]

    L = {}
    for u in order:
        for h in succ[u]:
            if dom(h, u):
                body = L.setdefault(h, {h})
                st = [u]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += pred[x]
    F._loops = L
    F._idom = idom
    return L


def loop_around(F, nid, outer=0):
    """(header, body) of the innermost loop containing nid (outer=1: the next enclosing one ...)"""
    c = sorted(((len(b), h) for h, b in loops_of(F).items() if nid in b))
    if len(c) <= outer:
        return None
    h = c[outer][1]
    return h, loops_of(F)[h]


# ------------------------------------------------------------------ the check run
def cut_slice(t):
    """a range from a fixed place whose end is not the length of something"""
    if not t or t[0] != "adt" or t[1] not in ("Range", "RangeTo", "RangeToInclusive", "RangeInclusive"):
        return False
    start, end = dict(t[3]).get("start"), dict(t[3]).get("end")
    if start is not None and constval(start) is None:
        return False
    return end is not None and not is_call(end, "len")


class Ctx:
    def __init__(self, prog, pid, tier="quick"):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.known = set(json.load(open(KNOWN_FNS)))
        self.obs = []          # (rule, where, ok)
        self.viol = []         # dict(key, rule, msg, where, path)
        self.functions = set()
        self.samples = []
        self._flat = {}
        self.floors = {}
        self.extra = {}

    # -- model access
    def is_known(self, b):
        return (b.crate + ":" + b.key) in self.known

    def fn(self, key, crate="splr.lib"):
        """the unique body named key"""
        c = [b for b in self.prog.fns(key) if b.crate == crate]
        if len(c) > 1:
            d = [b for b in c if b.keys[0] == key]
            if len(d) == 1:
                c = d
        if len(c) > 1:
            d = [b for b in c if b.kind == "fn"]
            if len(d) == 1:
                c = d
        if len(c) != 1:
            raise Missing(f"function {key} ({len(c)} candidates in {crate})")
        self.functions.add(c[0].uid)
        return c[0]

    def flat(self, root, inline=(), crate="splr.lib", closures=True):
        b = root if isinstance(root, Body) else self.fn(root, crate)
        inl = frozenset(inline)
        k = (b.uid, inl, closures)
        if k not in self._flat:
            def pol(x):
                if x.kind == "closure":
                    return False
                if any(kk in inl for kk in x.keys):
                    return True
                if self.is_known(x):
                    return False
                return not (x.trait in FOREIGN_TRAITS)
            F = Flat(self.prog, b, inline=pol, closures=closures)
            self._flat[k] = F
            for fr, bb in F.frame_body.items():
                self.functions.add(bb.uid)
        return self._flat[k]

    # -- recording
    def ob(self, rule, ok, msg, key, where="", path=None):
        """record one obligation; a failed one is a violation keyed by (rule, key)"""
        self.obs.append((rule, where, bool(ok), key))
        if not ok:
            self.viol.append({"key": f"{rule}:{key}", "rule": rule, "msg": msg, "where": where,
                              "path": path or []})
        return ok

    def floor(self, rule, n, count):
        return self.ob("floor", count >= n, f"rule {rule} found {count} instances, at least {n} are expected",
                       rule, "")

    # -- events
    def calls(self, F, *names, pred=None):
        def p(n):
            return n.kind in ("call", "diverge") and any(k in names for k in n.data[0]) and (pred is None or pred(n))
        return F.events(p)

    def args(self, F, nid):
        return [F.term(a) for a in F.nodes[nid].data[1]]

    def writes(self, F, field, base=None, val=None):
        """assignments whose destination's last field is `field`"""
        out = []
        for n in F.nodes:
            if n.kind != "assign" or n.id not in F.at:
                continue
            pl = n.data[0]
            fs = [e for e in pl[1] if e[0] == "f"]
            if not fs:
                # write through a reference: look at the term
                if pl[1] and pl[1][0][0] == "*":
                    t = F.place_term(pl)
                    if not (t[0] == "field" and t[2] == field):
                        continue
                else:
                    continue
            elif fs[-1][1] != field or any(e[0] in ("i", "ci") for e in pl[1][pl[1].index(fs[-1]) + 1:]):
                continue
            if base is not None and not base(F.place_term(pl)):
                continue
            if val is not None and not val(F.rv_term(n.data[1], 0, (), n)):
                continue
            out.append(n.id)
        return out

    def wval(self, F, nid):
        n = F.nodes[nid]
        return F.rv_term(n.data[1], 0, (), n)

    def where(self, F, nid):
        n = F.nodes[nid]
        return f"{n.body.file}:{n.line} ({n.body.key})"

    # -- path rules
    def edge_ok(self, F, excuses):
        if not excuses:
            return None

        def ok(i, j, e):
            n = F.nodes[F.pn[i]]
            if e is None or n.kind != "switch":
                return True
            fs = F.pfacts(i, e)
            if any(p(f) for f in fs for p in excuses if not hasattr(p, "all_facts")):
                return False
            ps = [p for p in excuses if hasattr(p, "all_facts")]
            return not (ps and fs and any(p(list(F.facts().get(i, ())) + list(fs)) for p in ps))
        return ok

    def only_if(self, rule, F, nids, fact, what, key):
        """every path to each node crosses an edge establishing fact"""
        ok_all = True
        for nid in nids:
            p = F.guard_path(nid, fact) if not any(fact(f) for f in F.facts_at(nid)) else None
            if p is not None and self.filtered(F, nid, fact):
                p = None
            ok_all &= self.ob(rule, p is None, f"{self.where(F, nid)}: reached without {what}", key,
                              self.where(F, nid), F.show(p) if p else None)
        return ok_all

    def before(self, rule, F, A, nids, what, key, excuses=()):
        """on every path to each node of nids some node of A has been executed"""
        A = set(A)
        for nid in nids:
            p = F._find(F.pstart, lambda i: F.pn[i] == nid, lambda i: F.pn[i] in A, self.edge_ok(F, excuses))
            self.ob(rule, p is None, f"{self.where(F, nid)}: reached without {what} before it", key,
                    self.where(F, nid), F.show(p) if p else None)

    def after(self, rule, F, nids, B, what, key, excuses=(), goal=None):
        """from each node every path to a return (or goal) executes some node of B"""
        B = set(B)
        g = goal or (lambda i: F.nodes[F.pn[i]].kind == "return")
        for nid in nids:
            p = F.path_after(nid, g, lambda i: F.pn[i] in B, self.edge_ok(F, excuses))
            self.ob(rule, p is None, f"{self.where(F, nid)}: can finish without {what} after it", key,
                    self.where(F, nid), F.show(p) if p else None)

    def together(self, rule, F, nids, B, what, key, excuses=(), goal=None, local=False):
        """each node of nids has some node of B before or after it on every path from the entry to a return
        (local: within one iteration of the loop around it)"""
        B = set(B)
        g = goal or (lambda i: F.nodes[F.pn[i]].kind == "return")
        eo = self.edge_ok(F, excuses)
        for nid in nids:
            h = loop_around(F, nid) if local else None
            g2 = (lambda i: g(i) or F.pn[i] == h[0]) if h else g
            p = F.path_after(nid, g2, lambda i: F.pn[i] in B, eo)
            if p is not None:
                if h:
                    q = F._find(list(F.at[h[0]]), lambda i: F.pn[i] == nid, lambda i: F.pn[i] in B,
                                lambda i, j, e: F.pn[j] in h[1] and F.pn[j] != h[0] and (eo is None or eo(i, j, e)))
                else:
                    q = F._find(F.pstart, lambda i: F.pn[i] == nid, lambda i: F.pn[i] in B, eo)
                if q is None:
                    p = None
            self.ob(rule, p is None, f"{self.where(F, nid)}: without {what}", key, self.where(F, nid), F.show(p) if p else None)

    def always(self, rule, F, B, what, key, excuses=(), goal=None):
        """every path from the entry to a return executes some node of B"""
        B = set(B)
        g = goal or (lambda i: F.nodes[F.pn[i]].kind == "return")
        p = F._find(F.pstart, g, lambda i: F.pn[i] in B, self.edge_ok(F, excuses))
        w = f"{F.root.file}:{F.root.line} ({F.root.key})"
        return self.ob(rule, p is None and bool(B), f"{w}: can finish without {what}", key, w, F.show(p) if p else None)

    def each_iteration(self, rule, F, nids, what, key, excuses=(), outer=0):
        """no iteration of the loop around nids completes without executing one of them, unless excused"""
        nids = list(nids)
        if not nids:
            return self.ob(rule, False, f"{F.root.key}: {what} does not occur", key, F.root.where())
        hs = [loop_around(F, n, outer) for n in nids]
        hs = [h for h in hs if h]
        if not hs:
            return self.ob(rule, False, f"{self.where(F, nids[0])}: {what} is not inside a loop", key,
                           self.where(F, nids[0]))
        h, body = hs[0]
        B = set(nids)
        eo = self.edge_ok(F, excuses)

        def edge(i, j, e):
            if F.pn[j] not in body:
                return False
            return eo is None or eo(i, j, e)
        bad = None
        for i in F.at[h]:
            for j, e in F.ps[i]:
                if not edge(i, j, e):
                    continue
                r = F._find(j, lambda x: F.pn[x] == h and not F.stopped(x), lambda x: F.pn[x] in B, edge)
                if r is not None:
                    bad = [i] + r
        return self.ob(rule, bad is None, f"{self.where(F, nids[0])}: an iteration can pass without {what}", key,
                       self.where(F, nids[0]), F.show(bad) if bad else None)

    def no_early_exit(self, rule, F, nid, what, key, excuses=(), outer=0):
        """the loop around nid ends only by exhausting its iterator/condition or on an excused edge"""
        r = loop_around(F, nid, outer)
        if r is None:
            return self.ob(rule, False, f"{self.where(F, nid)}: {what} is not inside a loop", key, self.where(F, nid))
        h, body = r
        for m in body:
            n = F.nodes[m]
            if n.kind == "call" and last(n.data[0][0]) in ("next", "next_back") and n.data[1] and \
                    (loop_around(F, m) or (None,))[0] == h:
                for s in subterms(F.term(n.data[1][0])):
                    if s and s[0] == "call" and (last(s[1]) == "take" and len(s[2]) == 2 and constval(s[2][1]) is not None or
                                                 last(s[1]) in ("step_by", "nth")):
                        return self.ob(rule, False, f"{self.where(F, nid)}: {what} covers only a part ({last(s[1])})", key,
                                       self.where(F, nid))
                    if s and s[0] == "index" and cut_slice(s[2]):
                        return self.ob(rule, False, f"{self.where(F, nid)}: {what} covers only a part of {tstr(s[1])[:40]}", key,
                                       self.where(F, nid))
        eo = self.edge_ok(F, excuses)
        bad = None
        # nodes reachable in the loop from its header without excused edges
        seen = set()
        st = list(F.at[h])
        cond = self._header_tests(F, h, body)
        while st and bad is None:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            for j, e in F.ps[i]:
                if eo is not None and not eo(i, j, e):
                    continue
                if F.pn[j] in body:
                    st.append(j)
                elif e is not None and any(f[1] and f[0][0] == "is" and f[0][2] == "None" and
                                           is_call(f[0][1], "pop", "pop_front", "pop_back", "next")
                                           for f in F.edge_facts(F.nodes[F.pn[i]], e)):
                    continue        # nothing is left
                elif (F.pn[i] not in cond or F.stopped(i) and F.hof[F.pn[i]][0][:4] == "try_") and F.nodes[F.pn[i]].kind != "assert":
                    # leaving the loop somewhere else: allowed only if it cannot return normally
                    p = F._find(j, lambda x: F.nodes[F.pn[x]].kind == "return" and (F.pval[x].get((0, 0)) or "??")[1] != "Err",
                                lambda x: False, eo)
                    if p is not None:
                        bad = [i] + p
                        break
        return self.ob(rule, bad is None, f"{self.where(F, nid)}: {what} can stop early", key, self.where(F, nid),
                       F.show(bad) if bad else None)

    def _header_tests(self, F, h, body):
        """the switch nodes that are the loop's own exhaustion test: first switch after the header on
        an iterator's next/pop, a HOF closure head, or the first comparison of a while loop"""
        out = set()
        seen = set()
        st = [h]
        while st:
            x = st.pop()
            if x in seen or x not in body:
                continue
            seen.add(x)
            n = F.nodes[x]
            if n.kind == "switch":
                out.add(x)
                continue
            if n.kind == "nop" and isinstance(n.data, tuple) and n.data[0] == "closure?":
                out.add(x)
                continue
            for s, _ in n.succ:
                st.append(s)
        return out

    # -- values of booleans and filters
    def implied(self, F, op, want=True, depth=0):
        """facts that hold whenever a boolean operand has the value want; None if it never has"""
        if op[0] == "k":
            v = op[1].get("v")
            return None if v is not None and bool(v) != want else set()
        if op[0] not in ("c", "m") or depth > 6:
            return set()
        out = set(bool_fact(F.term(op), want))
        if op[1][1]:
            return out
        ds = [d for d in F.defs.get(op[1][0], []) if d.id in F.at]
        if not ds:
            return out
        acc = None
        for d in ds:
            cur = set(F.facts_at(d.id))
            if d.kind == "assign":
                rv = d.data[1]
                if rv[0] == "use":
                    r = self.implied(F, rv[1], want, depth + 1)
                    if r is None:
                        continue
                    cur |= r
                elif rv[0] == "un" and rv[1] == "Not":
                    r = self.implied(F, rv[2], not want, depth + 1)
                    if r is None:
                        continue
                    cur |= r
                elif rv[0] == "bin" and ((rv[1] == "BitAnd" and want) or (rv[1] == "BitOr" and not want)):
                    for x in (rv[2], rv[3]):
                        r = self.implied(F, x, want, depth + 1)
                        if r is None:
                            cur = None
                            break
                        cur |= r
                    if cur is None:
                        continue
                    cur |= set(bool_fact(F.rv_term(rv, 0, (), d), want))
                else:
                    cur |= set(bool_fact(F.rv_term(rv, 0, (), d), want))
            elif d.kind == "call":
                cur |= set(bool_fact(F.call_term(d), want))
            acc = cur if acc is None else acc & cur
        if acc is None:
            return None
        return out | acc

    def closure_implies(self, uid, fact, want=True, crate="splr.lib"):
        """a closure returns want only where fact holds"""
        b = self.prog._b(uid, crate)
        if b is None:
            return False
        G = self.flat(b)
        r = self.implied(G, ("c", ((0, 0), ())), want)
        return r is None or any(fact(f) for f in r)

    def filtered(self, F, nid, fact):
        """nid handles the elements of an iterator that keeps only those for which fact holds"""
        for t in self.upstream(F, nid):
            for s in subterms(t):
                if s and is_call(s, "filter", "take_while") and len(s[2]) == 2 and s[2][1][0] == "closure":
                    if self.closure_implies(s[2][1][1], fact, True, F.root.crate):
                        return True
        return False

    def upstream(self, F, nid):
        """the iterators whose elements nid handles: of the loops around it and of the library functions that call its closure"""
        for h, body in loops_of(F).items():
            if nid not in body:
                continue
            for m in body:
                n = F.nodes[m]
                if n.kind == "call" and last(n.data[0][0]) == "next" and n.data[1]:
                    yield F.term(n.data[1][0])
        fr = F.nodes[nid].frame
        while fr is not None:
            if fr in F.frame_hof:
                n = F.nodes[F.frame_hof[fr]]
                if n.data[1]:
                    yield F.term(n.data[1][0])
            p = F.frame_parent.get(fr)
            fr = p[0] if p else None

    # -- who may call / write
    def callers(self, *names, crate=None):
        """(body, terminator line) for every call site of the named functions in the analysed crates"""
        out = []
        for b in self.prog.bodies.values():
            if crate and b.crate != crate:
                continue
            for bi, t in body_calls(b):
                fn = op_fn(t[2])
                if fn is None:
                    continue
                ks = self.prog.callkeys(fn, b.crate)
                if any(k in names for k in ks):
                    out.append((b, t[1]))
            # function values passed around
            for blk in b.blocks:
                t = blk["t"]
                if t[0] == "call":
                    for a in t[3]:
                        fn = op_fn(a)
                        if fn is not None and any(k in names for k in self.prog.callkeys(fn, b.crate)):
                            out.append((b, t[1]))
        return out

    def owner(self, b, depth=0):
        """the known functions a body belongs to: closures go to their parent, unknown helpers to callers"""
        if b.kind == "closure":
            p = self.prog.bodies.get(b.parent)
            return self.owner(p, depth) if p is not None else {b.uid}
        if self.is_known(b) or depth > 6:
            return {b.key}
        out = set()
        for c, _ in self.callers(*[b.keys[0]]):
            if c.uid != b.uid:
                out |= self.owner(c, depth + 1)
        return out or {b.key}

    def who_calls(self, rule, names, allowed, why, key, crate=None):
        n = 0
        for b, line in self.callers(*names, crate=crate):
            for o in self.owner(b):
                n += 1
                self.ob(rule, o in allowed, f"{b.file}:{line} ({b.key}): {why}: {o} calls {'/'.join(names)}",
                        f"{key}:{o}", b.where(line))
        return n

    # -- automata over paths
    def automaton(self, F, start, init, step, bad, edge_ok=None, limit=200000):
        """walk the product graph together with a small state machine.
        start: product ids; step(state, node)->state (None prunes); bad(state, node, product id)->bool.
        returns the first bad path (product ids) or None"""
        prev = {}
        dq = deque()
        for s in ([start] if isinstance(start, int) else start):
            k = (s, init)
            prev[k] = None
            dq.append(k)
        while dq:
            k = dq.popleft()
            i, st = k
            n = F.nodes[F.pn[i]]
            st2 = step(st, n)
            if st2 is None:
                continue
            if bad(st2, n, i):
                path = []
                while k is not None:
                    path.append(k[0])
                    k = prev[k]
                return path[::-1]
            for j, e in F.ps[i]:
                if edge_ok and not edge_ok(i, j, e):
                    continue
                k2 = (j, st2)
                if k2 not in prev:
                    prev[k2] = k
                    dq.append(k2)
                    if len(prev) > limit:
                        raise RuntimeError("automaton too large: " + F.root.uid)
        return None

    def reads(self, F, op, depth=0, seen=None):
        """flat nodes whose values flow into an operand through single-definition temporaries"""
        seen = set() if seen is None else seen
        out = set()
        if op[0] not in ("c", "m") or depth > 12:
            return out
        loc = op[1][0]
        locs = [loc] + [e[1] for e in op[1][1] if e[0] == "i"]
        for l in locs:
            if l in seen:
                continue
            seen.add(l)
            for d in F.defs.get(l, []):
                if d.id not in F.at:
                    continue
                out.add(d.id)
                if d.kind == "assign":
                    rv = d.data[1]
                    k = rv[0]
                    ops = []
                    if k in ("use", "repeat"):
                        ops = [rv[1]]
                    elif k in ("ref", "raw"):
                        ops = [("c", rv[2])]
                    elif k in ("cast", "un"):
                        ops = [rv[2]]
                    elif k == "bin":
                        ops = [rv[2], rv[3]]
                    elif k == "agg":
                        ops = list(rv[2])
                    for o in ops:
                        out |= self.reads(F, o, depth + 1, seen)
                elif d.kind in ("call",):
                    for o in d.data[1]:
                        out |= self.reads(F, o, depth + 1, seen)
        return out

    def edges_with(self, F, fact):
        """(product id, successor, switch node) of every edge establishing a fact"""
        out = []
        for s in F.nodes:
            if s.kind != "switch" or s.id not in F.at:
                continue
            for pi in F.at[s.id]:
                for j, e in F.ps[pi]:
                    if e is not None and any(fact(f) for f in F.pfacts(pi, e)):
                        out.append((pi, j, s.id))
        return out

    def once_true(self, rule, F, fact, B, goal, what, key, excuses=()):
        """after every edge establishing fact, each path to goal executes a node of B or takes an excused edge"""
        es = self.edges_with(F, fact)
        B = set(B)
        eo = self.edge_ok(F, excuses)
        done = set()
        for pi, j, sid in es:
            p = F._find(j, goal, lambda x: F.pn[x] in B, eo)
            if p is None and sid in done:
                continue
            done.add(sid)
            self.ob(rule, p is None, f"{self.where(F, sid)}: {what}", key, self.where(F, sid),
                    F.show([pi] + p) if p else None)
        return len(es)

    def reaches(self, F, a, b):
        """some product path leads from (after) flat node a to flat node b"""
        return F.path_after(a, lambda i: F.pn[i] == b, lambda i: False) is not None


def made_by(F, t, *names):
    """the term comes from one of the named calls, through any variable all of whose definitions do"""
    if has_call(t, *names):
        return True
    for s in subterms(t):
        if s and s[0] == "var" and len(s) > 2:
            ds = [d for d in F.defs.get(s[1], []) if d.id in F.at]
            if ds and all((d.kind == "call" and is_call(F.call_term(d), *names)) or
                          (d.kind == "assign" and not d.data[0][1] and has_call(F.rv_term(d.data[1], 0, (), d), *names))
                          for d in ds):
                return True
    return False


def same(a, b):
    return strip(a) == strip(b)
