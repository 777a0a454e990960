"""P23 tables indexed by variable or literal: their sizes as affine terms of the number of variables, their growth, and the index forms
of unchecked accesses."""
from fractions import Fraction
from rules import *
from registry import prop
from props_model import norm

ADDS = ("Add", "AddWithOverflow", "AddUnchecked")
SUBS = ("Sub", "SubWithOverflow", "SubUnchecked")
MULS = ("Mul", "MulWithOverflow", "MulUnchecked")
# tables: path from the solver's fields, entries per variable, entries before the first variable
VARS = [(("asg", "var"), 1), (("asg", "var_order", "heap"), 1), (("asg", "var_order", "idxs"), 1), (("cdb", "lbd_temp"), 1),
        (("cdb", "watch_cache"), 2), (("cdb", "binary_link", "list"), 2)]
ELIM = [(("var",), 1), (("var_queue", "heap"), 1), (("var_queue", "idxs"), 1)]
COUNT = [("asg", "num_vars"), ("state", "target", "num_of_variables")]
SAME = {"map", "enumerate", "cloned", "copied", "rev", "inspect", "into_iter", "iter", "iter_mut", "by_ref", "fuse", "peekable",
        "as_slice", "deref", "deref_mut", "as_mut_slice", "into_boxed_slice", "into_vec", "to_vec", "clone", "from", "into", "as_ref",
        "collect", "from_iter", "borrow", "to_owned", "drain"}
GROW1 = {"push"}
SHRINK = {"truncate", "pop", "clear", "remove", "swap_remove", "drain", "split_off", "retain", "retain_mut", "dedup", "dedup_by",
          "dedup_by_key", "set_len", "resize", "resize_with", "take", "replace", "swap", "delete_unstable", "into_iter", "append",
          "splice", "extract_if", "pop_if"}
NEW = {"new", "with_capacity", "default"}


# ------------------------------------------------------------------ affine terms
def add(p, q, k=1):
    if p is None or q is None:
        return None
    d = dict(p)
    for a, v in q.items():
        d[a] = d.get(a, 0) + k * v
    return {a: v for a, v in d.items() if v}


def mul(p, q):
    if p is None or q is None:
        return None
    if set(p) <= {1}:
        p, q = q, p
    if not set(q) <= {1}:
        return None
    k = q.get(1, 0)
    return {a: v * k for a, v in p.items() if v * k}


def poly(t):
    """a term as {atom: coefficient}; constants under 1"""
    t = norm(t)
    while t[0] == "cast":
        t = t[3]
    if t[0] == "field" and t[2] in ("0", 0) and t[1][0] == "bin":
        t = t[1]
    v = constval(t)
    if isinstance(v, int) and not isinstance(v, bool):
        return {1: v} if v else {}
    if t[0] == "bin" and len(t) > 3:
        if t[1] in ADDS + SUBS:
            return add(poly(t[2]), poly(t[3]), 1 if t[1] in ADDS else -1)
        if t[1] in MULS:
            return mul(poly(t[2]), poly(t[3]))
        if t[1] == "Shl" and isinstance(constval(t[3]), int):
            return mul(poly(t[2]), {1: 1 << constval(t[3])})
        if t[1] == "Div" and isinstance(constval(t[3]), int) and constval(t[3]) > 0:
            return mul(poly(t[2]), {1: Fraction(1, constval(t[3]))})        # an upper bound
    if t[0] == "call" and len(t[2]) == 2 and last(t[1]) in ("saturating_add", "wrapping_add", "saturating_sub"):
        return add(poly(t[2][0]), poly(t[2][1]), -1 if "sub" in last(t[1]) else 1)
    if t[0] == "call" and len(t[2]) == 1 and last(t[1]) in ("from", "into", "clone"):
        return poly(t[2][0])
    return {t: 1}


def ptxt(p):
    if p is None:
        return "?"
    s = [f"{v}*{tstr(a)}" if v != 1 else tstr(a) for a, v in p.items() if a != 1]
    if p.get(1) or not s:
        s.append(str(p.get(1, 0)))
    return " + ".join(s)


def at_least(p, q):
    """p >= q for every value of the atoms; None if it cannot be told"""
    d = add(p, q, -1)
    if d is None:
        return None
    if all(v >= 0 for v in d.values()):
        return True
    if all(v <= 0 for v in d.values()):
        return False
    return None


class Sizes:
    """lengths of vectors built in one flat graph"""

    def __init__(self, F):
        self.F = F
        self.memo = {}

    # the number of elements an iterator yields
    def count(self, t, depth=0):
        if depth > 20 or not isinstance(t, tuple):
            return None
        if t[0] == "adt":
            nm = last(t[1].replace("::", "."))
            if nm == "Range" and len(t[3]) == 2:
                return add(poly(t[3][1][1]), poly(t[3][0][1]), -1)
            if nm == "RangeInclusive" and len(t[3]) >= 2:
                return add(add(poly(t[3][1][1]), poly(t[3][0][1]), -1), {1: 1})
        if t[0] == "array":
            return {1: len(t[1])} if isinstance(t[1], tuple) else None
        if t[0] == "call":
            nm, a = last(t[1]), t[2]
            if t[1].endswith("RangeInclusive.new") and len(a) == 2:
                return add(add(poly(a[1]), poly(a[0]), -1), {1: 1})
            if nm in ("repeat_n",) and len(a) == 2:
                return poly(a[1])
            if nm == "take" and len(a) == 2:
                return poly(a[1]) if has_call(a[0], "repeat", "repeat_with", "from_fn", "cycle", "successors") or \
                    a[0][0] == "adt" and "RangeFrom" in a[0][1] else None
            if nm == "skip" and len(a) == 2:
                return add(self.count(a[0], depth + 1), poly(a[1]), -1)
            if nm == "chain" and len(a) == 2:
                return add(self.count(a[0], depth + 1), self.count(a[1], depth + 1))
            if nm == "once":
                return {1: 1}
            if nm == "empty":
                return {}
            if nm in SAME and a:
                return self.count(a[0], depth + 1)
            return self.size(t, depth + 1)
        return None

    def size(self, t, depth=0):
        """the number of elements of a vector; None if unknown"""
        if depth > 20 or not isinstance(t, tuple):
            return None
        if t[0] == "field" and is_call(t[1], "default"):
            return {}
        if t[0] != "call":
            return self.count(t, depth + 1) if t[0] in ("adt", "array") else None
        nm, a = last(t[1]), t[2]
        if nm in ("from_elem",) and len(a) == 2:
            base = poly(a[1])
        elif nm in NEW and (not a or nm == "with_capacity"):
            base = {}
        elif nm in SAME and a:
            base = self.count(a[0], depth + 1)
        else:
            return None
        if base is None:
            return None
        if len(t) > 3 and isinstance(t[3], int):
            g = self.grown(lambda r: r == t)
            return add(base, g)
        return base

    def grown(self, mine):
        """by how much a vector recognised by mine(receiver) grows from the entry to a return (the least); None if unknown"""
        r = self.growths(mine)
        if not r or None in r:
            return None
        ps = [dict(x) for x in r]
        best = ps[0]
        for p in ps[1:]:
            o = at_least(p, best)
            if o is None:
                return None
            if o is False:
                best = p
        return best

    def events(self, mine):
        out = {}
        F = self.F
        for n in F.nodes:
            if n.kind != "call" or n.id not in F.at or not n.data[1]:
                continue
            nm = last(n.data[0][0])
            if nm not in GROW1 | SHRINK | {"insert", "extend", "extend_from_slice", "resize", "resize_with"}:
                continue
            r = F.term(n.data[1][0])
            if not mine(r):
                continue
            if nm in GROW1 or nm == "insert" and len(n.data[1]) == 3:
                out[n.id] = ({1: 1},)
            elif nm in ("extend", "extend_from_slice"):
                out[n.id] = (self.count(F.term(n.data[1][1])),)
            elif nm in ("resize", "resize_with") and len(n.data[1]) == 3:
                # to the old length plus something
                p = poly(F.term(n.data[1][1]))
                ln = [a for a in p or {} if a != 1 and is_call(a, "len") and norm(a[2][0]) == norm(r)]
                out[n.id] = (add(p, {ln[0]: -1}) if len(ln) == 1 and p[ln[0]] == 1 else None,)
            elif nm in ("swap", "iter", "into_iter", "take", "replace") and len(n.data[1]) == 3:
                continue
            else:
                out[n.id] = (None,)
        return out

    def growths(self, mine):
        F = self.F
        ev = self.events(mine)
        if not ev:
            return {frozenset()}
        L = loops_of(F)
        reach = set(F.at)
        real = defaultdict(set)
        for i in range(len(F.pn)):
            for j, _ in F.ps[i]:
                real[F.pn[i]].add(F.pn[j])
        # loops that matter, innermost first
        heads = sorted((h for h, b in L.items() if b & set(ev)), key=lambda h: len(L[h]))
        gain = {k: {fz(v[0])} for k, v in ev.items()}
        within = {}          # node -> collapsed head
        for h in heads:
            body = L[h]
            per = self.dag(h, body, real, gain, within, back=h)
            if per == {frozenset()}:
                tot = {frozenset()}
            elif per is None or None in per or len(per) != 1:
                tot = {None}
            else:
                tot = {fz(mul(dict(list(per)[0]), self.trips(h, body)))}
                if self.broken(h, body, real):
                    tot = {None}
            gain[h] = tot
            for m in body:
                within[m] = h
        r = self.dag(F.entry.id, reach, real, gain, within, back=None)
        return r

    def dag(self, start, body, real, gain, within, back):
        """the set of total gains over the paths from start to the back edge (or to a return); inner loops are collapsed"""
        F = self.F

        def rep(x):
            seen = set()
            while x in within and within[x] != x and x not in seen:
                seen.add(x)
                x = within[x]
            return x
        # successors of representatives
        groups = defaultdict(set)
        for x in body:
            groups[rep(x) if x != start else x].add(x)
        succ = {}
        for g, xs in groups.items():
            s = set()
            for x in xs:
                for y in real[x]:
                    if back is not None and y == back:
                        s.add("BACK")
                        continue
                    if y not in body:
                        continue
                    ry = rep(y) if y != start else y
                    if ry != g:
                        s.add(ry)
            succ[g] = s
        memo = {}
        onstack = set()

        def go(g):
            # iterative post-order
            st = [(g, iter(succ.get(g, ())))]
            onstack.add(g)
            while st:
                x, it = st[-1]
                for y in it:
                    if y == "BACK" or y in memo:
                        continue
                    if y in onstack:
                        continue
                    onstack.add(y)
                    st.append((y, iter(succ.get(y, ()))))
                    break
                else:
                    st.pop()
                    onstack.discard(x)
                    acc = set()
                    n = F.nodes[x]
                    if back is None and n.kind == "return":
                        acc.add(frozenset())
                    for y in succ.get(x, ()):
                        if y == "BACK":
                            acc.add(frozenset())
                        else:
                            acc |= memo.get(y, set())
                    out = set()
                    for g1 in gain.get(x, {frozenset()}) if not (x == start and back is not None) else {frozenset()}:
                        for r in acc:
                            out.add(None if g1 is None or r is None else fz(add(dict(g1), dict(r))))
                    memo[x] = out if len(out) <= 16 else {None}
        go(start)
        return memo.get(start)

    def trips(self, h, body):
        """how often the body of a loop runs"""
        F = self.F
        found = []
        for m in body:
            n = F.nodes[m]
            r = loop_around(F, m)
            if r is None or r[0] != h:
                continue
            if n.kind == "call" and last(n.data[0][0]) in ("next", "next_back") and n.data[1]:
                found.append(self.count(F.term(n.data[1][0])))
            if n.kind == "nop" and isinstance(n.data, tuple) and n.data[0] == "closure?":
                for fr, k in F.frame_hof.items():
                    q = F.nodes[k]
                    if q.data[1] and any(F.nodes[x].frame == fr for x in body):
                        found.append(self.count(F.term(q.data[1][0])))
        return found[0] if len(found) == 1 else None

    def broken(self, h, body, real):
        """the loop can be left in the middle"""
        tests = set()
        st, seen = [h], set()
        while st:
            x = st.pop()
            if x in seen or x not in body:
                continue
            seen.add(x)
            n = self.F.nodes[x]
            if n.kind == "switch" or n.kind == "nop" and isinstance(n.data, tuple) and n.data[0] == "closure?":
                tests.add(x)
                continue
            st += real[x]
        return any(y not in body and x not in tests for x in body for y in real[x] if self.F.nodes[x].kind != "assert")


def fz(p):
    return None if p is None else frozenset(p.items())


# ------------------------------------------------------------------ the rules
def field_of(t, path):
    """the value of a field path of an aggregate; None if it is not one"""
    for f in path:
        if not isinstance(t, tuple):
            return None
        if t[0] == "adt":
            m = [x[1] for x in t[3] if x[0] == f]
            if not m:
                return None
            t = m[0]
        elif is_call(t, "default") or t[0] == "field" and is_call(t[1], "default"):
            t = ("field", t, f)
        else:
            return None
    return t


def fpath(t):
    """(fields from the outermost, ...) of a place term"""
    t = strip(t)
    out = []
    while isinstance(t, tuple) and t[0] in ("field", "deref", "index"):
        if t[0] == "index":
            return None
        if t[0] == "field":
            out.append(t[2])
        t = t[1]
    return tuple(reversed(out))


def ends(t, path):
    p = fpath(t)
    return p is not None and len(p) >= len(path) and p[-len(path):] == path


def all_fns(c):
    return [k.split(":", 1)[1] for k in c.known if k.startswith("splr.lib:")]


@prop("P23", "interprocedural table-size and growth analysis (affine), and index-form query over unchecked accesses, over MIR",
      "Sizes are decided relative to the number of variables; that every stored literal names one of them rests on P09, P10 and P26. "
      "Indexes inside one clause are not bounded here.")
def p23(c):
    sizes(c)
    growth(c)
    lengths_kept(c)
    fresh(c)
    unchecked(c)
    ranges(c)


def sizes(c):
    ctor = [k for k in all_fns(c) if last(k) in ("instantiate", "new", "new_vars")]
    F = c.flat("Solver.instantiate", inline=ctor)
    t = F.local_term((0, 0))
    S = Sizes(F)
    nv = field_of(t, ("asg", "num_vars"))
    n = 0
    if nv is not None:
        n += check_sizes(c, F, S, t, VARS, poly(nv), "Solver.instantiate")
    st = field_of(t, ("state", "cnf"))
    if st is not None and nv is not None:
        b = nv[1] if nv[0] == "field" and nv[2] == "num_of_variables" else None
        if b is not None:
            c.ob("size", norm(st) == norm(b) or is_call(st, "clone"), f"{F.root.where()}: the state keeps another description than the "
                 "one the tables are sized for", "same-description", F.root.where())
    # tables made per simplification
    ctor = [k for k in ctor if not k.startswith("Solver.")]
    G = c.flat("Eliminator.instantiate", inline=[k for k in ctor if k != "Eliminator.instantiate"])
    t = G.local_term((0, 0))
    S2 = Sizes(G)
    at = [s for s in subterms(t) if s and s[0] == "field" and s[2] == "num_of_variables" and s[1][0] == "arg"]
    if at:
        n += check_sizes(c, G, S2, t, ELIM, {norm(at[0]): 1}, "Eliminator.instantiate")
    c.floor("size", 4, n)


def check_sizes(c, F, S, t, tables, nv, what):
    n = 0
    for path, per in tables:
        x = field_of(t, path)
        if x is None:
            continue
        p = S.size(x)
        c.extra.setdefault("sizes", {})[".".join(path)] = ptxt(p)
        if p is None:
            continue
        n += 1
        need = add(mul(nv, {1: per}), {1: per})
        r = at_least(p, need)
        c.ob("size", r is not False and (r is not None or not set(p) <= {1}),
             f"{what}: {'.'.join(path)} starts with {ptxt(p)} entries, {ptxt(need)} are needed", "size:" + ".".join(path), F.root.where())
    return n


def growth(c):
    F = c.flat("Solver.add_var", inline=[k for k in all_fns(c) if last(k) in ("handle", "expand_heap", "add_new_var") or "new_var" in last(k)])
    S = Sizes(F)
    w = F.root.where()
    for path, per in VARS:
        g = S.grown(lambda r: ends(r, path[1:]) and path[0] in (fpath(r) or ()))
        c.extra.setdefault("growth", {})[".".join(path)] = ptxt(g)
        if g is None:
            r = S.growths(lambda r: ends(r, path[1:]) and path[0] in (fpath(r) or ()))
            ok = any(x is None for x in r or ())
            c.ob("growth", ok, f"{w}: {'.'.join(path)} grows by different amounts on different paths", "growth:" + ".".join(path), w)
            continue
        r = at_least(g, {1: per})
        c.ob("growth", r is not False, f"{w}: a new variable adds {ptxt(g)} entries to {'.'.join(path)}, {per} needed",
             "growth:" + ".".join(path), w)
    counters = {}
    for n in F.nodes:
        if n.kind == "assign" and n.id in F.at:
            p = fpath(F.place_term(n.data[0])) if n.data[0][1] else None
            if p and p[-1] in ("num_vars", "num_of_variables"):
                counters.setdefault(p, []).append(n.id)
    c.extra["counters"] = [".".join(map(str, k)) for k in counters]
    incr = set()
    for p, ns in counters.items():
        key = ".".join(map(str, p))
        ok = True
        for k in ns:
            v = poly(c.wval(F, k))
            pl = norm(F.place_term(F.nodes[k].data[0]))
            d = add(v, {pl: -1})
            if d is not None and pl in v and set(d) <= {1}:
                ok &= c.ob("growth", d.get(1, 0) == 1, f"{c.where(F, k)}: {key} changes by {ptxt(d)}", "count:" + key, c.where(F, k))
        ok &= c.always("growth", F, ns, f"counting the new variable in {key}", "count:" + key)
        mult = [k for k in ns for x in ns if c.reaches(F, k, x)]
        ok &= c.ob("growth", not mult, f"{key} is increased twice", "count-once:" + key, w)
        if ok:
            incr.add(p[-2:] if len(p) > 1 else p)
    for path in COUNT:
        c.ob("growth", any(p[-len(path[1:]):] == path[1:] for p in counters), f"{w}: {'.'.join(path)} is not increased", "count:" + ".".join(path), w)
    returned(c, F, counters)
    # what later tables are sized from
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or "test" in b.key:
            continue
        if not any(op_fn(t[2]) and "Eliminator.instantiate" in callkeys(c, op_fn(t[2])) for _, t in body_calls(b)):
            continue
        G = c.flat(b)
        for k in c.calls(G, "Eliminator.instantiate"):
            a = c.args(G, k)
            if len(a) != 2:
                continue
            p = fpath(a[1])
            if not p:
                continue
            n += 1
            src = p[-1]
            c.ob("later", any(src == q[0] for q in incr if len(q) == 2), f"{c.where(G, k)}: sized for {tstr(strip(a[1]))}, which does not "
                 "count the variables added later", "later:" + str(src), c.where(G, k))
    c.floor("later", 1, n)


def callkeys(c, fn):
    try:
        return c.prog.callkeys(fn)
    except Exception:
        return ()


def lengths_kept(c):
    """no table loses entries"""
    names = {p[-1] for p, _ in VARS + ELIM} | {"clause", "stats", "vali", "valf"}
    owners = ("AssignStack", "VarIdHeap", "ClauseDB", "BinaryLinkDB", "Eliminator", "VarOccHeap", "State", "ProgressRecord")
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib":
            continue
        if not any((op_fn(t[2]) or {}).get("name") in SHRINK for _, t in body_calls(b)):
            continue
        F = c.flat(b)
        for k in F.events(lambda m: m.kind == "call" and m.frame == F.entry.frame and last(m.data[0][0]) in SHRINK):
            nm = last(F.nodes[k].data[0][0])
            args = F.nodes[k].data[1]
            if not args or nm == "swap" and len(args) == 3 or nm in ("take", "skip") and len(args) == 2 or \
                    nm == "into_iter" and not moved(F, args[0]):
                continue
            for a in args if nm in ("swap", "replace", "take") else args[:1]:
                own = owner_field(F, a)
                if own is None:
                    continue
                n += 1
                ok = own[1] not in names or own[0] not in owners
                if not ok and nm in ("resize", "resize_with", "append"):
                    g = Sizes(F).grown(lambda r: norm(r) == norm(F.term(a)))
                    ok = nm == "append" or g is not None and at_least(g, {}) is True
                c.ob("kept", ok, f"{c.where(F, k)}: {nm} on {own[0]}.{own[1]}, a table with unchecked accesses",
                     f"kept:{own[0]}.{own[1]}", c.where(F, k))
    c.extra["length-changing calls"] = n
    # whole tables are not replaced
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.trait in FOREIGN_TRAITS:
            continue
        for blk in b.blocks:
            if blk.get("cleanup"):
                continue
            for st in blk["s"]:
                if st[0] != "=" or not st[2][1] or st[2][1][-1][0] != "f":
                    continue
                e = st[2][1][-1]
                own = last(str(e[2]).replace("::", "."))
                if own in owners and e[1] in names | {"var_order", "var_queue", "binary_link"} and len(st[2][1]) > 1:
                    c.ob("kept", e[1] in ("clause",) and own != "ClauseDB", f"{b.file}:{st[1]}: {own}.{e[1]} is replaced in {b.key}",
                         f"replaced:{own}.{e[1]}", b.where(st[1]))


def fresh(c):
    """the number given to a new clause is its place in the table"""
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or not any((op_fn(t[2]) or {}).get("name") == "push" for _, t in body_calls(b)):
            continue
        if not any("ClauseId" in l for l in b.locals):
            continue
        F = c.flat(b)
        push = [k for k in c.calls(F, "Vec.push") if owner_field(F, F.nodes[k].data[1][0]) == ("ClauseDB", "clause")]
        if not push:
            continue
        for k in c.calls(F, "ClauseId.from"):
            p = poly(c.args(F, k)[0])
            at = [a for a in p if a != 1 and is_call(a, "len") and ends(a[2][0], ("clause",))]
            if len(at) != 1 or p[at[0]] != 1:
                continue
            lens = [m for m in c.calls(F, "Vec.len") if ends(c.args(F, m)[0], ("clause",)) and
                    (c.reaches(F, m, k) or m == k)]
            d = p.get(1, 0)
            for m in lens:
                n += 1
                w = c.where(F, k)
                before = any(c.reaches(F, q, m) for q in push)
                if before and not any(c.reaches(F, m, q) for q in push):
                    c.ob("fresh", d == -1, f"{w}: the new clause is given number length{d:+d}", f"fresh:{b.key}", w)
                elif not before:
                    c.ob("fresh", d == 0, f"{w}: the new clause is given number length{d:+d}", f"fresh:{b.key}", w)
                    c.after("fresh", F, [m], push, "adding the clause the number was taken for", f"fresh-push:{b.key}")
    c.floor("fresh", 1, n)


def returned(c, F, counters):
    """add_var hands out the number of the new variable"""
    ws = [k for p, ns in counters.items() if p[-1] == "num_vars" for k in ns]
    for d in F.defs.get((0, 0), []):
        if d.id not in F.at:
            continue
        t = F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d)
        p = poly(t)
        at = [a for a in p if a != 1]
        if len(at) != 1 or p[at[0]] != 1 or (fpath(at[0]) or ("",))[-1] != "num_vars":
            continue
        # where the count is read
        src = d
        for _ in range(6):
            if src.kind == "assign" and src.data[1][0] in ("use", "cast") or src.kind == "assign" and src.data[1][0] == "bin":
                op = [o for o in src.data[1][1:] if isinstance(o, tuple) and o and o[0] in ("c", "m")]
                if len(op) == 1 and not op[0][1][1]:
                    q = [x for x in F.defs.get(op[0][1][0], []) if x.id in F.at]
                    if len(q) == 1:
                        src = q[0]
                        continue
            break
        after = all(c.reaches(F, w, src.id) for w in ws)
        before = not any(c.reaches(F, w, src.id) for w in ws)
        k = p.get(1, 0)
        if after or before:
            c.ob("growth", k == (0 if after else 1), f"{c.where(F, d.id)}: the number handed out is not the new count", "returned", c.where(F, d.id))


def moved(F, op):
    return op[0] == "m" and not is_ref(F, op)


def is_ref(F, op):
    loc = op[1][0]
    b = F.frame_body[loc[0]]
    return loc[1] < len(b.locals) and b.locals[loc[1]].startswith("&")


def owner_field(F, op):
    """(type, field) the operand refers to, when it is a field of a crate type"""
    if op[0] not in ("c", "m"):
        return None
    seen = set()
    pl = op[1]
    for _ in range(12):
        loc, proj = pl
        pr = [e for e in proj if e[0] != "*"]
        if pr:
            e = pr[-1]
            if e[0] == "f" and len(e) > 2 and "::" in str(e[2]):
                return last(str(e[2]).replace("::", ".")), e[1]
            return None
        ds = [d for d in F.defs.get(loc, []) if d.id in F.at]
        if len(ds) != 1 or ds[0].id in seen:
            return None
        seen.add(ds[0].id)
        d = ds[0]
        if d.kind == "assign":
            rv = d.data[1]
            if rv[0] == "ref":
                pl = rv[2]
                continue
            if rv[0] == "use" and rv[1][0] in ("c", "m"):
                pl = rv[1][1]
                continue
        if d.kind == "call" and last(d.data[0][0]) in ("deref", "deref_mut", "as_mut", "borrow_mut", "as_mut_slice") and d.data[1] and \
                d.data[1][0][0] in ("c", "m"):
            pl = d.data[1][0][1]
            continue
        return None
    return None


# ------------------------------------------------------------------ unchecked accesses
def unchecked(c):
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib":
            continue
        if not any("nchecked" in (op_fn(t[2]) or {}).get("name", "") for _, t in body_calls(b)):
            continue
        F = c.flat(b)
        for m in F.nodes:
            if m.id not in F.at or m.kind != "call" or m.frame != F.entry.frame or not m.data[0][0].endswith(
                    ("get_unchecked", "get_unchecked_mut", "unwrap_unchecked", "new_unchecked")):
                continue
            n += 1
            a = c.args(F, m.id)
            w = c.where(F, m.id)
            if m.data[0][0].endswith("new_unchecked"):
                c.ob("unchecked", constval(strip(a[0])) != 0, f"{w}: a zero without a check", f"zero:{b.key}", w)
                continue
            if m.data[0][0].endswith("unwrap_unchecked"):
                continue
            tab, ix = a[0], strip(a[1])
            while ix[0] == "cast":
                ix = strip(ix[3])
            lit = any(s and is_call(s, "from", "into") and s[1].startswith("usize") and len(s[2]) == 1 and
                      "Lit" in typeof(F, s[2][0]) for s in subterms(a[1]))
            kind = table_kind(F, tab)
            why = "the code of a literal in a table of variables" if lit and kind == "var" else form(F, kind, tab, ix)
            c.ob("unchecked", not why, f"{w}: unchecked access to {tstr(strip(tab))} at {tstr(ix)[:80]}: {why}", f"form:{b.key}", w)
    c.floor("unchecked", 1 if n or unsafe_off(c) else 1, n or (1 if unsafe_off(c) else 0))
    c.extra["unchecked accesses"] = n


def unsafe_off(c):
    return not any("nchecked" in (op_fn(t[2]) or {}).get("name", "") for b in c.prog.bodies.values() if b.crate == "splr.lib"
                   for _, t in body_calls(b))


def table_kind(F, t):
    p = fpath(t) or ()
    if p and p[-1] == "var":
        return "var"
    if p and p[-1] in ("watch_cache", "list"):
        return "lit"
    if p and p[-1] == "clause":
        return "clause"
    if p and p[-1] in ("stats", "vali", "valf"):
        return "enum"
    if p and p[-1] == "lits":
        return "lits"
    return "self" if not p else None


def typeof(F, t):
    if t[0] in ("arg",) and len(t) > 3:
        b = F.frame_body.get(t[1])
        return b.locals[t[2]] if b and t[2] < len(b.locals) else ""
    if t[0] == "var" and isinstance(t[1], tuple):
        b = F.frame_body.get(t[1][0])
        return b.locals[t[1][1]] if b and t[1][1] < len(b.locals) else ""
    return ""


def form(F, kind, tab, ix):
    """why an index may be outside; None if it is one of the entries (or cannot be told)"""
    if ix[0] == "bin":
        d = poly(ix)
        ats = [a for a in d or {} if a != 1]
        if len(ats) == 1 and d[ats[0]] == 1:
            k = d.get(1, 0)
            return f"shifted by {k}" if k and not (ats[0][0] == "call" and last(ats[0][1]) == "len" and k < 0) else None
        return "a computed index" if kind in ("var", "lit", "clause", "enum") else None
    if is_call(ix, "len") and kind != "lits":
        return "the length itself" if norm(ix[2][0]) == norm(strip(tab)) else None
    if kind == "clause" and is_call(ix, "vi"):
        return "a variable in the table of clauses"
    return None


def ranges(c):
    """loops over all variables stay within the tables"""
    USE = {"AssignStack.var", "AssignStack.var_mut", "AssignStack.assign", "AssignStack.level", "AssignStack.reason"}
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure":
            continue
        if not any((op_fn(t[2]) or {}).get("name") in ("next", "for_each", "map", "filter", "all", "any", "filter_map") for _, t in body_calls(b)):
            continue
        F = c.flat(b)
        seen = set()
        for m in F.nodes:
            if m.id not in F.at or m.kind != "call" or not m.data[1]:
                continue
            nm = last(m.data[0][0])
            ops = [m.data[1][1]] if nm in ("get_unchecked", "get_unchecked_mut") and len(m.data[1]) > 1 else \
                [m.data[1][1]] if nm in ("var", "var_mut", "assign", "level", "reason") and len(m.data[1]) == 2 else \
                [m.data[1][1]] if nm in ("index", "index_mut") and len(m.data[1]) == 2 and m.data[3].get("local") else []
            for o in ops:
                t = F.term(o)
                for s in subterms(t):
                    r = limits(s)
                    if r is None:
                        continue
                    lo, hi = r
                    ats = [a for a in hi if a != 1]
                    if len(ats) != 1 or hi[ats[0]] != 1 or s in seen:
                        continue
                    a = ats[0]
                    top = 0 if has_name(a, "NumVar", "num_vars", "num_of_variables") else -1 if is_call(a, "len") and \
                        ends(a[2][0], ("var",)) else None
                    if top is None or not direct(t, s):
                        continue
                    seen.add(s)
                    n += 1
                    c.ob("range", hi.get(1, 0) <= top, f"{c.where(F, m.id)}: runs up to {ptxt(hi)}", f"range:{b.key}", c.where(F, m.id))
    c.extra["loops over variables"] = n
    c.floor("range", 1, n)


def direct(t, s):
    """the index is the element of the range itself"""
    return not has(t, lambda x: x[0] == "bin" and has(x, lambda y: is_call(y, "next") or y[0] == "elem") and not is_call(x, "next")
                   and not inside(s, x))


def inside(s, x):
    return any(y == x for y in subterms(s))


def limits(s):
    """(lowest, highest) value of a range"""
    if not s or not isinstance(s, tuple):
        return None
    if s[0] == "adt" and s[1].endswith("Range") and len(s[3]) == 2:
        return poly(s[3][0][1]), add(poly(s[3][1][1]), {1: -1})
    if s[0] == "call" and s[1].endswith("RangeInclusive.new") and len(s[2]) == 2:
        return poly(s[2][0]), poly(s[2][1])
    return None
