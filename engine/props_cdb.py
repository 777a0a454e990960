"""P11 clause indexes, P24 clause counts (abstract interpretation of every procedure that changes a stored clause)."""
from collections import namedtuple
from rules import *
from registry import prop
from absint import Interp, key
from props_answers import errlike
from props_proof import is_lits, content_events

U = namedtuple("U", "swapped W bin dc db dl learnt removed free made err")
COUNTERS = {"num_clause": "dc", "num_bi_clause": "db", "num_learnt": "dl"}


class ClauseSim(Interp):
    """one clause: its literal list (o* before, n* after the content changed), the literals it is watched by, its entry
    in the index of two-literal clauses, its LEARNT flag and the three counters"""

    def __init__(self, c, F, case, indexes=True, counters=True):
        super().__init__(F)
        self.c = c
        self.case = case            # eq: {symbol: representative}, len: {"o": .., "n": ..}
        self.indexes = indexes
        self.counters = counters
        self.other = []
        self.swap_ids = {}
        for nid, (k, ts) in content_events(F, True).items():
            self.swap_ids[nid] = k
            if ts and k in ("swap", "set"):
                self.other += [strip(t) for t in ts]
        self.dead = {n.id for n in F.nodes if n.kind == "diverge"}

    # -- symbols
    def rep(self, s):
        return self.case["eq"].get(s, s)

    def which(self, t, user):
        """does a vector term denote the clause's list (phase o/n)"""
        if is_lits(t):
            return "n" if user.swapped else "o"
        if strip(t) in self.other:
            if user.swapped:
                return "o" if self.last_swap(user) == "swap" else "n"
            return "n"
        return None

    def last_swap(self, user):
        return user.swapped

    def sym(self, w, k):
        return ("L", self.rep((w, k)), False)

    def length(self, w):
        return self.case["len"].get(w)

    # -- reading
    def read(self, place, env, user):
        t = self.F.place_term(place)
        if t[0] == "index":
            w = self.which(t[1], user)
            if w:
                i = None
                for e in place[1]:
                    if e[0] == "i":
                        i = env.get((e[1], ()))
                    elif e[0] == "ci":
                        i = ("I", e[1])
                if i and i[0] == "I":
                    return self.sym(w, i[1])
            elif has_field(t[1], "watch_cache"):
                for e in place[1]:
                    if e[0] == "i":
                        i = env.get((e[1], ()))
                        if i and i[0] == "L":
                            return ("W",) + i[1:]
        return None

    def compare(self, o, a, b):
        if a and b and a[0] == "L" and b[0] == "L" and o in ("Eq", "Ne"):
            if a[1][0] == "?" or b[1][0] == "?":
                return None
            e = a[1:] == b[1:]
            if a[2] != b[2] and a[1] != b[1]:
                return None
            return e if o == "Eq" else not e
        if a and b and "LEN" in (a[0], b[0]):
            flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
            if b[0] == "LEN":
                a, b, o = b, a, flip.get(o, o)
            if b[0] != "I":
                return None
            lo, hi = a[1], a[2]
            x = b[1]
            if o in ("Eq", "Ne"):
                if lo == hi:
                    r = lo == x
                elif x < lo or (hi is not None and x > hi):
                    r = False
                else:
                    return None
                return r if o == "Eq" else not r
            if o == "Lt":
                return True if hi is not None and hi < x else (False if lo >= x else None)
            if o == "Le":
                return True if hi is not None and hi <= x else (False if lo > x else None)
            if o == "Gt":
                return True if lo > x else (False if hi is not None and hi <= x else None)
            if o == "Ge":
                return True if lo >= x else (False if hi is not None and hi < x else None)
        return super().compare(o, a, b)

    def edge(self, v, ed):
        if v[0] == "LEN":
            if ed[0] == "eq":
                return False if self.compare("Eq", v, ("I", ed[1])) is False else None
            lo, hi = v[1], v[2]
            return False if hi is not None and all(x in ed[1] for x in range(lo, hi + 1)) else None
        return super().edge(v, ed)

    def rv(self, r, env, user):
        if r[0] == "bin" and r[1][:3] in ("Add", "Sub") and self.counters:
            for x, y in ((r[2], r[3]), (r[3], r[2])):
                if x[0] not in ("c", "m"):
                    continue
                t = self.F.place_term(x[1])
                v = self.val(y, env, user)
                if t[0] == "field" and t[2] in COUNTERS and v and v[0] in ("I", "B") and (x is r[2] or r[1][0] == "A"):
                    return ("D", int(v[1]) if r[1][0] == "A" else -int(v[1]), t[2])
        if r[0] == "un" and r[1] == "PtrMetadata" or r[0] == "len":
            v = self.val(r[2], env, user) if r[0] == "un" else self.get(r[1], env, user)
            if v and v[0] == "VEC":
                x = self.length(v[1])
                return None if not x else ("LEN",) + x if x[0] != x[1] else ("I", x[0])
        return super().rv(r, env, user)

    def get(self, place, env, user):
        if place[1] and place[1][-1][0] == "f" and place[1][-1][1] == "0":
            v = env.get((place[0], ()))
            if v and v[0] == "D":
                return v
        return super().get(place, env, user)

    # -- effects
    def bad(self, user, n, m):
        return user._replace(err=f"{n.body.file}:{n.line}: {m}")

    def call(self, n, vals, env, user):
        k = n.data[0]
        nm = last(k[0]) if k else ""
        a = n.data[1]
        F = self.F
        if n.kind == "diverge":
            return None, user
        if n.id in self.swap_ids:
            how = self.swap_ids[n.id]
            if nm == "take":
                return ("VEC", "n" if user.swapped else "o"), user._replace(removed=True)
            if how in ("swap", "set") and not user.removed:
                if user.swapped:
                    return None, self.bad(user, n, "the clause's literals change twice")
                return (None if nm == "swap" else ("VEC", "o")), user._replace(swapped="swap" if nm == "swap" else "set")
            if how == "edit" and nm == "clear":
                return None, user._replace(removed=True)
            if how == "edit" and nm in ("append", "extend_from_slice") and F.root.key.startswith("ClauseDB.new_clause") and \
                    not user.removed and not user.swapped:
                # a free slot is empty: adding to it is the same as handing the list over
                return None, user._replace(swapped="swap" if nm == "append" else "set")
            if how == "edit":
                return None, self.bad(user, n, f"the literals are edited in place ({nm})")
        if nm in ("index", "index_mut", "get_unchecked", "get_unchecked_mut", "get", "get_mut") and len(a) == 2:
            t = F.term(a[0])
            w = vals[0][1] if vals[0] and vals[0][0] == "VEC" else self.which(t, user)
            if w and vals[1] and vals[1][0] == "I":
                return self.sym(w, vals[1][1]), user
            if has_field(t, "watch_cache") and vals[1] and vals[1][0] == "L":
                return ("W",) + vals[1][1:], user
            if w and not vals[1] and has_name(F.term(a[1]), "RangeFull"):
                return ("VEC", w), user
            return None, user
        if nm in ("lit0", "lit1") and a:
            return self.sym("n" if user.swapped else "o", int(nm[3])), user
        if nm == "len" and a:
            t = F.term(a[0])
            w = vals[0][1] if vals[0] and vals[0][0] == "VEC" else self.which(t, user)
            if w is None and k[0] == "Clause.len":
                w = "n" if user.swapped else "o"
            if w:
                x = self.length(w)
                return (("LEN",) + x if x[0] != x[1] else ("I", x[0])) if x else None, user
            return None, user
        if nm == "is_empty" and a:
            t = F.term(a[0])
            w = vals[0][1] if vals[0] and vals[0][0] == "VEC" else self.which(t, user)
            x = self.length(w) if w else None
            r = self.compare("Eq", ("LEN",) + x, ("I", 0)) if x else None
            return None if r is None else ("B", r), user
        if nm in ("as_slice", "as_mut_slice", "deref", "deref_mut") and a and not (vals and vals[0]):
            w = self.which(F.term(a[0]), user)
            return ("VEC", w) if w else None, user
        if nm == "not" and vals and vals[0]:
            v = vals[0]
            if v[0] == "L":
                return ("L", v[1], not v[2]), user
            if v[0] == "B":
                return ("B", not v[1]), user
        if nm in ("eq", "ne", "lt", "le", "gt", "ge") and len(vals) == 2:
            r = self.compare(nm.capitalize(), vals[0], vals[1])
            return (None if r is None else ("B", r)), user
        if nm in ("min", "max") and len(vals) == 2:
            return None, user
        if nm == "from" and vals and vals[0] and vals[0][0] in ("L", "I", "B"):
            return vals[0], user
        if nm == "swap" and k[0] == "[T].swap" and is_lits(F.term(a[0])):
            if vals[1] in (("I", 0), ("I", 1)) and vals[2] in (("I", 0), ("I", 1)):
                return None, user
            if self.indexes:
                return None, self.bad(user, n, "literals of a watched clause exchange places")
        if nm in ("remove_watch", "insert_watch", "update_watch") and a:
            return None, self.watch(n, nm, vals, user)
        if k and k[0] == "BinaryLinkDB.add":
            if user.bin is not None:
                return None, self.bad(user, n, "the two-literal index already holds this clause")
            return None, user._replace(bin=frozenset(v[1] if v and v[0] == "L" and not v[2] else ("?",) for v in vals[1:3]))
        if k and k[0] == "BinaryLinkDB.remove":
            s = frozenset(v[1] if v and v[0] == "L" and not v[2] else ("?",) for v in vals[1:3])
            if self.indexes and s != user.bin:
                return None, self.bad(user, n, "removes another clause's entry of the two-literal index")
            return None, user._replace(bin=None)
        if k and k[0] == "ClauseDB.remove_clause":
            return None, user._replace(removed=True, W=frozenset(), bin=None, dc=user.dc - 1,
                                       db=user.db - (user.bin is not None), dl=user.dl - user.learnt)
        if k and k[0] in ("Clause.is", "FlagClause.contains", "Clause.turn_on", "Clause.turn_off", "Clause.set"):
            if has_name(F.term(a[1]), "LEARNT"):
                if nm in ("is", "contains"):
                    return ("B", user.learnt), user
                if nm == "turn_on":
                    return None, user._replace(learnt=True)
                if nm == "turn_off":
                    return None, user._replace(learnt=False)
                v = vals[2] if len(vals) > 2 else None
                if v and v[0] == "B":
                    return None, user._replace(learnt=v[1])
            return None, user
        if k and k[0].startswith("Vec.") and nm in ("push", "insert", "pop") and has_field(F.term(a[0]), "freelist"):
            return None, user._replace(free=user.free + (1 if nm != "pop" else 0), made=user.made or nm == "pop")
        if k and k[0] == "Vec.push" and F.term(a[0])[0] == "field" and F.term(a[0])[2] == "clause":
            t = F.term(a[1])
            if t[0] == "adt":
                fl = dict(t[3]).get("flags")
                return None, user._replace(made=True, learnt=not (fl is not None and has_call(fl, "empty", "default")))
            return None, user._replace(made=True, learnt=False)
        if nm in ("clone", "copied", "cloned", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "unwrap",
                  "expect", "into") and vals and vals[0] and vals[0][0] in ("L", "W", "B", "I", "VEC"):
            return vals[0], user
        return None, user

    def watch(self, n, nm, vals, user):
        if not self.indexes:
            return user
        w = vals[0]
        if not w or w[0] != "W":
            return self.bad(user, n, f"{nm} on a list that is not the one of a literal of the clause")
        s, neg = w[1], w[2]
        if not neg:
            return self.bad(user, n, f"{nm} on the list of the literal itself instead of its negation")
        if nm == "remove_watch":
            return user._replace(W=user.W - {s})
        b = vals[2] if len(vals) > 2 else None
        new = {self.rep(("n", i)) for i in (0, 1)} if user.swapped else {self.rep(("o", i)) for i in (0, 1)}
        if not b or b[0] != "L" or b[2] or b[1] == s or b[1] not in new:
            return self.bad(user, n, "the blocker of a watch is not the other watched literal")
        if nm == "insert_watch":
            if s in user.W:
                return self.bad(user, n, "a literal is watched twice by the same clause")
            return user._replace(W=user.W | {s})
        return user

    def write(self, n, env, user):
        pl, r = n.data
        if n.id in self.swap_ids and r[0] == "agg":
            return user._replace(swapped="set", removed=False)
        t = self.F.place_term(pl) if pl[1] else None
        if t is None or t[0] != "field":
            return user
        if t[2] in COUNTERS and root_args(t) & self.dbroots(t):
            v = self.F.rv_term(r, 0, (), n)
            d = delta(v, t)
            if d is None:
                v = self.rv(r, env, user)
                d = v[1] if v and v[0] == "D" and v[2] == t[2] else None
            if d is None:
                return self.bad(user, n, f"{t[2]} does not change by one") if self.counters else user
            f = COUNTERS[t[2]]
            return user._replace(**{f: getattr(user, f) + d})
        if t[2] == "flags":
            v = self.F.rv_term(r, 0, (), n)
            if has_call(v, "empty", "default"):
                return user._replace(learnt=False)
            return user
        if n.id in self.swap_ids:
            return user._replace(swapped="set", removed=False)
        return user

    def dbroots(self, t):
        return root_args(t)

    def done(self, user, n, i):
        if n.kind != "return":
            return None
        exists = not user.removed and (self.case["exists"] or bool(user.swapped))
        w = "n" if user.swapped else "o"
        two = exists and (self.length(w)[0] == 2 and self.length(w)[1] == 2)
        lits = frozenset(self.rep((w, k)) for k in (0, 1))
        if self.indexes:
            if exists and two and user.bin != lits:
                return "a two-literal clause is not in the index of two-literal clauses under its own literals"
            if exists and not two and user.bin is not None:
                return "a longer clause is in the index of two-literal clauses"
            if not exists and (user.bin is not None or user.W):
                return "a removed clause is still in an index"
            if exists and two and user.W:
                return "a two-literal clause is still in a watch list"
            if exists and not two and user.W != lits:
                return "the clause is not watched by exactly its first two literals"
        if self.counters:
            was = self.case["exists"]
            if user.dc != int(exists) - int(was):
                return f"num_clause changes by {user.dc}"
            if user.db != int(two) - int(was and self.length("o") == (2, 2)):
                return f"num_bi_clause changes by {user.db}"
            if user.dl != int(exists and user.learnt) - int(was and self.case["learnt"]):
                return f"num_learnt changes by {user.dl} although the LEARNT mark " + \
                    ("is" if user.learnt else "is not") + " set afterwards"
        if self.case.get("free") is not None and user.free != (self.case["free"] if user.removed and was_(self) else 0):
            return f"the slot enters the free list {user.free} times"
        return None


def was_(s):
    return s.case["exists"]


def delta(v, t):
    """+1 / -1 for field := field ± 1"""
    def fld(x):
        return strip(x) == strip(t)
    if v[0] == "field" and v[2] == "0" and v[1][0] == "bin":
        v = v[1]
    if v[0] == "bin" and v[1].startswith("Add"):
        if (fld(v[2]) and constval(v[3]) == 1) or (fld(v[3]) and constval(v[2]) == 1):
            return 1
    if v[0] == "bin" and v[1].startswith("Sub") and fld(v[2]) and constval(v[3]) == 1:
        return -1
    if v[0] == "call" and len(v[2]) == 2 and fld(v[2][0]) and constval(v[2][1]) == 1:
        if last(v[1]) in ("wrapping_add", "saturating_add"):
            return 1
        if last(v[1]) in ("wrapping_sub", "saturating_sub"):
            return -1
    return None


O0, O1, N0, N1, PP = ("o", 0), ("o", 1), ("n", 0), ("n", 1), ("p", 0)


def perturbed(F):
    """is the new literal list possibly ordered differently from the old one"""
    oth = []
    for nid, (k, ts) in content_events(F).items():
        oth += [t for t in (ts or [])]
    if not oth:
        return True
    for t in list(oth):
        if t[0] == "var":
            ds = [F.def_term(d, 3, (t[1],)) for d in F.defs.get(t[1], [])]
            ds = [d for d in ds if not (is_call(d, "replace", "take") and d[2] and is_lits(d[2][0]))]
            if ds:
                oth.remove(t)
                oth += ds
    for t in oth:
        if has_call(t, "rev", "chain", "sort", "partition"):
            return True
        if t[0] == "call" and last(t[1]) in ("new", "with_capacity", "default"):
            # filled one by one while the old literals are walked in order
            put = [n for n in F.nodes if n.kind == "call" and n.id in F.at and n.data[0] and n.data[1] and
                   last(n.data[0][0]) in EDITS and F.term(n.data[1][0]) == t]
            if len(put) == 1 and last(put[0].data[0][0]) in ("push", "extend") and \
                    has(F.term(put[0].data[1][1]), is_lits) and has_call(F.term(put[0].data[1][1]), "next", "iter") and \
                    not has_call(F.term(put[0].data[1][1]), "rev", "chain", "sort", "partition", "flat_map"):
                continue
            return True
        if not (t[0] == "call" and last(t[1]) in ("collect", "clone", "to_vec")):
            return True
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and n.data[0] and n.data[1] and \
                last(n.data[0][0]) in ("sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "rotate_left", "swap",
                                       "swap_remove", "insert") and n.data[0][0] != "swap":
            if any(same(F.term(n.data[1][0]), t) for t in oth):
                return True
    return False


def cases_for(kind, F):
    big, three = (3, None), (3, 3)
    out = []
    if kind == "create":
        for ln in ((2, 2), big):
            for learnt in (False, True):
                out.append(dict(eq={}, len={"n": ln}, exists=False, learnt=True, arg=learnt, W=(), bin=None,
                                name=f"{'learnt ' if learnt else ''}clause of length {'2' if ln[0] == 2 else '3 or more'}"))
        return out
    if kind == "remove":
        for learnt in (False, True):
            out.append(dict(eq={}, len={"o": (2, 2)}, exists=True, learnt=learnt, W=(), bin=(O0, O1), free=1,
                            name=f"two-literal clause, learnt={learnt}"))
            out.append(dict(eq={}, len={"o": big}, exists=True, learnt=learnt, W=(O0, O1), bin=None, free=1,
                            name=f"longer clause, learnt={learnt}"))
        return out
    if kind == "promote":
        for learnt in (False, True):
            out.append(dict(eq={}, len={"o": big}, exists=True, learnt=learnt, W=(O0, O1), bin=None,
                            name=f"longer clause, learnt={learnt}"))
        return out
    if kind == "drop-one":
        base = [("first watch", {PP: O0, N0: O1}), ("second watch", {PP: O1, N0: O0}), ("other", {N0: O0, N1: O1})]
        if perturbed(F):
            base += [("first watch, reordered", {PP: O0, N1: O1}), ("first watch, moved", {PP: O0}),
                     ("second watch, reordered", {PP: O1, N1: O0}), ("second watch, moved", {PP: O1}),
                     ("other, reordered", {N0: O1, N1: O0}), ("other, half", {N0: O0}), ("other, moved", {})]
        for learnt in (False, True):
            for nm, eq in (("two-literal clause", {PP: O0}), ("two-literal clause, second", {PP: O1})):
                out.append(dict(eq=eq, len={"o": (2, 2), "n": (1, 1)}, exists=True, learnt=learnt, W=(), bin=(O0, O1),
                                name=nm + f", learnt={learnt}"))
            for nm, eq in base:
                for lo, ln in ((three, (2, 2)), ((4, None), big)):
                    out.append(dict(eq=eq, len={"o": lo, "n": ln}, exists=True, learnt=learnt, W=(O0, O1), bin=None,
                                    name=f"literal dropped: {nm}, {'three' if lo == three else 'more'} literals, "
                                    f"learnt={learnt}"))
        return out
    if kind == "drop-many":
        base = [("both watches stay", {N0: O0, N1: O1}), ("first stays", {N0: O0}), ("second stays", {N0: O1}),
                ("none stays", {})]
        if perturbed(F):
            base += [("reordered", {N0: O1, N1: O0}), ("first moves", {N1: O0}), ("second moves", {N1: O1})]
        for learnt in (False, True):
            for ln, nm in (((0, 0), "no literal stays"), ((1, 1), "one literal stays")):
                out.append(dict(eq={}, len={"o": (2, 2), "n": ln}, exists=True, learnt=learnt, W=(), bin=(O0, O1),
                                name=f"two-literal clause, {nm}, learnt={learnt}"))
                out.append(dict(eq={}, len={"o": big, "n": ln}, exists=True, learnt=learnt, W=(O0, O1), bin=None,
                                name=f"{nm}, learnt={learnt}"))
            for nm, eq in base:
                for lo, ln in ((big, (2, 2)), ((4, None), big)):
                    out.append(dict(eq=eq, len={"o": lo, "n": ln}, exists=True, learnt=learnt, W=(O0, O1), bin=None,
                                    name=f"{nm}, {'two' if ln[0] == 2 else 'more'} literals stay, learnt={learnt}"))
        return out


PROCS = [("ClauseDB.new_clause", "create", ()), ("ClauseDB.remove_clause", "remove", ("remove_clause_fn",)),
         ("ClauseDB.transform_by_elimination", "drop-one", ()),
         ("ClauseDB.transform_by_simplification", "drop-many", ()), ("ClauseDB.make_permanent", "promote", ())]


def simulate(c, rule, indexes, counters, free=False):
    n = 0
    for fn, kind, inl in PROCS:
        F = c.flat(fn, inl)
        lit_args = [i for i in range(1, F.root.argc + 1) if F.root.locals[i].endswith("lit::Lit")
                    and not F.root.locals[i].startswith(("&", "std"))]
        bool_args = [i for i in range(1, F.root.argc + 1) if F.root.locals[i] == "bool"]
        for case in cases_for(kind, F):
            case = dict(case)
            if not free:
                case["free"] = None
            s = ClauseSim(c, F, case, indexes, counters)
            env = {}
            for i in lit_args:
                env[((0, i), ())] = ("L", s.rep(PP), False)
            for i in bool_args:
                env[((0, i), ())] = ("B", case.get("arg", False))
            u = U(False, frozenset(s.rep(x) for x in case["W"]), frozenset(s.rep(x) for x in case["bin"]) if case["bin"]
                  else None, 0, 0, 0, case["learnt"], False, 0, False, None)
            p = s.run(env, u)
            n += 1
            c.ob(rule, p is None, f"{F.root.where()}: {case['name']}: {s.msg}", f"{fn}:{case['name']}", F.root.where(),
                 F.show(p) if p else None)
    c.floor(rule, 30, n)
    c.extra["clause_cases"] = n


class MoveSim(ClauseSim):
    """one watch of a clause moves to another of its literals; user.made holds the order of the first literals"""

    def __init__(self, c, F, case):
        super().__init__(c, F, case, True, False)
        self.user = None

    def sym(self, w, k):
        o = self.user.made
        return ("L", ("o", o[k]), False) if k < len(o) else None

    def rv(self, r, env, user):
        if r[0] == "bin" and r[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub", "BitXor"):
            a, b = self.val(r[2], env, user), self.val(r[3], env, user)
            if a and b and a[0] in "IB" and b[0] in "IB":
                x, y = int(a[1]), int(b[1])
                return ("I", {"A": x + y, "S": x - y, "B": x ^ y}[r[1][0]])
            return None
        v = super().rv(r, env, user)
        return ("I", int(v[1])) if r[0] == "cast" and v and v[0] == "B" else v

    def get(self, place, env, user):
        # the value of a checked operation
        if place[1] and place[1][-1] == ("f", "0") or place[1] and place[1][-1][0] == "f" and place[1][-1][1] == "0":
            v = env.get((place[0], ()))
            if v and v[0] == "I":
                return v
        return super().get(place, env, user)

    def read(self, place, env, user):
        self.user = user
        return super().read(place, env, user)

    def call(self, n, vals, env, user):
        self.user = user
        k = n.data[0]
        nm = last(k[0]) if k else ""
        if nm == "from" and vals and vals[0] and vals[0][0] == "B":
            return ("I", int(vals[0][1])), user
        if k and k[0] == "[T].swap" and is_lits(self.F.term(n.data[1][0])):
            if not (vals[1] and vals[2] and vals[1][0] == vals[2][0] == "I"):
                return None, self.bad(user, n, "exchanges unknown literals")
            o = list(user.made)
            i, j = vals[1][1], vals[2][1]
            if max(i, j) >= len(o):
                return None, self.bad(user, n, "exchanges unknown literals")
            o[i], o[j] = o[j], o[i]
            return None, user._replace(made=tuple(o))
        return super().call(n, vals, env, user)

    def watch(self, n, nm, vals, user):
        w = vals[0]
        if not w or w[0] != "W":
            return self.bad(user, n, f"{nm} on a list that is not the one of a literal of the clause")
        s, neg = w[1], w[2]
        if not neg:
            return self.bad(user, n, f"{nm} on the list of the literal itself instead of its negation")
        if nm == "remove_watch":
            return user._replace(W=user.W - {s})
        b = vals[2] if len(vals) > 2 else None
        if nm == "insert_watch":
            if not b or b[0] != "L" or b[2] or b[1] != ("o", 1 - self.case["old"]):
                return self.bad(user, n, "the blocker of a watch is not the other watched literal")
            if s in user.W:
                return self.bad(user, n, "a literal is watched twice by the same clause")
            return user._replace(W=user.W | {s})
        return user

    def done(self, user, n, i):
        if n.kind != "return":
            return None
        if user.W != {("o", x) for x in user.made[:2]}:
            return "the clause is not watched by exactly its first two literals"
        if user.made[0 if self.case["old"] else 1] != (0 if self.case["old"] else 1):
            return "the watch that stays has moved"
        if 2 not in user.made[:2]:
            return "the new watch is not among the first two literals"
        return None


def moves(c):
    F = c.flat("ClauseDB.transform_by_updating_watch")
    for old in (0, 1):
        for removed in (False, True):
            case = dict(eq={}, len={"o": (3, None)}, exists=True, learnt=False, free=None, old=old)
            s = MoveSim(c, F, case)
            env = {((0, 3), ()): ("I", old), ((0, 4), ()): ("I", 2), ((0, 5), ()): ("B", removed)}
            W = {("o", 0), ("o", 1)} - ({("o", old)} if removed else set())
            u = U(False, frozenset(W), None, 0, 0, 0, False, False, 0, (0, 1, 2), None)
            p = s.run(env, u)
            c.ob("move", p is None, f"{F.root.where()}: moving watch {old}{' (already left)' if removed else ''}: {s.msg}",
                 f"{old}:{removed}", F.root.where(), F.show(p) if p else None)


@prop("P11", "abstract interpretation of the clause procedures over a finite case distinction",
      "Decides, for every case of which watched literals stay, that each creation, removal and shortening leaves the clause "
      "watched by exactly its first two literals or indexed as a two-literal clause; assumes the entry invariant that "
      "these procedures re-establish. The lists' own contents are not followed.")
def p11(c):
    from props_prims import whole_literal
    whole_literal(c)
    from props_propagate import visits, lists, LISTS
    simulate(c, "indexes", True, False)
    moves(c)
    for fn, sb in (("AssignStack.propagate", False), ("AssignStack.propagate_sandbox", True)):
        visits(c, fn, sb, LISTS)
    lists(c)
    # nobody else moves the watched literals of a stored clause
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or '"lits"' not in json.dumps(b.blocks) and not any(
                op_fn(t[2]) and "swap" in str(op_fn(t[2]).get("p", "")) for _, t in body_calls(b)):
            continue
        G = c.flat(b)
        for nid in c.calls(G, "[T].swap", "[T].sort", "[T].reverse", "[T].rotate_left", "[T].sort_unstable", "[T].sort_by",
                           "[T].sort_by_key"):
            if G.nodes[nid].body.uid != b.uid:
                continue
            a = c.args(G, nid)
            if not (is_lits(a[0]) or (a[0][0] == "call" and has(a[0], is_lits))):
                continue
            n += 1
            within = len(a) == 3 and {constval(a[1]), constval(a[2])} <= {0, 1} and constval(a[1]) is not None \
                and constval(a[2]) is not None
            own = c.owner(b)
            c.ob("positions", within or own <= {"ClauseDB.transform_by_updating_watch"},
                 f"{c.where(G, nid)}: the literals of a stored clause are reordered", "+".join(sorted(own)), c.where(G, nid))
    c.floor("positions", 2, n)
    # the lists themselves
    W = "splr.lib"
    I = c.flat("Vec.insert_watch")
    push = [k for k in c.calls(I, "Vec.push", "Vec.insert", "Vec.extend")]
    c.always("lists", I, push, "storing the watch", "insert")
    for k in push:
        t = c.args(I, k)[-1]
        names = [I.root.lname.get(i) for i in (2, 3)]
        ok = t[0] == "tuple" and len(t[1]) == 2 and [x[3] if x[0] == "arg" else None for x in t[1]] == names
        c.ob("lists", ok, f"{c.where(I, k)}: stores {tstr(t)[:60]}", "entry", c.where(I, k))
    for fn, what in (("Vec.remove_watch", "removing"),):
        R = c.flat(fn)
        pops = swapped_out(c, R)
        rm = c.calls(R, "Vec.swap_remove", "Vec.remove", "Vec.retain", "Vec.delete_unstable") + pops
        c.ob("lists", bool(rm), f"{R.root.where()}: nothing is removed from the watch list", "remove", R.root.where())
        eqs = [x.id for x in R.nodes if x.id in R.at and x.kind == "call" and last(x.data[0][0]) in ("eq", "ne")]
        ok = False
        for e in eqs:
            ts = c.args(R, e)
            if any(t[0] == "arg" and t[3] == R.root.lname.get(2) for t in ts) and any(
                    t[0] == "field" and t[2] == "0" for t in ts):
                ok = last(R.nodes[e].data[0][0]) == ("eq" if not c.calls(R, "Vec.retain") else "ne")
        c.ob("lists", ok, f"{R.root.where()}: the removed entry is not chosen by the clause id", "by-id", R.root.where())
        if not c.calls(R, "Vec.retain", "Vec.delete_unstable"):
            for k in rm:
                if k in pops:
                    continue
                t = c.args(R, k)[1]
                c.ob("lists", has_call(t, "position") or has(t, lambda s: s[0] == "var") or has_call(t, "next", "find"),
                     f"{c.where(R, k)}: removes entry {tstr(t)[:60]}", "index", c.where(R, k))
            pos = c.calls(R, "Iterator.position", "position")
            none = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None"
            c.always("lists", R, rm, "removing the found entry", "found", [none])
            for k in rm:
                if k in pops:
                    continue
                t = c.args(R, k)[1]
                for q in subterms(t):
                    if q[0] == "call" and last(q[1]) == "position":
                        part = [last(w[1]) for w in subterms(q[2][0]) if w[0] == "call" and last(w[1]) in PARTIAL]
                        c.ob("lists", not part, f"{c.where(R, k)}: the position is counted from another end ({part})",
                             "count", c.where(R, k))
    for fn, own in (("Vec.remove_watch", ("swap_remove", "remove", "retain", "delete_unstable")),
                    ("Vec.insert_watch", ("push", "insert", "extend")), ("Vec.append_watch", ("append", "extend", "push")),
                    ("Vec.update_watch", ())):
        R = c.flat(fn)
        me = R.root.lname.get(1)
        for x in R.nodes:
            if x.id not in R.at or x.kind != "call":
                continue
            ks = [k for k in x.data[0] if k.startswith("Vec.") and last(k) in EDITS]
            if not ks or last(ks[0]) in own or fn == "Vec.remove_watch" and x.id in swapped_out(c, R):
                continue
            a = c.args(R, x.id)
            if a and a[0][0] == "arg" and a[0][3] == me:
                c.ob("lists", False, f"{c.where(R, x.id)}: {ks[0]} on the watch list in {fn}", "edit:" + fn, c.where(R, x.id))
    # the other watched literal is stored for the entry of the clause only
    R = c.flat("Vec.update_watch")
    cid, l = R.root.lname.get(2), R.root.lname.get(3)
    for x in R.nodes:
        if x.id not in R.at or x.kind != "assign":
            continue
        if not x.data[0][1]:
            continue
        t = R.place_term(x.data[0])
        if not (t[0] == "field" and t[2] in ("0", "1") and t[1][0] != "var"):
            continue
        e = t[1]
        es = {("field", e, "0")}
        for q in subterms(e):
            if q and q[0] == "call" and last(q[1]) == "find" and e == ("field", ("variant", q, "Some"), "0"):
                # the entry the search found: its test was made on the element it looked at
                es |= {("field", y, "0") for n in R.nodes if n.id in R.at and n.kind == "call"
                       for z in c.args(R, n.id) for y in subterms(z) if y and y[0] == "elem" and y[1] == q[3]}
        f = lambda f: f[1] and f[0][0] == "eq" and bool(es & set(f[0][1:])) and any(
            y[0] == "arg" and y[3] == cid for y in f[0][1:])
        v = c.wval(R, x.id)
        c.ob("lists", t[2] == "1" and v[0] == "arg" and v[3] == l, f"{c.where(R, x.id)}: {tstr(t)[:40]} = {tstr(v)[:40]}",
             "update-value", c.where(R, x.id))
        found = [R.hof[q[3]] for q in subterms(e) if q and q[0] == "call" and len(q) > 3 and q[3] in R.hof and
                 last(q[1]) == "find"]
        if any(any(f(g) for g in c.implied(R, ("c", (h[1], ())), True) or ()) for h in found):
            c.ob("lists", True, "", "update-id", c.where(R, x.id))
            continue
        c.only_if("lists", R, [x.id], f, "updating the entry of another clause", "update-id")
        # and once it is found it is stored
        same_l = lambda g: g[1] and g[0][0] == "eq" and any(y[0] == "field" and y[2] == "1" for y in g[0][1:]) and any(
            y[0] == "arg" and y[3] == l for y in g[0][1:])
        eo = c.edge_ok(R, [same_l])
        p = None
        for n in R.nodes:
            if n.kind != "switch" or n.id not in R.at:
                continue
            for i in R.at[n.id]:
                for j, ed in R.ps[i]:
                    if p is None and ed is not None and any(f(g) for g in R.pfacts(i, ed)):
                        p = R._find(j, lambda z: R.nodes[R.pn[z]].kind == "return", lambda z: R.pn[z] == x.id, eo)
        c.ob("lists", p is None, f"{c.where(R, x.id)}: the entry of the clause can stay as it was", "update-stored", c.where(R, x.id),
             R.show(p) if p else None)
    A = c.flat("Vec.append_watch")
    put = c.calls(A, "Vec.append", "Vec.extend", "Vec.push", "Vec.extend_from_slice")
    put = [k for k in put if c.args(A, k)[0][0] == "arg" and c.args(A, k)[0][3] == A.root.lname.get(1)]
    gone = c.calls(A, "replace", "swap")
    if not gone:
        c.always("lists", A, put, "keeping the appended watches", "append")
    binary_index(c)


PARTIAL = ("skip", "take", "step_by", "rev", "skip_while", "take_while", "filter", "chunks", "windows", "split_at")
def swapped_out(c, R):
    """`pop`s of an entry that was found and moved to the end before"""
    from props_model import lin
    end = lambda t: lin(t).get(1) == -1 and any(is_call(a, "len") for a in lin(t))
    sw = [k for k in c.calls(R, "[T].swap") if any(has_call(t, "position") and not has(t, lambda s: s[0] == "bin") for t in c.args(R, k)[1:]) and
          any(end(t) for t in c.args(R, k)[1:])]
    return [k for k in c.calls(R, "Vec.pop") if any(R.path_after(x, lambda i: R.pn[i] == k, lambda i: False) is not None for x in sw) and
            R._find(R.pstart, lambda i: R.pn[i] == k, lambda i: R.pn[i] in sw) is None]


EDITS = ("pop", "truncate", "clear", "push", "retain", "drain", "swap_remove", "remove", "insert", "append", "extend",
         "split_off", "dedup", "resize", "delete_unstable", "set_len")


def binary_index(c):
    """the index of two-literal clauses: both directions, one normalised key"""
    keys = {}
    for fn, names in (("BinaryLinkDB.add", ("HashMap.insert",)), ("BinaryLinkDB.remove", ("HashMap.remove",)),
                      ("BinaryLinkDB.search", ("HashMap.get",))):
        F = c.flat(fn)
        A, B = F.root.lname.get(2), F.root.lname.get(3)
        hs = [x for x in c.calls(F, *names) if has_field(c.args(F, x)[0], "hash")]
        c.always("binary", F, hs, "using the pair index", fn)
        for h in hs:
            t = c.args(F, h)[1]
            ks = pair_order(c, F, t, A, B)
            keys[fn] = ks
            c.ob("binary", "?" not in ks[0], f"{c.where(F, h)}: key {tstr(t)[:80]}", fn + ":key", c.where(F, h))
        if fn != "BinaryLinkDB.search":
            edit = [x for x in c.calls(F, *(("Vec.push",) if fn.endswith("add") else ("Vec.delete_unstable", "Vec.retain",
                                                                                     "Vec.swap_remove", "Vec.remove")))
                    if has_field(c.args(F, x)[0], "list")]
            for me, it in ((A, B), (B, A)):
                mine = [(x, m) for x in edit for m in spread([c.args(F, x)[0]] + list(c.args(F, x)[1:]))
                        if has(m[0], lambda s: s[0] == "arg" and s[3] == me)
                        and not has(m[0], lambda s: s[0] == "arg" and s[3] == it)]
                walk = [loop_around(F, x) for x, m in mine]
                fixed = {x for x, m in mine if m[0] != c.args(F, x)[0]}
                for x in fixed:
                    c.each_iteration("binary", F, [x], f"changing the list of {me}", f"{fn}:each")
                    c.no_early_exit("binary", F, x, "the loop over the two literals", f"{fn}:both")
                # a search for the entry of the other literal that finds nothing
                looks = lambda t: any(q and is_call(q, "position") and any(
                    y[0] == "closure" and any(u[0] == "arg" and u[3] == it for u in y[2]) for y in q[2]) for q in subterms(t))
                absent = [] if fn.endswith("add") else [
                    lambda f: f[0][0] == "is" and (f[0][2], f[1]) in (("None", True), ("Some", False)) and looks(f[0][1])]
                c.always("binary", F, [w[0] if x in fixed and w else x for (x, m), w in zip(mine, walk)],
                         f"changing the list of {me}", f"{fn}:{'first' if me == A else 'second'}", absent)
                for x, a in mine:
                    if fn.endswith("add"):
                        ok = a[1][0] == "tuple" and a[1][1][0][0] == "arg" and a[1][1][0][3] == it and \
                            a[1][1][1][0] == "arg" and a[1][1][1][3] == F.root.lname.get(4)
                    else:
                        ok = True
                        if a[1][0] == "closure":
                            ok = any(t[0] == "arg" and t[3] == it for t in a[1][2])
                        elif has_call(a[1], "position"):
                            ok = looks(a[1])
                    c.ob("binary", ok, f"{c.where(F, x)}: entry {tstr(a[1])[:80]}", f"{fn}:entry", c.where(F, x))
    ks = {tuple(v) for v in keys.values() if v != ["?"]}
    c.ob("binary", len(ks) <= 1, f"src/cdb/binary.rs: the pair index is used with different keys: {keys}", "same-key")


def spread(ts):
    """the terms with an element of an array literal that is iterated replaced by each of the array's elements"""
    for t in ts:
        for s in subterms(t):
            if not (s and s[0] == "field" and s[2] == "0" and s[1][0] == "variant" and s[1][2] == "Some"):
                continue
            if s[1][1][0] == "call" and last(s[1][1][1]) == "next":
                arr = s[1][1][2][0]
                while arr[0] == "call" and last(arr[1]) in ("into_iter", "iter") and arr[2]:
                    arr = arr[2][0]
                if arr[0] == "array":
                    return [[simplify(replace(u, s, e)) for u in ts] for e in arr[1]]
    return [list(ts)]


def replace(t, old, new):
    if t == old:
        return new
    return tuple(replace(x, old, new) for x in t) if isinstance(t, tuple) else t


def simplify(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(simplify(x) for x in t)
    if len(t) == 3 and t[0] == "field" and isinstance(t[1], tuple) and t[1] and t[1][0] == "tuple" and \
            isinstance(t[2], str) and t[2].isdigit() and int(t[2]) < len(t[1][1]):
        return t[1][1][int(t[2])]
    return t


def pair_order(c, F, t, A, B):
    """["min", "max"] or ["max", "min"] when a key is the ordered pair of the arguments A and B, ["?"] otherwise:
    the key is evaluated for A < B and for A > B"""
    got = []
    for va, vb in ((1, 2), (2, 1)):
        vs = pair_values(c, F, t, {A: va, B: vb})
        if vs is None or len(vs) != 1:
            return ["?"]
        got.append(next(iter(vs)))
    return {((1, 2), (1, 2)): ["min", "max"], ((2, 1), (2, 1)): ["max", "min"]}.get(tuple(got), ["?"])


def pair_values(c, F, t, env):
    """the values a term can have when the arguments in env have the given values (None: unknown)"""
    order = lambda x: None if x[0] is None or x[1] is None else "Less" if x[0] < x[1] else "Greater" if x[0] > x[1] else "Equal"

    def ev(t, depth=0):
        if depth > 8:
            return {None}
        if t[0] == "arg":
            return {env.get(t[3])}
        if t[0] == "const":
            return {t[1]}
        if t[0] in ("tuple", "array"):
            out = {()}
            for x in t[1]:
                out = {o + (v,) for o in out for v in ev(x, depth + 1)}
            return out
        if t[0] == "field" and str(t[2]).isdigit():
            return {v[int(t[2])] if isinstance(v, tuple) and int(t[2]) < len(v) else None for v in ev(t[1], depth + 1)}
        if t[0] == "call" and last(t[1]) in ("min", "max", "cmp", "minmax") and len(t[2]) == 2:
            xs = [(a, b) for a in ev(t[2][0], depth + 1) for b in ev(t[2][1], depth + 1)]
            if any(None in x or any(isinstance(y, (tuple, str)) for y in x) for x in xs):
                return {None}
            return {order(x) if last(t[1]) == "cmp" else (min if last(t[1]) == "min" else max)(x) for x in xs}
        if t[0] == "var":
            ds = [(d, x) for d in F.defs.get(t[1], []) if d.id in F.at and d.kind == "assign"
                  for x in [F.rv_term(d.data[1], 0, (), d)]]
            if not ds or any(d.kind != "assign" and d.kind != "call" for d in F.defs[t[1]]):
                return {None}
            out = set()
            for d, x in ds:
                if len(ds) == 1 or F._find(F.pstart, lambda i: F.pn[i] == d.id, lambda i: False, edge) is not None:
                    out |= ev(x, depth + 1)
            return out
        return {None}

    def edge(i, j, e):
        for f in F.edge_facts(F.nodes[F.pn[i]], e):
            k = f[0]
            if k[0] in ("lt", "le", "eq") and len(k) == 3:
                a, b = ev(k[1], 5), ev(k[2], 5)
                if len(a) == len(b) == 1 and None not in a | b and not any(isinstance(x, (tuple, str)) for x in a | b):
                    a, b = next(iter(a)), next(iter(b))
                    if {"lt": a < b, "le": a <= b, "eq": a == b}[k[0]] != f[1]:
                        return False
            elif k[0] == "is" and k[2] in ("Less", "Equal", "Greater"):
                v = ev(k[1], 5)
                if len(v) == 1 and None not in v and ((next(iter(v)) == k[2]) != f[1]):
                    return False
        return True

    out = ev(t)
    return None if any(v is None or isinstance(v, tuple) and None in v for v in out) else out


@prop("P24", "abstract interpretation of the clause procedures over a finite case distinction, plus who-may-write",
      "Decides that each procedure changes the three counters by exactly the change of the clause it makes, and that no "
      "other code changes the counters or the LEARNT mark; sums over histories follow by induction and are not measured.")
def p24(c):
    simulate(c, "counts", False, True)
    owners = {"ClauseDB.new_clause", "ClauseDB.transform_by_elimination", "ClauseDB.transform_by_simplification",
              "ClauseDB.transform_by_replacement", "remove_clause_fn", "ClauseDB.remove_clause", "ClauseDB.make_permanent"}
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or not any(f'"{x}"' in json.dumps(b.blocks) for x in COUNTERS):
            continue
        G = c.flat(b)
        for f in COUNTERS:
            for nid in c.writes(G, f):
                if G.nodes[nid].body.uid != b.uid:
                    continue
                t = G.place_term(G.nodes[nid].data[0])
                for o in c.owner(b):
                    n += 1
                    c.ob("writers", o in owners, f"{c.where(G, nid)}: {o} changes {f}", f"{f}:{o}", c.where(G, nid))
    c.floor("writers", 7, n)
    allowed = {"ClauseDB.new_clause", "ClauseDB.new_clause_sandbox", "ClauseDB.transform_by_simplification",
               "ClauseDB.transform_by_replacement", "ClauseDB.transform_by_elimination", "ClauseDB.make_permanent"}
    m = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure":
            continue
        if not any(op_fn(t[2]) and any(k in ("Clause.turn_on", "Clause.turn_off", "Clause.set", "FlagIF.turn_on",
                                             "FlagIF.turn_off") for k in c.prog.callkeys(op_fn(t[2]), b.crate))
                   for _, t in body_calls(b)):
            continue
        G = c.flat(b)
        for nid in c.calls(G, "Clause.turn_on", "Clause.turn_off", "Clause.set"):
            if G.nodes[nid].body.uid != b.uid or not has_name(c.args(G, nid)[1], "LEARNT"):
                continue
            for o in c.owner(b):
                m += 1
                c.ob("reclassify", o in allowed, f"{c.where(G, nid)}: {o} changes the LEARNT mark without the counter",
                     o, c.where(G, nid))
    c.floor("reclassify", 3, m)
    # what the others are told
    named = {"NumClause": "num_clause", "NumBiClause": "num_bi_clause", "NumLearnt": "num_learnt", "NumBiLearnt": "num_bi_learnt"}
    from props_answers import fields, moved
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or "ClauseDB.derefer" not in b.keys:
            continue
        D = c.flat(b)
        for x in D.nodes:
            if x.id not in D.at or x.kind != "assign" or x.data[0] != ((0, 0), ()):
                continue
            v = c.wval(D, x.id)
            for f in D.facts_at(x.id):
                if f[1] and f[0][0] == "is" and f[0][2] in named and f[0][1][0] == "arg":
                    bad = v[0] == "field" and v[2] in COUNTERS and v[2] != named[f[0][2]] or \
                        has(v, moved) and not has_call(v, "filter", "count", "fold", "sum")
                    c.ob("reported", not bad, f"{c.where(D, x.id)}: {f[0][2]} is answered by {tstr(v)[:60]}", f[0][2],
                         c.where(D, x.id))
