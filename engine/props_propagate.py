"""P32 unit propagation: one visit of a clause is interpreted for every case of its literals' values."""
from collections import namedtuple
from rules import *
from registry import prop
from absint import Interp, key
from props_model import lin

S = namedtuple("S", "trail swapped ev scan links fetched since ret halt loose err")
INIT = S(0, False, (), (), 0, 0, None, None, False, False, None)
NAMES = {"P": "the propagated literal", "O": "the other watched literal", "C": "the cached literal", "T0": "a false literal",
         "T1": "the first literal that is not false", "B": "the other literal of the binary clause",
         "B2": "the other literal of the second binary clause"}
SHOWV = {True: "true", False: "false", None: "unassigned"}


def ltext(v):
    if not v or v[0] != "L":
        return "another literal"
    return ("the negation of " if v[2] else "") + NAMES.get(v[1], str(v[1]))


class Visit(Interp):
    """("L", who, negated); ("OPT", None | value); ("VI", who); ("VAR", who); ("CID", name); ("CL", name); ("K", who);
    ("TUP", values); ("DL",) the current level; ("SRC",) the iterator over the watch list"""
    LIMIT = 60000
    AGGS = ("tuple", "adt", "closure")

    def __init__(self, c, F, case):
        super().__init__(F)
        self.c, self.case = c, case
        self.rets = {}
        for n in F.nodes:
            if n.kind == "nop" and isinstance(n.data, tuple) and n.data[0] == "closure?" and n.succ:
                self.rets[(F.nodes[n.succ[0][0]].frame, 0)] = n.id
        self.scans = set()
        self.loose = False

    def keep(self):
        return self.rets

    # -- values of literals
    def value(self, l):
        """True/False/None, or ... if not known"""
        if l[1] not in self.case["v"]:
            return ...
        v = self.case["v"][l[1]]
        return v if v is None or not l[2] else not v

    def opt(self, v):
        return ("OPT", None) if v is None else ("OPT", ("B", v))

    def pos(self, i, user):
        """the literal at a position of the clause"""
        if i > 1:
            return None
        first = (self.case["pos"] == 0) != user.swapped
        return ("L", "P", True) if (i == 0) == first else ("L", "O", False)

    def sub(self, v, f, user):
        if v is None:
            return None
        if v[0] == "OPT":
            return v[1] if f == "0" else None
        if v[0] == "TUP":
            return v[1][int(f)] if f.isdigit() and int(f) < len(v[1]) else None
        if v[0] == "VAR" and f == "assign":
            l = self.case["v"].get(v[1], ...)
            return None if l is ... else ("OPT", None) if l is None else ("OPT", ("B", l == self.case["sign"]))
        if v[0] == "CL" and f == "lits":
            return ("LITS", v[1])
        if v[0] == "CL":
            return ("FLD", f)
        return None

    def get(self, place, env, user):
        loc, proj = place
        v, fs = env.get((loc, ())), ()
        for e in proj:
            if e[0] in ("*", "d"):
                continue
            if e[0] == "f":
                fs += (e[1],)
                w = env.get((loc, fs)) if fs is not None else None
                v = w if w is not None else self.sub(v, e[1], user)
            elif e[0] in ("i", "ci"):
                i = env.get((e[1], ())) if e[0] == "i" else ("I", e[1])
                v = self.item(v, i, user)
                fs = ("?",)
            else:
                return None
        if v is None and proj:
            v = self.field(self.F.place_term(place), user)
        return v

    def field(self, t, user):
        if t[0] == "field" and t[2] == "q_head" and "self" in root_args(t):
            return ("Q",)
        if t[0] == "field" and t[2] == "var" and "self" in root_args(t):
            return ("VARS",)
        if t[0] == "field" and t[2] == "trail" and "self" in root_args(t):
            return ("TRAIL",)
        return None

    def item(self, v, i, user):
        if v and v[0] == "LITS" and i and i[0] == "I":
            return self.pos(int(i[1]), user)
        if v and v[0] == "VARS" and i and i[0] == "VI":
            return ("VAR", i[1])
        return None

    def val(self, op, env, user):
        if op[0] == "k" and "prom" in op[1]:
            return self.const(self.F.prom_term(op[1], op[2]))
        return super().val(op, env, user)

    def const(self, t):
        if t[0] == "adt" and t[2] == "None":
            return ("OPT", None)
        if t[0] == "adt" and t[2] == "Some" and t[3]:
            return ("OPT", self.const(t[3][0][1]))
        if t[0] == "const" and isinstance(t[1], bool):
            return ("B", t[1])
        if t[0] == "const" and isinstance(t[1], int):
            return ("B", bool(t[1])) if len(t) > 2 and t[2] in ("true", "false", "bool") else ("I", t[1])
        return None

    def compare(self, o, a, b):
        if a and b and a[0] == b[0] == "L" and o in ("Eq", "Ne"):
            r = a[1:] == b[1:]
            if a[1] == "C" and b[1] == "C" and a[2] != b[2]:
                r = False
            return r if o == "Eq" else not r
        if a and b and a[0] == b[0] == "OPT" and o in ("Eq", "Ne"):
            x, y = a[1], b[1]
            if x is None or y is None:
                r = x is None and y is None
            elif x[0] in ("B", "I") and y[0] in ("B", "I"):
                r = int(x[1]) == int(y[1])
            elif x[0] == "L" and y[0] == "L":
                r = x == y
            else:
                return None
            return r if o == "Eq" else not r
        return super().compare(o, a, b)

    def rv(self, r, env, user):
        if r[0] == "discr":
            v = self.get(r[1], env, user)
            if v and v[0] == "OPT":
                return ("I", 0 if v[1] is None else 1)
            if v and v[0] == "RES":
                return ("I", 0 if v[1] else 1)
            return None
        if r[0] == "agg" and r[1].get("k") == "adt" and r[1]["adt"].endswith("Option"):
            if r[1]["variant"] == "None":
                return ("OPT", None)
            x = self.val(r[2][0], env, user)
            return ("OPT", x if x is not None else ("?",))
        if r[0] == "agg" and r[1].get("k") == "adt" and r[1]["adt"].endswith("AssignReason"):
            return ("WHY", r[1]["variant"], tuple(self.val(x, env, user) for x in r[2]))
        if r[0] == "agg" and r[1].get("k") == "tuple" and r[2]:
            vs = tuple(self.whole(x, env, user) for x in r[2])
            if any(vs):
                return ("TUP", vs)
        if r[0] == "agg" and r[1].get("k") == "adt" and r[1]["adt"].endswith("Result"):
            v = self.val(r[2][0], env, user)
            return ("RES", r[1]["variant"] == "Ok", v)
        if r[0] == "bin" and self.heads(r, env, user):
            a, b = self.val(r[2], env, user), self.val(r[3], env, user)
            more = user.trail == 0
            if a == ("Q",):
                return ("B", more if r[1] in ("Lt", "Ne") else not more) if r[1] in ("Lt", "Ne", "Eq", "Ge") else None
            return ("B", more if r[1] in ("Gt", "Ne") else not more) if r[1] in ("Gt", "Ne", "Eq", "Le") else None
        if r[0] == "bin" and r[1].startswith(("Add", "Sub")):
            a, b = self.val(r[2], env, user), self.val(r[3], env, user)
            for x, y in ((a, b), (b, a)):
                if x and y and x[0] in ("Q", "K") and y[0] == "I":
                    w = x + (("+" if r[1].startswith("Add") else "-", int(y[1])),)
                    return ("TUP", (w, None)) if r[1].endswith("WithOverflow") else w
            if a and a[0] == "I" and b and b[0] == "I":
                w = ("I", int(a[1]) + int(b[1]) * (1 if r[1].startswith("Add") else -1))
                if abs(w[1]) > 4:
                    return None
                return ("TUP", (w, None)) if r[1].endswith("WithOverflow") else w
            return None
        if r[0] == "cast" and r[1] == "IntToInt":
            v = self.val(r[2], env, user)
            if v and v[0] == "B":
                return ("I", int(v[1]))
            return v
        return super().rv(r, env, user)

    def heads(self, r, env, user):
        """compares the position on the trail with its length"""
        a, b = self.val(r[2], env, user), self.val(r[3], env, user)
        return a and b and {a, b} == {("Q",), ("TLEN",)}

    def whole(self, op, env, user):
        return self.val(op, env, user)

    def bad(self, user, n, m):
        return user._replace(err=f"{n.body.file}:{n.line}: {m}")

    def assign(self, n, env, user):
        if n.data[1][0] == "use" and n.data[1][1][0] == "elem":
            k = key(n.data[0])
            v = user.since if user.since and user.since[0] == "ELEM" else None
            env.pop(k, None)
            if v:
                env[k] = v[1]
            return
        if n.data[0][1] and n.data[0][1][-1][:2] == ("f", "q_head"):
            return
        super().assign(n, env, user)

    # -- elements of iterators
    def typ(self, place):
        loc, proj = place
        b = self.F.frame_body[loc[0]]
        return b.locals[loc[1]] if not proj and loc[1] < len(b.locals) else ""

    def deliver(self, n, ty, user):
        """(value of the element | None at the end | ..., user)"""
        if "Lit, types::idx::ClauseId)" in ty.replace("&", ""):
            el = self.case["links"]
            i = user.links
            if i < len(el):
                return ("TUP", (("L", el[i], False), ("CID", "B"))), user._replace(links=i + 1)
            return None, user
        if "types::lit::Lit" in ty and user.fetched:
            self.scans.add(n.id)
            d = dict(user.scan)
            i = d.get(n.id, 0)
            el = ["T0"] + (["T1"] if self.case["tail"] in (n.id, "all") else [])
            if i < len(el):
                d[n.id] = i + 1
                l = ("L", el[i], False)
                v = ("TUP", (("K", el[i]), l)) if "usize" in ty else l
                return v, user._replace(scan=tuple(sorted(d.items())))
            return None, user
        return ..., user

    def write(self, n, env, user):
        pl, r = n.data
        if r[0] == "use" and r[1][0] == "elem":
            # the closure of a library function starts with the next element
            call = r[1][1][0]
            ty = self.typ(pl)
            m = self.F.nodes[call]
            if m.data[0] and m.data[0][0].startswith(("Option.", "Result.")):
                o = self.val(m.data[1][0], env, user)
                if o and o[0] == "OPT" and o[1] is None:
                    return user._replace(halt=True)
                return user._replace(since=("ELEM", o[1]) if o and o[0] == "OPT" else None)
            v, user = self.deliver(m, ty, user)
            if v is None:
                return user._replace(halt=True)
            return user._replace(since=None if v is ... else ("ELEM", v))
        if r[0] == "bin" and self.heads(r, env, user) and user.trail == 1:
            m = self.at_end(user)
            return self.bad(user, n, m) if m else user._replace(trail=2)
        pr = r[1][1] if r[0] == "use" and r[1][0] in ("c", "m") else r[2] if r[0] in ("ref", "raw") else None
        if pr and any(e[0] == "i" for e in pr[1]):
            i = [e[0] for e in pr[1]].index("i")
            v = self.get((pr[0], pr[1][:i]), env, user)
            x = env.get((pr[1][i][1], ()))
            if v and v[0] in ("LITS", "CL") and (x is None or x[0] != "I" or int(x[1]) > 1):
                user = user._replace(loose=True)
        if r[0] == "agg" and r[1].get("k") == "adt" and r[1]["adt"].endswith("Result") and r[1]["variant"] == "Err":
            user = user._replace(ret=self.val(r[2][0], env, user))
        if pl[1]:
            t = self.F.place_term(pl)
            if t[0] == "field" and t[2] == "q_head" and "self" in root_args(t):
                F_ = self.F
                v = self.rv(r, env, user)
                if v and v[0] == "TUP":
                    v = v[1][0]
                d = None if v is not None else sub(lin(F_.rv_term(r, 0, (), n)), lin(t))
                if v is not None and v != ("Q", ("+", 1)) or d is not None and self.sure(d):
                    return self.bad(user, n, "the position on the trail does not advance by one")
                return user._replace(ev=user.ev + ("q",))
            if t[0] == "field" and t[2] == "search_from":
                pass
        return user

    def sure(self, d):
        """the difference of two positions is certainly not 1: a constant or a number that may be 0 besides the constant"""
        return d.get(1, 0) != 1 if set(d) <= {1} else all(x == 1 or has(x, lambda s: s[0] in ("bin", "cast")) or is_call(x, "from") for x in d)

    def call(self, n, vals, env, user):
        k = n.data[0]
        nm = last(k[0]) if k else ""
        a = n.data[1]
        F = self.F
        if user.since and user.since[0] == "ELEM":
            user = user._replace(since=None) if nm not in ("index", "vi", "from", "not", "eq", "ne") else user
        v0 = vals[0] if vals else None
        P = ("L", "P", False)
        if n.kind == "diverge":
            return None, user._replace(halt=True)
        if n.id in F.hof or any(op[0] in ("c", "m") and F._closure_of(op) for op in a):
            r = self.higher(n, nm, vals, env, user)
            if r is not ...:
                return r
        if nm == "get" and v0 == ("TRAIL",) or nm == "get" and a and has_field(F.term(a[0]), "trail") and len(a) == 2:
            if vals[1] is not None and vals[1] != ("Q",):
                return None, self.bad(user, n, "the next literal is not taken from the position of the trail's head")
            return self.next_p(n, user)
        if nm == "len" and (v0 == ("TRAIL",) or a and has_field(F.term(a[0]), "trail") and not has_field(F.term(a[0]), "trail_lim")):
            return ("TLEN",), user
        if nm in ("decision_level",):
            return ("DL",), user
        if nm == "not" and v0:
            if v0[0] == "L":
                return ("L", v0[1], not v0[2]), user
            if v0[0] == "B":
                return ("B", not v0[1]), user
        if nm == "vi" and v0 and v0[0] == "L":
            return ("VI", v0[1]), user
        if k and k[0] == "bool.from" and v0 and v0[0] == "L":
            return ("B", self.case["sign"] != v0[2]), user
        if nm in ("from", "into") and v0 and v0[0] in ("L", "I", "B", "K"):
            return v0, user
        if nm in ("assigned",) and len(vals) > 1 and vals[1] and vals[1][0] == "L":
            v = self.value(vals[1])
            return (None if v is ... else self.opt(v)), user
        if nm == "assign" and len(vals) > 1 and vals[1] and vals[1][0] == "VI":
            return self.sub(("VAR", vals[1][1]), "assign", user), user
        if nm in ("eq", "ne") and len(vals) == 2:
            r = self.compare(nm.capitalize(), vals[0], vals[1])
            return (None if r is None else ("B", r)), user
        if nm in ("is_some", "is_none") and v0 and v0[0] == "OPT":
            return ("B", (v0[1] is not None) == (nm == "is_some")), user
        if nm in ("then_some", "then") and v0 and v0[0] == "B" and len(vals) > 1 and vals[1]:
            return ("OPT", vals[1] if v0[1] else None), user
        if nm == "xor" and len(vals) > 1:
            return None, user
        if nm in ("index", "index_mut", "get_unchecked", "get_unchecked_mut") and len(a) == 2:
            if vals[1] and vals[1][0] == "VI":
                return ("VAR", vals[1][1]), user
            if vals[1] and vals[1][0] == "CID":
                return ("CL", vals[1][1]), user
            if v0 and v0[0] in ("LITS", "CL") and (vals[1] is None or vals[1][0] in ("?", "K") or int(vals[1][1]) > 1):
                self.loose = True
                return None, user._replace(loose=True)
            if v0 and v0[0] == "LITS" or v0 and v0[0] == "CL" and vals[1] and vals[1][0] == "I":
                return self.item(("LITS", v0[1]), vals[1], user), user
            if v0 == ("TRAIL",) or has_field(F.term(a[0]), "trail"):
                r, user = self.next_p(n, user)
                if r[1] is None:
                    return None, user._replace(halt=True)
                return r[1], user
            return None, user
        if nm in ("lit0", "lit1") and v0 and v0 == ("CL", "C"):
            return self.pos(int(nm[3]), user), user
        if nm == "is_dead" and v0 and v0 == ("CL", "C"):
            return ("B", self.case["dead"]), user
        if nm == "is_dead":
            return ("B", False), user
        if nm == "is_satisfied_under":
            return None, user
        if nm == "binary_links":
            if vals[1] and vals[1] != ("L", "P", True):
                return None, self.bad(user, n, f"looks up the two-literal clauses of {ltext(vals[1])}, not of the literal that became false")
            return None, user._replace(ev=user.ev + ("links",))
        if nm == "watch_cache_iter":
            if vals[1] and vals[1] != P:
                return None, self.bad(user, n, f"walks the watch list of {ltext(vals[1])}")
            return ("SRC",), user._replace(ev=user.ev + ("watch",))
        if k and k[0] == "WatchCacheIterator.next" or nm == "next" and v0 == ("SRC",):
            if user.fetched or not self.case["visit"]:
                return ("OPT", None), user._replace(ev=user.ev + ("again",))
            return ("OPT", ("IX",)), user._replace(fetched=1)
        if nm == "fetch_watch_cache_entry":
            if vals[1] and vals[1] != P:
                return None, self.bad(user, n, f"reads the watch list of {ltext(vals[1])}")
            return ("TUP", (("CID", "C"), ("L", "O" if self.case["same"] else "C", False))), user
        if nm == "next" or nm == "next_back":
            v, user = self.deliver(n, self.typ(n.data[2]), user)
            if v is ...:
                return None, user
            return ("OPT", v), user
        if nm == "swap_watch" and len(vals) > 1:
            if vals[1] and vals[1] != ("CID", "C"):
                return None, self.bad(user, n, "exchanges the watches of another clause")
            return None, user._replace(swapped=not user.swapped)
        if nm == "swap" and len(vals) == 3 and {vals[1], vals[2]} == {("I", 0), ("I", 1)}:
            return None, user._replace(swapped=not user.swapped)
        if nm == "transform_by_restoring_watch_cache":
            if vals[1] and vals[1] != P:
                return None, self.bad(user, n, f"restores an entry of the watch list of {ltext(vals[1])}")
            b = vals[3] if len(vals) > 3 else None
            if b and b[0] == "OPT" and b[1] and b[1][0] == "L" and b[1] not in (("L", "O", False), ("L", "C", False), ("L", "T0", False),
                                                                                  ("L", "T1", False), ("L", "P", True)):
                return None, self.bad(user, n, f"caches {ltext(b[1])}, which is not in the clause")
            return None, user._replace(ev=user.ev + ("restore",))
        if nm == "restore_entry":
            return None, user._replace(ev=user.ev + ("restore",))
        if nm == "detach_watch_cache":
            if vals[1] and vals[1] != P:
                return None, self.bad(user, n, f"removes an entry of the watch list of {ltext(vals[1])}")
            return None, user._replace(ev=user.ev + ("detach",))
        if nm == "transform_by_updating_watch":
            c, o, w, r = (vals + [None] * 5)[1:5]
            if c and c != ("CID", "C"):
                return None, self.bad(user, n, "moves the watch of another clause")
            at = 0 if self.pos(0, user) == ("L", "P", True) else 1
            if o and o[0] == "I" and int(o[1]) != at:
                return None, self.bad(user, n, "gives up the watch that did not become false")
            if w and w[0] == "K" and w != ("K", "T1"):
                return None, self.bad(user, n, "watches " + ("a literal that is false" if w[1] == "T0" and len(w) == 2 else
                                                            "another position than the one of the literal found"))
            if r and r[0] in ("B", "I") and not r[1] and "detach" in user.ev:
                pass
            elif r and r[0] in ("B", "I") and not r[1]:
                return None, self.bad(user, n, "lets the watch list shrink behind the iterator")
            return None, user._replace(ev=user.ev + ("move",))
        if nm in ("assign_by_implication",):
            l, why, lv = (vals + [None] * 4)[1:4]
            m = self.implied(l, why, lv, user)
            if m:
                return None, self.bad(user, n, m)
            return None, user._replace(ev=user.ev + (("imply", l[1] if l else "?"),))
        if nm == "reuse_saved_trail":
            return ("RES", True, None), user
        if nm in ("unwrap", "expect") and v0 and v0[0] in ("OPT", "RES"):
            if v0[0] == "OPT" and v0[1] is None:
                return None, user._replace(halt=True)
            return (v0[1] if v0[0] == "OPT" else v0[2]), user
        if nm in ("min", "max") and v0 and v0[0] == "K":
            return None, user
        if nm in ("unwrap_or", "unwrap_or_default", "unwrap_or_else") and v0 and v0[0] == "OPT":
            if v0[1] is not None:
                return v0[1], user
            return (vals[1] if nm == "unwrap_or" and len(vals) > 1 else ("B", False) if nm == "unwrap_or_default" and
                    self.typ(n.data[2]) == "bool" else None), user
        if nm in ("or", "and") and v0 and v0[0] == "OPT" and len(vals) > 1 and vals[1] and vals[1][0] == "OPT":
            return (v0 if v0[1] is not None else vals[1]) if nm == "or" else (vals[1] if v0[1] is not None else v0), user
        if nm in ("clone", "copied", "cloned", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "into_iter", "iter", "by_ref",
                  "as_deref") and v0:
            return v0, user
        return None, user

    def next_p(self, n, user):
        if user.trail == 0:
            return ("OPT", ("L", "P", False)), user._replace(trail=1)
        m = self.at_end(user)
        if m:
            return ("OPT", None), self.bad(user, n, m)
        return ("OPT", None), user._replace(trail=2)

    def implied(self, l, why, lv, user):
        if l and l[0] == "L" and not user.loose:
            want = self.case["imply"]
            want = {want} if want else self.case["implies"]
            if l not in [("L", w, False) for w in want]:
                return f"assigns {ltext(l)}, which is not implied"
            if ("imply", l[1]) in user.ev:
                return f"assigns {ltext(l)} twice"
        if why and why[0] == "WHY":
            w = ("Implication", (("CID", "C"),)) if self.case["visit"] else ("BinaryLink", (("L", "P", False),))
            if why[1] != w[0] or why[2][0] is not None and why[2] != w[1]:
                return "records another reason than the clause that implies the literal"
        if self.case["visit"] and self.pos(0, user) != ("L", "O", False):
            return "the implied literal is not the first literal of its reason"
        if lv is not None and lv != ("DL",):
            return "assigns the literal at another level"
        return None

    def higher(self, n, nm, vals, env, user):
        """a library function whose closures have been followed"""
        F = self.F
        v0 = vals[0] if vals else None
        loc = next((l for l, h in self.rets.items() if F.nodes[h].succ and any(
            m.kind == "assign" and m.frame == l[0] and m.data[1][0] == "use" and m.data[1][1][0] == "elem" and m.data[1][1][1][0] == n.id
            for m in F.nodes)), None)
        if loc is None:
            return ...
        r = env.get((loc, ()))
        if nm in ("map", "and_then", "is_some_and", "is_none_or", "map_or"):
            env.pop((loc, ()), None)        # not to be taken for the answer of the next call
        if nm in ("map", "and_then") and v0 and v0[0] == "OPT":
            if v0[1] is None:
                return ("OPT", None), user
            if r is None:
                return None, user._replace(halt=True)
            return (("OPT", r) if nm == "map" else r), user
        if nm in ("is_some_and", "is_none_or", "map_or") and v0 and v0[0] == "OPT":
            if v0[1] is None:
                return (("B", nm == "is_none_or") if nm != "map_or" else vals[1]), user
            return (None, user._replace(halt=True)) if r is None else (r, user)
        if n.id in F.hof:
            stop = F.hof[n.id][0]
            d = dict(user.scan)
            el = 1 + (self.case["tail"] in (n.id, "all"))
            stopped = r is not None and r[0] in ("B", "I") and int(r[1]) == (0 if stop == "all" else 1) or r is not None and r[0] == "RES" and not r[1]
            if (n.id in d or self.case["tail"] == n.id) and d.get(n.id, 0) < el and not stopped:
                return None, user._replace(halt=True)
            if stop in ("any", "all"):
                return ("B", stopped == (stop == "any")), user
            if stop == "find":
                lst = "T1" if d.get(n.id) == 2 else "T0"
                ty = self.typ(n.data[2])
                l = ("L", lst, False)
                return ("OPT", (("TUP", (("K", lst), l)) if "usize" in ty else l) if stopped else None), user
            if stop == "position":
                return ("OPT", ("?",) if stopped else None), user
            if r is not None and r[0] == "RES":
                return r, user
        return ...

    def halt(self, user):
        return user.halt or user.trail == 2

    # -- what must have happened
    def at_end(self, user):
        ev = user.ev
        if ev.count("q") != 1:
            return "the position on the trail does not advance by one for a literal"
        if "links" not in ev:
            return "the two-literal clauses of the literal are not examined"
        if "watch" not in ev or "again" not in ev:
            return "the scan of the clauses ends before the last one"
        if user.links < len(self.case["links"]):
            return "the two-literal clauses are not all examined"
        return self.outcome(user, None)

    def outcome(self, user, err):
        """judges the visit; err: the value returned in an error"""
        C = self.case
        ev = [e for e in user.ev if e in ("restore", "detach", "move") or isinstance(e, tuple)]
        if user.loose:
            return None
        if err is None and C["conflict"]:
            return f"{NAMES[C['conflict']]} is false but no conflict is reported"
        if err is not None:
            if not C["conflict"]:
                return "a conflict is reported although the clause is not falsified"
            l, why = err
            ok = [("L", C["conflict"], False)] + ([("L", "P", True), ("L", "C", False)] if C["visit"] else [("L", "P", True)])
            if l is not None and l not in ok:
                return f"the conflict is reported with {ltext(l)}"
            w = ("Implication", (("CID", "C"),)) if C["visit"] else ("BinaryLink", (("L", "P", False),))
            if why and why[0] == "WHY" and (why[1] != w[0] or why[2][0] is not None and why[2] != w[1]):
                return "the conflict is reported with another clause"
            if any(e in ("detach", "move") for e in ev):
                return "a conflicting clause loses its watch"
            return None
        for w in C["implies"]:
            if ("imply", w) not in ev and ("imply", "?") not in ev:
                return f"{NAMES[w]} is implied but not assigned"
        if C["imply"] and not any(isinstance(e, tuple) and e[1] == C["imply"] or e == ("imply", "?") for e in ev):
            return f"{NAMES[C['imply']]} is implied but not assigned"
        if not C["visit"]:
            return None
        k = (ev.count("restore"), ev.count("detach"), ev.count("move"))
        if k not in ((1, 0, 0), (0, 1, 1)):
            return "the watch is neither kept nor moved exactly once " + \
                f"(kept {k[0]}, removed {k[1]}, moved {k[2]} times)"
        if k[1] and C["tail"] is None:
            return "the watch moves although every other literal is false"
        if k[0] and C["move"]:
            return "the watch stays on the false literal although another literal is not false"
        if k[1] and C["dead"]:
            return "a dead clause is watched again"
        return None

    def done(self, user, n, i):
        if n.kind != "return" or user.halt:
            return None
        r = (self.F.pval[i].get((0, 0)) or ("?", "?"))[1]
        if r == "Ok":
            return "ends before every literal of the trail is propagated" if user.trail == 1 else None
        if r == "Err" and user.trail == 1:
            x = user.ret
            return self.outcome(user, x[1] if x and x[0] == "TUP" and len(x[1]) == 2 else (None, None))
        return None


T, FA, UN = True, False, None


def cases(scans, sandbox):
    """every case of one visit"""
    out = []
    for sign in (True, False):
        # two-literal clauses
        for b in (T, FA, UN):
            for b2 in (T, FA, UN):
                out.append(dict(sign=sign, visit=False, links=("B", "B2"), v={"P": T, "B": b, "B2": b2}, pos=0, same=True, dead=False, tail=None,
                                conflict="B" if b is FA else "B2" if b2 is FA else None, imply=None, move=False,
                                implies={x for x, y in (("B", b), ("B2", b2)) if y is UN}))
        for pos in (0, 1):
            for same_ in (True, False):
                for vo in (T, FA, UN):
                    for vc in ((vo,) if same_ else (T, FA, UN)):
                        for tail in [None] + list(scans):
                            if tail is None and not same_ and vc is not FA:
                                if vc is UN:
                                    continue        # the cached literal is one of the others
                            for t1 in ((T, UN) if tail is not None else (FA,)):
                                sat = vo is T or vc is T
                                out.append(dict(sign=sign, visit=True, links=(), v={"P": T, "O": vo, "C": vc, "T0": FA, "T1": t1}, pos=pos,
                                                same=same_, dead=False, tail=tail, move=tail is not None and not sat,
                                                conflict="O" if tail is None and vo is FA and not sat else None,
                                                imply="O" if tail is None and vo is UN and not sat else None, implies=set()))
        if sandbox:
            out.append(dict(sign=sign, visit=True, links=(), v={"P": T, "O": UN, "C": UN, "T0": FA, "T1": UN}, pos=0, same=True, dead=True,
                            tail=None, move=False, conflict=None, imply=None, implies=set()))
    return out


def describe(case):
    v = case["v"]
    if not case["visit"]:
        return f"two-literal clauses whose other literals are {SHOWV[v['B']]} and {SHOWV[v['B2']]}"
    if case["dead"]:
        return "a dead clause"
    return f"false literal at position {case['pos']}, other watch {SHOWV[v['O']]}" + \
        ("" if case["same"] else f", cached literal {SHOWV[v['C']]}") + \
        (", every other literal false" if case["tail"] is None else f", a later literal {SHOWV[v['T1']]}")


# what can go wrong with the lists themselves
LISTS = ("restores an entry of the watch list", "removes an entry of the watch list", "moves the watch of another clause",
         "gives up the watch that did not", "lets the watch list shrink", "neither kept nor moved", "watches another position than")


def visits(c, fn, sandbox, words=None):
    F = c.flat(fn)
    it = {n.id for n in F.nodes if n.kind == "call" and n.id in F.at and n.data[0] and n.data[0][0] == "WatchCacheIterator.next"}
    c.floor("visit", 1, len(c.calls(F, "ClauseDB.fetch_watch_cache_entry")))
    c.floor("visit", 1, len(it))
    # which calls deliver the literals of the clause
    probe = Visit(c, F, cases([], sandbox)[0])
    base = [x for x in cases([], False) if x["visit"] and x["tail"] is None][-1]
    probe = Visit(c, F, dict(base, v={"P": T, "O": FA, "C": FA, "T0": FA, "T1": FA}, same=True, conflict="O", imply=None))
    probe.run({}, INIT)
    scans = sorted(probe.scans)
    c.floor("visit", 1, len(scans) + probe.loose)
    n = 0
    seen = set()
    for case in cases(scans, sandbox):
        I = Visit(c, F, case)
        p = I.run({}, INIT)
        n += 1
        m = I.msg if p else None
        if m and words and not any(w in m for w in words):
            p = m = None
        if m and m.split(": ")[-1] in seen:
            continue
        if m:
            seen.add(m.split(": ")[-1])
        w = c.where(F, F.pn[p[-1]]) if p else F.root.where()
        c.ob("visit", p is None, f"{w}: {fn.split('.')[-1]}: {m} ({describe(case)})" if p else "",
             f"{fn.split('.')[-1]}:{(m or '').split(': ')[-1][:60]}", w, F.show(p) if p else None)
    return F, scans, n


# ------------------------------------------------------------------ which positions are searched
def span(t):
    """(lower, upper, position of the first element counted by enumerate) of an iterator over a clause as affine terms; None if unknown.
    bounds are dicts of lin; upper None = the end"""
    t = norm_(t)
    if t[0] == "call":
        nm = last(t[1])
        if nm in ("iter", "iter_mut", "into_iter", "copied", "cloned", "by_ref", "deref", "as_slice", "lits", "enumerate", "peekable",
                  "borrow", "borrow_mut", "fuse", "map") and t[2]:
            r = span(t[2][0])
            if r is None or nm != "enumerate":
                return r if nm != "map" else None
            return [(lo, hi, sub(lo, base)) for lo, hi, base in r] if len(r) == 1 else None
        if nm in ("skip", "take") and len(t[2]) == 2:
            r = span(t[2][0])
            if r is None or len(r) != 1:
                return None
            lo, hi, base = r[0]
            d = lin(t[2][1])
            if nm == "skip":
                return [(add(lo, d), hi, base)]
            if hi is not None:
                return None
            return [(lo, add(lo, d), base)]
        if nm == "chain" and len(t[2]) == 2:
            a, b = span(t[2][0]), span(t[2][1])
            return None if a is None or b is None else a + b
        if nm in ("index", "get_unchecked") and len(t[2]) == 2:
            return ranged(t[2][0], t[2][1]) or [({}, None, {})]
        return None
    if t[0] == "index" and len(t) > 2:
        return ranged(t[1], t[2]) or ([({}, None, {})] if "ClauseId" in repr(t) or True else None)
    if t[0] in ("field", "var", "arg", "deref", "elem"):
        return [({}, None, {})]
    return None


def ranged(base, r):
    r = norm_(r)
    if r[0] == "adt" and last(r[1].replace("::", ".")) in ("Range", "RangeFrom", "RangeTo", "RangeFull"):
        d = dict(r[3])
        lo = lin(d["start"]) if "start" in d else {}
        return [(lo, lin(d["end"]) if "end" in d else None, lo)]
    return None


def norm_(t):
    return t


def add(a, b, k=1):
    d = dict(a)
    for x, y in b.items():
        d[x] = d.get(x, 0) + k * y
    return {x: y for x, y in d.items() if y}


def sub(a, b):
    return add(a, b, -1)


def ranges(c, F, scans):
    """together the searches see every position from the third on, each under its own number"""
    sp = []
    for k in scans:
        n = F.nodes[k]
        t = F.term(n.data[1][0])
        if t[0] == "var":
            ds = [d for d in F.defs.get(t[1], []) if d.id in F.at]
            t = F.def_term(ds[0]) if len(ds) == 1 else t
        r = span(t)
        if r is None or t[0] == "var":
            return
        sp += [(k,) + x for x in r]
    for k, lo, hi, base in sp:
        off = base
        if "usize" in F.frame_body[n.frame].locals[F.nodes[k].data[2][0][1]]:
            moves = [m for m in F.nodes if m.id in F.at and m.kind == "call" and last(m.data[0][0]) == "transform_by_updating_watch"]
            raw = any(list(lin(F.term(m.data[1][3])).values()) == [1] for m in moves)
            c.ob("range", not (raw and off), f"{c.where(F, k)}: positions are counted from {ltxt(off)} on", "count", c.where(F, k))
    two = {1: 2}
    # from 2 up to the first start, and from there to the end
    todo = [(lo, hi) for _, lo, hi, _ in sp]
    at = two
    for _ in range(len(todo) + 1):
        nx = next(((lo, hi) for lo, hi in todo if le(lo, at) and (hi is None or not le(hi, at))), None)
        if nx is None:
            break
        if nx[1] is None:
            at = None
            break
        at = nx[1]
    if not scans:
        return
    w = c.where(F, scans[0])
    c.ob("range", at is None, f"{w}: no search looks at the position {ltxt(at) if at is not None else ''}", "cover", w)
    for k, lo, hi, base in sp:
        d = sub(lo, two)
        c.ob("range", not (set(d) <= {1} and d.get(1, 0) < 0), f"{c.where(F, k)}: a watched literal is taken for a new watch", "low", c.where(F, k))


def le(a, b):
    """a <= b for all starting points, as far as constants show"""
    d = sub(b, a)
    return set(d) <= {1} and d.get(1, 0) >= 0


def ltxt(d):
    return " + ".join((tstr(x)[:40] if x != 1 else "") + ("" if x != 1 and y == 1 else f"{y}" if x == 1 else f"*{y}") for x, y in d.items()) or "0"


def starts(c):
    """the remembered starting point of the search is never below 2"""
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or '"search_from"' not in json.dumps(b.blocks):
            continue
        G = c.flat(b)
        for k in c.writes(G, "search_from"):
            if G.nodes[k].body.uid != b.uid:
                continue
            n += 1
            v = c.wval(G, k)
            while v[0] in ("cast",) or is_call(v, "min", "try_from", "unwrap_or", "unwrap", "from", "into") and v[2]:
                v = v[1] if v[0] == "cast" else v[2][0]
            if isinstance(constval(v), int):
                c.ob("start", constval(v) >= 2, f"{c.where(G, k)}: the search starts at {constval(v)}", "const", c.where(G, k))
            elif v[0] == "bin" and v[1].startswith("Sub") or is_call(v, "saturating_sub", "wrapping_sub"):
                c.ob("start", False, f"{c.where(G, k)}: the search may start before the third literal", "below", c.where(G, k))
    c.floor("start", 3, n)


# ------------------------------------------------------------------ the lists
def field_of(t, *names):
    return t[0] == "field" and t[2] in names


def lists(c):
    W = "WatchCacheIterator."
    F = c.flat(W + "next")
    small = lambda f: f[0][0] == "lt" and f[1] and field_of(f[0][1], "index") and field_of(f[0][2], "end_at") or \
        f[0][0] == "lt" and not f[1] and field_of(f[0][2], "index") and field_of(f[0][1], "end_at") and False or \
        f[0][0] == "eq" and not f[1] and {x[2] for x in f[0][1:3] if x[0] == "field"} == {"index", "end_at"}
    t = F.term(("c", ((0, 0), ())))
    w = F.root.where()
    if is_call(t, "then_some", "then"):
        g = t[2][0]
        good = g[0] == "bin" and (g[1] == "Lt" and field_of(g[2], "index") and field_of(g[3], "end_at") or
                                  g[1] == "Gt" and field_of(g[3], "index") and field_of(g[2], "end_at") or
                                  g[1] == "Ne" and {x[2] for x in g[2:4] if x[0] == "field"} == {"index", "end_at"})
        c.ob("lists", good or g[0] == "var", f"{w}: an entry is delivered under {tstr(g)[:60]}", "next-bound", w)
        if t[1].endswith("then_some"):
            c.ob("lists", field_of(t[2][1], "index"), f"{w}: delivers {tstr(t[2][1])[:60]}", "next-value", w)
    else:
        for i, av in F.returns():
            if av is not None and av[1] == "Some":
                p = F._find(F.pstart, lambda x: x == i, lambda x: False, c.edge_ok(F, [small]))
                c.ob("lists", p is None, f"{w}: an entry is delivered although the list is exhausted", "next-bound", w, F.show(p) if p else None)
            elif av is not None and av[1] == "None":
                big = lambda f: (f[0][0] == "lt" and not f[1] and field_of(f[0][1], "index") and field_of(f[0][2], "end_at")) or \
                    f[0][0] == "eq" and f[1] and {x[2] for x in f[0][1:3] if x[0] == "field"} == {"index", "end_at"}
                p = F._find(F.pstart, lambda x: x == i, lambda x: False, c.edge_ok(F, [big]))
                c.ob("lists", p is None, f"{w}: the scan ends before the last entry", "next-end", w, F.show(p) if p else None)
    for k in c.writes(F, "index") + c.writes(F, "end_at"):
        c.ob("lists", False, f"{c.where(F, k)}: asking for an entry moves the iterator", "next-moves", c.where(F, k))
    for fn, fld, want, oth in ((W + "restore_entry", "index", 1, "end_at"), (W + "detach_entry", "end_at", -1, "index")):
        G = c.flat(fn)
        ws = c.writes(G, fld)
        c.always("lists", G, ws, f"changing {fld}", fn)
        for k in ws:
            d = step(G, k)
            c.ob("lists", d in (want, None), f"{c.where(G, k)}: {fld} changes by {d}", fn + ":step", c.where(G, k))
            p = G.path_after(k, lambda i: G.pn[i] in ws, lambda i: False)
            c.ob("lists", p is None, f"{c.where(G, k)}: {fld} changes twice", fn + ":twice", c.where(G, k))
        for k in c.writes(G, oth):
            c.ob("lists", False, f"{c.where(G, k)}: {oth} changes too", fn + ":" + oth, c.where(G, k))
    N = c.flat(W + "new")
    t = N.term(("c", ((0, 0), ())))
    if t[0] == "adt":
        d = dict(t[3])
        c.ob("lists", constval(d.get("index", ())) == 0, f"{N.root.where()}: the scan starts at {tstr(d.get('index', ()))[:40]}", "new-index",
             N.root.where())
        c.ob("lists", d.get("end_at", ("?",))[0] in ("arg", "var"), f"{N.root.where()}: the scan ends at {tstr(d.get('end_at', ()))[:40]}",
             "new-end", N.root.where())
    # the operations of the clause database
    A = c.flat("ClauseDB.watch_cache_iter", inline=(W + "new",))
    t = A.term(("c", ((0, 0), ())))
    e = dict(t[3]).get("end_at") if t[0] == "adt" else None
    if e is not None:
        ok = is_call(e, "len") and has_field(e, "watch_cache") and has_arg_(e, 2) and not has(e, lambda s: s[0] == "bin" or is_call(s, "not"))
        c.ob("lists", ok, f"{A.root.where()}: the scan covers {tstr(e)[:60]}", "iter-len", A.root.where())
    B = c.flat("ClauseDB.fetch_watch_cache_entry")
    t = B.term(("c", ((0, 0), ())))
    ix = indexed_(t)
    if ix:
        ok = ix[1][0] == "arg" and ix[1][2] == 3 and has_field(ix[0], "watch_cache") and has_arg_(ix[0], 2) and not has_call(ix[0], "not")
        c.ob("lists", ok, f"{B.root.where()}: the entry read is {tstr(t)[:60]}", "fetch", B.root.where())
    D = c.flat("ClauseDB.detach_watch_cache", inline=(W + "detach_entry",))
    for k in c.writes(D, "index") + c.calls(D, W + "restore_entry"):
        c.ob("lists", False, f"{c.where(D, k)}: the scan skips the entry that takes the place of the removed one", "detach-skip", c.where(D, k))
    rm = [k for k in c.calls(D, "Vec.swap_remove", "Vec.remove", "swap_remove") if has_field(c.args(D, k)[0], "watch_cache")]
    if c.calls(D, "[T].swap", "Vec.retain", "Vec.delete_unstable", "Vec.drain"):
        rm = rm or c.calls(D, "Vec.pop", "Vec.truncate", "Vec.retain", "Vec.delete_unstable", "Vec.drain")
    c.always("lists", D, rm, "removing the entry", "detach")
    c.always("lists", D, c.writes(D, "end_at"), "shortening the scan", "detach-end")
    for k in c.writes(D, "end_at"):
        d = step(D, k)
        c.ob("lists", d in (-1, None), f"{c.where(D, k)}: end_at changes by {d}", "detach-step", c.where(D, k))
    for k in c.writes(D, "index"):
        c.ob("lists", False, f"{c.where(D, k)}: the scan skips the entry that took the place of the removed one", "detach-index", c.where(D, k))
    for k in rm:
        a = c.args(D, k)
        if last(D.nodes[k].data[0][0]) in ("swap_remove", "remove"):
            c.ob("lists", field_of(a[1], "index") or a[1][0] == "var", f"{c.where(D, k)}: removes the entry {tstr(a[1])[:50]}", "detach-entry",
                 c.where(D, k))
        c.ob("lists", has_arg_(a[0], 2) and not has_call(a[0], "not"), f"{c.where(D, k)}: removes from {tstr(a[0])[:60]}", "detach-list", c.where(D, k))
    R = c.flat("ClauseDB.transform_by_restoring_watch_cache", inline=(W + "restore_entry",))
    ws = c.writes(R, "index")
    c.always("lists", R, ws, "moving on to the next entry", "restore")
    for k in ws:
        d = step(R, k)
        c.ob("lists", d in (1, None), f"{c.where(R, k)}: index changes by {d}", "restore-step", c.where(R, k))
    for k in c.writes(R, "end_at"):
        c.ob("lists", False, f"{c.where(R, k)}: keeping an entry shortens the scan", "restore-end", c.where(R, k))
    for n in R.nodes:
        if n.id not in R.at or n.kind != "assign" or not n.data[0][1]:
            continue
        t = R.place_term(n.data[0])
        if has_field(t, "watch_cache"):
            last_ = n.data[0][1][-1]
            c.ob("lists", last_[:2] == ("f", "1"), f"{c.where(R, n.id)}: keeping an entry changes {tstr(t)[:60]}", "restore-what", c.where(R, n.id))
            x = indexed_(t[1]) if t[0] == "field" else None
            if x:
                c.ob("lists", field_of(x[1], "index") or x[1][0] == "var", f"{c.where(R, n.id)}: changes the entry {tstr(x[1])[:50]}",
                     "restore-entry", c.where(R, n.id))
                c.ob("lists", has_arg_(x[0], 2) and not has_call(x[0], "not"), f"{c.where(R, n.id)}: changes {tstr(x[0])[:50]}", "restore-list",
                     c.where(R, n.id))
            for q in ws:
                p = R.path_after(q, lambda i: R.pn[i] == n.id, lambda i: False)
                c.ob("lists", p is None, f"{c.where(R, n.id)}: the literal is cached in the entry after the one kept", "restore-order",
                     c.where(R, n.id))
    for k in c.calls(R, "Vec.swap_remove", "Vec.remove", "Vec.clear", "Vec.pop", "Vec.push", "Vec.truncate", "Vec.insert"):
        c.ob("lists", False, f"{c.where(R, k)}: keeping an entry changes the list", "restore-edit", c.where(R, k))
    S_ = c.flat("ClauseDB.swap_watch")
    sw = [k for k in c.calls(S_, "[T].swap") if {constval(x) for x in c.args(S_, k)[1:]} == {0, 1}]
    if c.calls(S_, "[T].swap"):
        c.always("lists", S_, sw, "exchanging the first two literals", "swap")
    L = c.flat("ClauseDB.binary_links", inline=("BinaryLinkDB.connect_with", "BinaryLinkIF.connect_with"))
    t = L.term(("c", ((0, 0), ())))
    x = indexed_(t)
    if x:
        ok = field_of(x[0], "list") and has_arg_(x[1], 2) and not has(x[1], lambda s: s[0] == "bin" or is_call(s, "not"))
        c.ob("lists", ok, f"{L.root.where()}: the two-literal clauses looked up are {tstr(t)[:60]}", "links", L.root.where())
    # removing the entry that a predicate names
    E = c.flat("Vec.delete_unstable")
    from props_cdb import swapped_out
    rm = c.calls(E, "Vec.swap_remove", "Vec.remove", "Vec.retain") + swapped_out(c, E)
    none = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "None"
    c.always("lists", E, rm, "removing the entry found", "delete", [none])
    for k in rm:
        if last(E.nodes[k].data[0][0]) in ("retain", "pop"):
            continue
        i = c.args(E, k)[1]
        c.ob("lists", has_call(i, "position") and not has(i, lambda s: s[0] == "bin") or i[0] == "var", f"{c.where(E, k)}: removes the entry {tstr(i)[:50]}",
             "delete-entry", c.where(E, k))
        its = {last(s[1]) for s in subterms(i) if s and s[0] == "call"} & {"skip", "take", "step_by", "rev", "take_while", "skip_while"}
        c.ob("lists", not its, f"{c.where(E, k)}: the entry is searched through {', '.join(sorted(its))}", "delete-search", c.where(E, k))


def step(F, k):
    """by how much an assignment changes its field; None if unknown"""
    n = F.nodes[k]
    t = F.place_term(n.data[0])
    v = F.rv_term(n.data[1], 0, (), n)
    d = sub(lin(v), lin(t))
    return d.get(1, 0) if set(d) <= {1} else None


def has_arg_(t, i):
    return has(t, lambda s: s[0] == "arg" and s[2] == i)


def indexed_(t):
    if t[0] == "index" and len(t) > 2:
        return t[1], t[2]
    if is_call(t, "index", "index_mut", "get_unchecked", "get_unchecked_mut") and len(t[2]) == 2:
        return t[2][0], t[2][1]
    if t[0] == "deref":
        return indexed_(t[1])
    return None


@prop("P32", "abstract interpretation of one visit of a clause over every case of its literals' values",
      "Both propagation functions are interpreted for every combination of the values of the watched, cached and remaining "
      "literals, of the position of the false watch and of the literals' signs; the list operations they use are decided by "
      "dataflow rules. The reuse of saved trails is not part of this property.")
def p32(c):
    from props_prims import watch_steps
    watch_steps(c)
    total = 0
    for fn, sb in (("AssignStack.propagate", False), ("AssignStack.propagate_sandbox", True)):
        F, scans, n = visits(c, fn, sb)
        total += n
        ranges(c, F, scans)
    c.floor("cases", 100, total)
    starts(c)
    lists(c)
