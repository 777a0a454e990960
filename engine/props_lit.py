"""P26 conversions of literals: every conversion is evaluated on an affine domain that covers all variables at once."""
from rules import *
from registry import prop
from absint import Interp, key as place_key

NMAX = 2 ** 30 - 1          # the largest variable a literal can hold
BITS = {"i8": 7, "u8": 8, "i16": 15, "u16": 16, "i32": 31, "u32": 32, "i64": 63, "u64": 64, "isize": 63, "usize": 64, "i128": 127,
        "u128": 128}
SIGNED = lambda t: t.startswith("i")


def show(v):
    if v is None:
        return "?"
    if v[0] == "A":
        a, b = v[1], v[2]
        return (f"{a}*v" if a != 1 else "v") + (f"{b:+d}" if b else "") if a else str(b)
    return {"B": str(v[1]), "LOSS": f"a lossy value ({v[1]})"}.get(v[0], str(v[1:]))


def aff(v):
    """(a, b) of a*v+b"""
    if v is None:
        return None
    if v[0] == "A":
        return v[1], v[2]
    if v[0] == "I" and not isinstance(v[1], bool):
        return 0, int(v[1])
    if v[0] == "B":
        return 0, int(v[1])
    return None


def A(a, b):
    return ("A", a, b) if a else ("I", b)


def rng(a, b):
    x, y = a + b, a * NMAX + b
    return min(x, y), max(x, y)


def bits(op, v, k):
    """v op k for a constant k"""
    a, b = v
    if a == 0:
        return ("I", {"BitAnd": b & k, "BitOr": b | k, "BitXor": b ^ k}[op])
    lo, hi = rng(a, b)
    if lo < 0:
        return None
    m = (a & -a).bit_length() - 1           # the low m bits are constant
    low, high = b % (1 << m), b - b % (1 << m)
    kl, kh = k % (1 << m), k >> m
    w = max(hi.bit_length() - m, 1)
    if op == "BitAnd":
        if kh & ((1 << w) - 1) == (1 << w) - 1:
            return A(a, high + (low & kl))
        if kh == 0:
            return ("I", low & kl)
        return ("LOSS", "masked")
    if kh == 0:
        return A(a, high + (low | kl if op == "BitOr" else low ^ kl))
    if kh & ((1 << w) - 1) == 0:
        return A(a, high + (low | kl if op == "BitOr" else low ^ kl) + (kh << m))
    return ("LOSS", "bits of the variable changed")


def arith(op, x, y):
    a, b = x
    c, d = y
    if op == "Add":
        return A(a + c, b + d)
    if op == "Sub":
        return A(a - c, b - d)
    if op == "Mul":
        return A(a * d, b * d) if c == 0 else A(c * b, d * b) if a == 0 else None
    if op in ("Shl",) and c == 0:
        return A(a << d, b << d)
    if op in ("Shr", "Div", "Rem") and c == 0 and rng(a, b)[0] < 0:
        return None
    if op in ("Shr", "Div") and c == 0:
        k = 1 << d if op == "Shr" else d
        if a % k == 0 and k > 0 and (op == "Shr" or rng(a, b)[0] >= 0):
            return A(a // k, b // k)
        if k > 0 and rng(a, b)[0] >= 0 and rng(a, b)[1] // k == rng(a, b)[0] // k:
            return ("I", rng(a, b)[0] // k)
        return ("LOSS", f"divided by {k}") if k > 0 else None
    if op == "Rem" and c == 0 and d > 0:
        if a % d == 0 and rng(a, b)[0] >= 0:
            return ("I", b % d)
        return ("LOSS", f"modulo {d}")
    return None


class Conv(Interp):
    """values: ("A", a, b) = a*v+b for the variable v, ("I", k), ("B", k), ("LOSS", why); literals are their ordinals"""
    LIMIT = 20000

    def __init__(self, F, spec, want):
        super().__init__(F)
        self.want, self.spec = want, spec
        self.seen = 0

    @staticmethod
    def k(place):
        k = place_key(place)
        return None if k is None else (k[0], tuple(f for f in k[1] if f != "ordinal"))

    def get(self, place, env, user):
        k = self.k(place)
        return env.get(k) if k is not None else None

    def compare(self, o, a, b):
        x, y = aff(a), aff(b)
        if x is None or y is None:
            return None
        d = (x[0] - y[0], x[1] - y[1])
        lo, hi = rng(*d)
        r = {"Lt": (hi < 0, lo >= 0), "Le": (hi <= 0, lo > 0), "Gt": (lo > 0, hi <= 0), "Ge": (lo >= 0, hi < 0),
             "Eq": (lo == hi == 0, lo > 0 or hi < 0), "Ne": (lo > 0 or hi < 0, lo == hi == 0)}[o]
        return True if r[0] else False if r[1] else "both"

    def rv(self, r, env, user):
        if r[0] == "bin":
            o = r[1].replace("Unchecked", "").replace("WithOverflow", "")
            a, b = self.val(r[2], env, user), self.val(r[3], env, user)
            if a and a[0] == "LOSS" or b and b[0] == "LOSS":
                return ("LOSS", (a if a and a[0] == "LOSS" else b)[1])
            if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                if a and b and a[0] == "B" == b[0]:
                    return ("B", self.compare(o, a, b) is True)
                x = self.compare(o, a, b)
                return None if x is None else ("E", "both") if x == "both" else ("B", x)
            x, y = aff(a), aff(b)
            if x is None or y is None:
                return None
            if o in ("BitAnd", "BitOr", "BitXor"):
                v = bits(o, x, y[1]) if y[0] == 0 else bits(o, y, x[1]) if x[0] == 0 else None
                return ("B", bool(v[1])) if v and v[0] == "I" and a[0] == b[0] == "B" else v
            v = arith(o, x, y)
            return v
        if r[0] == "un":
            v = self.val(r[2], env, user)
            if r[1] == "Neg" and aff(v):
                return A(-aff(v)[0], -aff(v)[1])
            if r[1] == "Not" and v and v[0] == "B":
                return ("B", not v[1])
            return v if v and v[0] in ("LOSS", "E") else None
        if r[0] == "cast":
            v = self.val(r[2], env, user)
            if r[1] == "IntToInt" and aff(v) is not None:
                a, b = aff(v)
                t = r[3]
                if t not in BITS:
                    return None
                lo, hi = rng(a, b)
                if hi >= 2 ** BITS[t] or lo < (-2 ** BITS[t] if SIGNED(t) else 0):
                    if lo < 0 and not SIGNED(t) and hi < 2 ** BITS[t]:
                        return A(a, b)       # equal modulo the size of the type
                    return ("LOSS", "cast to " + t)
                return A(a, b)
            return v if r[1] != "IntToInt" or v and v[0] == "LOSS" else None
        if r[0] in ("use", "repeat"):
            return self.val(r[1], env, user)
        if r[0] in ("ref", "raw"):
            return self.get(r[2], env, user)
        return None

    def val(self, op, env, user):
        if op[0] == "k" and isinstance(op[1].get("v"), int) and not isinstance(op[1].get("v"), bool):
            if op[1].get("ty") == "bool":
                return ("B", bool(op[1]["v"]))
            return ("I", op[1]["v"])
        return super().val(op, env, user)

    def assign(self, n, env, user):
        pl, r = n.data
        k = self.k(pl)
        if k is None:
            return
        for x in [x for x in env if x[0] == k[0] and x[1][:len(k[1])] == k[1]]:
            del env[x]
        if r[0] == "agg" and r[1].get("k") in ("tuple", "adt"):
            names = r[1].get("fields") if r[1]["k"] == "adt" else [str(i) for i in range(len(r[2]))]
            for f, o in zip(names, r[2]):
                v = self.val(o, env, user)
                f = () if f == "ordinal" else (f,)
                if v is not None:
                    env[(k[0], k[1] + f)] = v
            return
        v = self.rv(r, env, user)
        if v is not None:
            if r[0] == "bin" and "WithOverflow" in r[1]:
                env[(k[0], k[1] + ("0",))] = v
                env[(k[0], k[1] + ("1",))] = ("B", False)
            else:
                env[k] = v
            return
        src = r[1][1] if r[0] == "use" and r[1][0] in ("c", "m") else r[2] if r[0] == "ref" else None
        s = self.k(src) if src is not None else None
        if s is not None:
            for x in list(env):
                if x[0] == s[0] and x[1][:len(s[1])] == s[1] and len(x[1]) > len(s[1]):
                    env[(k[0], k[1] + x[1][len(s[1]):])] = env[x]

    def call(self, n, vals, env, user):
        names, info = n.data[0], n.data[3]
        f = last(names[0])
        v = vals[0] if vals else None
        x = aff(v)
        y = aff(vals[1]) if len(vals) > 1 else None
        loss = [q for q in vals if q and q[0] == "LOSS"]
        lit = lambda t: "types::lit::Lit" in t
        if f in ("index", "index_mut", "get_unchecked", "get_unchecked_mut", "get", "get_mut") and len(vals) == 2:
            self.seen += 1
            if self.spec == "table" and (loss or y is not None) and self.ok(vals[1]) is False and user != "?":
                return None, ("bad", f"indexes with {show(vals[1])} instead of {show(self.want)}")
            return None, user
        if f == "cmp" and len(vals) == 2 and x is not None and y is not None:
            d = rng(x[0] - y[0], x[1] - y[1])
            return ("O", "Less" if d[1] < 0 else "Greater" if d[0] > 0 else "Equal" if d == (0, 0) else "?"), user
        if f == "partial_cmp" and len(vals) == 2 and x is not None and y is not None:
            d = rng(x[0] - y[0], x[1] - y[1])
            return {("0",): ("O", "Less" if d[1] < 0 else "Greater" if d[0] > 0 else "Equal")}, user
        if f in ("eq", "ne", "lt", "le", "gt", "ge") and len(vals) == 2:
            r = self.compare(f.capitalize(), vals[0], vals[1])
            return (None if r is None else ("E", "both") if r == "both" else ("B", r)), user
        if f in ("from", "into", "try_from", "try_into"):
            tr = str((info.get("res") or {}).get("traitref", "")) + " " + str(info.get("ga"))
            ga = [str(g) for g in info.get("ga", [])]
            if lit(tr) and len(ga) == 2:
                dst, src = (ga[0], ga[1]) if f in ("from", "try_from") else (ga[1], ga[0])
                if lit(dst):
                    if src == "i32" and x:
                        lo, hi = rng(*x)
                        return (A(2 * x[0], 2 * x[1] + 1) if lo > 0 else A(-2 * x[0], -2 * x[1]) if hi < 0 else None), user
                    if src in ("u32", "usize") and x:
                        return A(*x), user
                    if src.startswith("(") and n.data[1][0][0] in ("c", "m"):
                        s = self.k(n.data[1][0][1])
                        if s:
                            vi, b = aff(env.get((s[0], s[1] + ("0",)))), env.get((s[0], s[1] + ("1",)))
                            if vi and b and b[0] == "B":
                                return A(2 * vi[0], 2 * vi[1] + int(b[1])), user
                    return (loss[0] if loss else None), user
                if lit(src) and x:
                    if dst == "usize" or dst == "u32":
                        return A(*x), user
                    if dst == "bool":
                        return ("B", bool(x[1] & 1)) if x[0] % 2 == 0 else None, user
                    if dst == "i32" and x[0] % 2 == 0:
                        w = arith("Shr", x, (0, 1))
                        w = aff(w)
                        return (A(*w) if x[1] & 1 else A(-w[0], -w[1])), user
                return None, user
            if len(ga) == 2 and (ga[0] in BITS or ga[0] == "bool") and (ga[1] in BITS or ga[1] == "bool"):
                dst = ga[0] if f in ("from", "try_from") else ga[1]
                r = self.rv(("cast", "IntToInt", n.data[1][0], dst, ""), env, user)
                if f.startswith("try"):
                    return ({("0",): r} if r is not None and r[0] != "LOSS" else None), user
                return r, user
            return None, user
        loc = (info.get("res") or info).get("selfadt") or ""
        if lit(loc) and x:
            if f == "vi":
                return arith("Shr", x, (0, 1)), user
            if f == "as_bool" and x[0] % 2 == 0:
                return ("B", bool(x[1] & 1)), user
            if f == "not" and x[0] % 2 == 0:
                return bits("BitXor", x, 1), user
        if loss:
            return loss[0], user
        if f in ("get", "new_unchecked", "unwrap_unchecked", "clone", "deref", "borrow", "as_ref", "copied", "cloned", "black_box", "identity"):
            if f == "unwrap_unchecked" and v is None and n.data[1][0][0] in ("c", "m") and self.k(n.data[1][0][1]):
                s = self.k(n.data[1][0][1])
                return env.get((s[0], s[1] + ("0",))), user
            return v, user
        if f == "new" and x:
            return {("0",): A(*x)} if "NonZero" in names[0] else None, user
        if f in ("unwrap", "expect") and n.data[1][0][0] in ("c", "m"):
            s = self.k(n.data[1][0][1])
            return (env.get((s[0], s[1] + ("0",))) if s else None), user
        if x is not None:
            lo, hi = rng(*x)
            if f in ("abs", "unsigned_abs", "wrapping_abs"):
                return (A(*x) if lo >= 0 else A(-x[0], -x[1]) if hi <= 0 else None), user
            if f in ("wrapping_neg", "neg"):
                return A(-x[0], -x[1]), user
            if f in ("is_positive", "is_negative"):
                c = self.compare("Gt" if f == "is_positive" else "Lt", v, ("I", 0))
                return (("E", "both") if c == "both" else ("B", c)), user
            if f == "signum":
                return (("I", 1) if lo > 0 else ("I", -1) if hi < 0 else None), user
            if f == "is_multiple_of" and y and y[0] == 0 and y[1] > 0:
                r = arith("Rem", x, y)
                return (("B", r[1] == 0) if r and r[0] == "I" else None), user
            if y is not None:
                g = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul", "saturating_add": "Add", "saturating_sub": "Sub",
                     "saturating_mul": "Mul", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor", "shl": "Shl", "shr": "Shr", "add": "Add",
                     "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "wrapping_shl": "Shl", "wrapping_shr": "Shr", "rem_euclid": "Rem",
                     "div_euclid": "Div", "unchecked_shl": "Shl", "unchecked_add": "Add", "unchecked_mul": "Mul"}.get(f)
                if g:
                    return self.rv(("bin", g, n.data[1][0], n.data[1][1]), env, user), user
                if f in ("min", "max"):
                    d = self.compare("Le", v, vals[1])
                    if d in (True, False):
                        return (v if d == (f == "min") else vals[1]), user
                    return ("LOSS", f), user
        return None, user

    def on_edge(self, n, ed, env, user):
        v = self.val(n.data[0], env, user)
        if v is None and user is None:
            return "?"
        return user

    def edge(self, v, ed):
        if v[0] == "E" or v[0] == "A" or v[0] == "O":
            return None
        return super().edge(v, ed)

    def ok(self, v):
        """True, False, or None when the value was not followed"""
        if v is None:
            return None
        if v[0] == "LOSS":
            return False
        if v[0] == "E":
            return False
        if self.want[0] == "B":
            x = aff(v)
            return None if x is None or x[0] else bool(x[1]) == self.want[1]
        if self.want[0] == "O":
            return v[1] == self.want[1] if v[0] == "O" else None
        x, y = aff(v), aff(self.want)
        return None if x is None else x == y

    def done(self, user, n, i):
        if isinstance(user, tuple) and user[0] == "bad":
            return user[1]
        if n.kind == "return" and self.spec != "table" and user != "?":
            v = self.ret(self.env_now)
            r = self.ok(v)
            self.seen += r is not None
            if r is False:
                return f"gives {show(v)} instead of {show(self.want)}"
        return None

    def ret(self, e):
        for k in (((0, 0), ()), ((0, 0), ("0",))):
            if k in e:
                return e[k]
        return None


def evaluate(F, env, spec, want):
    """(interpreter, (message, node) of a wrong result or None)"""
    I = Conv(F, spec, want)
    return I, _run(I, env)


def _run(I, env):
    F = I.F
    dq, seen = deque([(F.pstart, tuple(sorted(env.items(), key=repr)), None)]), set()
    n0 = 0
    while dq:
        s = dq.popleft()
        if s in seen:
            continue
        seen.add(s)
        n0 += 1
        if n0 > I.LIMIT:
            return None
        i, et, us = s
        n = F.nodes[F.pn[i]]
        e = dict(et)
        sw = None
        if n.kind == "assign":
            I.assign(n, e, us)
        elif n.kind in ("call", "diverge"):
            vals = [I.val(a, e, us) for a in n.data[1]]
            v, us = I.call(n, vals, e, us)
            k = I.k(n.data[2])
            if k is not None:
                for x in [x for x in e if x[0] == k[0] and x[1][:len(k[1])] == k[1]]:
                    del e[x]
                if isinstance(v, dict):
                    for f, x in v.items():
                        e[(k[0], k[1] + f)] = x
                elif v is not None:
                    e[k] = v
        elif n.kind == "switch":
            sw = I.val(n.data[0], e, us)
        I.env_now = e
        m = I.done(us, n, i)
        if m:
            return m, n
        for j, ed in F.ps[i]:
            u2 = us
            if ed is not None and n.kind == "switch":
                if sw is not None and I.edge(sw, ed) is False:
                    continue
                u2 = I.on_edge(n, ed, e, us)
            dq.append((j, tuple(sorted(e.items(), key=repr)), u2))
    return None


LIT = "types::lit::Lit"
ORD = lambda b: ("A", 2, b)
P1, P2 = (0, 1), (0, 2)


def conversions():
    """(name, signature, env and expected value for each sign)"""
    B = lambda b: ("B", bool(b))
    S = lambda b: ("A", 1, 0) if b else ("A", -1, 0)
    return [
        ("(variable, sign) to literal", f"fn((usize, bool)) -> {LIT}", lambda b: ({(P1, ("0",)): ("A", 1, 0), (P1, ("1",)): B(b)}, ORD(b))),
        ("usize to literal", f"fn(usize) -> {LIT}", lambda b: ({(P1, ()): ORD(b)}, ORD(b))),
        ("u32 to literal", f"fn(u32) -> {LIT}", lambda b: ({(P1, ()): ORD(b)}, ORD(b))),
        ("i32 to literal", f"fn(i32) -> {LIT}", lambda b: ({(P1, ()): S(b)}, ORD(b))),
        ("literal to bool", f"fn({LIT}) -> bool", lambda b: ({(P1, ()): ORD(b)}, B(b))),
        ("literal to usize", f"fn({LIT}) -> usize", lambda b: ({(P1, ()): ORD(b)}, ORD(b))),
        ("literal to i32", f"fn({LIT}) -> i32", lambda b: ({(P1, ()): ORD(b)}, S(b))),
        ("literal to i32", f"fn(&'a {LIT}) -> i32", lambda b: ({(P1, ()): ORD(b)}, S(b))),
        ("negation", "Lit.not", lambda b: ({(P1, ()): ORD(b)}, ORD(1 - b))),
        ("sign", "Lit.as_bool", lambda b: ({(P1, ()): ORD(b)}, B(b))),
        ("variable", "Lit.vi", lambda b: ({(P1, ()): ORD(b)}, ("A", 1, 0))),
    ]


@prop("P26", "abstract interpretation on an affine domain",
      "Each conversion is evaluated once per sign on values of the form a*v+b with v standing for every variable, so the result "
      "holds for all variables; bit operations and casts that lose bits of such a value are violations. A value obtained through "
      "an operation the domain does not know is reported as not decided.")
def p26(c):
    from props_prims import lifted
    lifted(c)
    here = [b for b in c.prog.bodies.values() if b.crate == "splr.lib" and b.kind != "closure"]
    n = 0
    for name, sig, case in conversions():
        if "->" in sig:
            plain = lambda t: t[t.index("fn("):].replace("&'a ", "&") if "fn(" in t else t
            bs = [b for b in here if b.name == "from" and plain(b.d.get("sig") or "") == plain(sig)]
        else:
            bs = [b for b in here if sig in b.keys]
        if not bs:
            continue
        n += 1
        for b in bs:
            F = c.flat(b)
            for s in (0, 1):
                env, want = case(s)
                I, r = evaluate(F, env, "value", want)
                w = b.where()
                m = r[0] if r else ""
                what = "positive" if s else "negative"
                c.ob("conversion", r is None, f"{w}: {name} of a {what} literal {m}", name.replace(" ", "-"), w)
    c.floor("conversion", 8, n)
    # order and equality
    for b in here:
        if b.name not in ("cmp", "partial_cmp", "eq") or not (b.keys and b.keys[0].startswith("Lit.")):
            continue
        F = c.flat(b)
        for d in (-1, 0, 1):
            for s1 in (0, 1):
                for s2 in (0, 1):
                    x, y = (2, s1), (2, 2 * d + s2)
                    o = x[1] - y[1]
                    want = ("B", o == 0) if b.name == "eq" else ("O", "Less" if o < 0 else "Greater" if o > 0 else "Equal")
                    I, r = evaluate(F, {(P1, ()): ("A",) + x, (P2, ()): ("A",) + y}, "value", want)
                    c.ob("order", r is None, f"{b.where()}: comparing {show(('A',) + x)} with {show(('A',) + y)} {r[0] if r else ''}", b.name,
                         b.where())
    # tables indexed by literals
    for b in here:
        if b.name in ("index", "index_mut") and LIT in (b.d.get("sig") or "").split("->")[0] and "Clause" not in (b.keys or [""])[0]:
            F = c.flat(b)
            for s in (0, 1):
                ok = False
                for want in (ORD(s),) + ((("A", 1, 0),) if "Eliminator" in b.keys[0] else ()):
                    I, r = evaluate(F, {(P2, ()): ORD(s)}, "table", want)
                    ok = ok or r is None
                c.ob("table", ok, f"{b.where()}: {r[0] if r else ''}", "index", b.where())
