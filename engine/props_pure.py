"""pure literals: a variable is fixed without a derivation only when one of its signs occurs nowhere (P34)"""
from registry import prop
from rules import *
from props_occur import idle

FIX = ("AssignStack.assign_at_root_level", "PropagateIF.assign_at_root_level")
NOTE = ("ClauseDB.certificate_add_assertion", "ClauseDBIF.certificate_add_assertion")

SOME = (0, 1, 2, 1000, 10 ** 6)


def side(F, t):
    """0 for the number of positive occurrences of a variable, 1 for the negative ones"""
    if t[0] == "field" and t[2] in ("0", "1"):
        b = t[1]
        while b[0] == "field" and b[2] == "0" and b[1][0] == "variant":
            b = b[1][1]
        if is_call(b, "stats") or is_call(b, "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else") and has_call(b[2][0], "stats"):
            return int(t[2])
        if b[0] == "elem" and F.nodes[b[1]].data[1] and has_call(F.term(F.nodes[b[1]].data[1][0]), "stats"):
            return int(t[2])
    if is_call(t, "len") and t[2]:
        for k, f in enumerate(("pos_occurs", "neg_occurs")):
            if has_field(t[2][0], f):
                return k
    return None


def value(F, t, env):
    """the value of an expression over the two occurrence counts, None if it cannot be told"""
    k = side(F, t)
    if k is not None:
        return env[k]
    if t[0] == "const" and isinstance(t[1], int):
        return t[1]
    if t[0] == "call" and len(t[2]) == 1 and last(t[1]) in ("clone", "deref", "from", "into", "borrow"):
        return value(F, t[2][0], env)
    if t[0] == "call" and last(t[1]) == "is_empty":
        n = value(F, ("call", "Vec.len", t[2]), env)
        return None if n is None else int(n == 0)
    if t[0] == "call" and len(t[2]) == 2 and last(t[1]) in ("min", "max", "eq", "ne", "lt", "gt", "le", "ge"):
        a, b = value(F, t[2][0], env), value(F, t[2][1], env)
        if a is None or b is None:
            return None
        return int({"min": min(a, b), "max": max(a, b), "eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b,
                    "ge": a >= b}[last(t[1])])
    if t[0] == "un" and t[1] == "Not":
        a = value(F, t[2], env)
        return None if a not in (0, 1) else 1 - a
    if t[0] in ("bin", "eq", "lt") and len(t) >= 3:
        o, x, y = (t[1], t[2], t[3]) if t[0] == "bin" else (t[0].capitalize(), t[1], t[2])
        a, b = value(F, x, env), value(F, y, env)
        if o in ("BitAnd", "BitOr") and (a in (0, 1) or b in (0, 1)):
            dom = 0 if o == "BitAnd" else 1
            if a == dom or b == dom:
                return dom
        if a is None or b is None:
            return None
        r = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "BitAnd": a & b, "BitOr": a | b,
             "BitXor": a ^ b, "Add": a + b, "Mul": a * b}.get(o.replace("WithOverflow", "").replace("Unchecked", ""))
        return None if r is None else int(r)
    if t[0] == "field" and t[2] == "0" and t[1][0] == "bin":
        return value(F, t[1], env)
    return None


def holds(F, f, env):
    t, pol = f
    if t[0] == "true":
        r = value(F, t[1], env)
        r = None if r not in (0, 1) else bool(r)
    elif t[0] in ("eq", "lt"):
        a, b = value(F, t[1], env), value(F, t[2], env)
        r = None if a is None or b is None else (a == b if t[0] == "eq" else a < b)
    else:
        return None
    return None if r is None else r == pol


def under(F, env):
    memo = {}

    def edge(i, j, e):
        if e is None or F.nodes[F.pn[i]].kind != "switch":
            return True
        if (i, e) not in memo:
            memo[(i, e)] = not any(holds(F, f, env) is False for f in F.pfacts(i, e))
        return memo[(i, e)]
    return edge


def ways(F, t):
    """[(value, defining node)] of a local given a value in several places, calls included"""
    ds = [d for d in F.defs.get(t[1], []) if d.id in F.at] if t[0] == "var" else []
    out = [(F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d), d.id) for d in ds]
    return out or [(t, None)]


def signs(F, t):
    """[(variable, sign term, negated, defining node)] of a literal made from a variable and a sign"""
    out = []
    for a, d in ways(F, t):
        s = next((x for x in subterms(a) if x and is_call(x, "from") and x[2] and x[2][0][0] == "tuple" and len(x[2][0][1]) == 2), None)
        if s is None:
            s = next((x for x in subterms(a) if x and x[0] == "tuple" and len(x[1]) == 2), None)
            s = None if s is None else ("call", "from", (s,))
        if s is not None:
            n = 0
            for x in subterms(a):
                n += bool(x and is_call(x, "not", "neg"))
            out.append((s[2][0][1][0], s[2][0][1][1], n % 2, d))
    return out


@prop("P34", "finite enumeration of guard outcomes over the flow graph, plus guarded-return rules",
      "Decides that before the search a variable is fixed without a derivation only to the sign left when the other sign occurs "
      "in no clause, and that the counts it relies on are handed out only while the occurrence lists are complete; that the "
      "lists hold every clause is P08's part.")
def p34(c):
    R = "pure"
    F = c.flat("Solver.solve")
    n = 0
    for k in c.calls(F, *FIX) + c.calls(F, *NOTE):
        if k not in F.at:
            continue
        lit = c.args(F, k)[1]
        ss = signs(F, lit)
        if not ss:
            continue
        n += 1
        st = [i for i in F.at if F.nodes[i].kind == "call" and last(F.nodes[i].data[0][0]) == "stats" and c.reaches(F, i, k)]
        lists = [x for x in F.at if F.nodes[x].kind == "call" and last(F.nodes[x].data[0][0]) in ("len", "is_empty") and
                 has_field(c.args(F, x)[0], "pos_occurs", "neg_occurs")]
        key = "sign"
        c.ob(R, bool(st or lists), f"{c.where(F, k)}: a variable is fixed without counting its occurrences", key + ":counted", c.where(F, k))
        if lists and not st:
            continue
        for s in st:
            same = any(strip(c.args(F, s)[1]) == strip(v) for v, _, _, _ in ss)
            c.ob(R, same, f"{c.where(F, k)}: the variable fixed is not the one whose occurrences are counted", key + ":which", c.where(F, k))
        for p in SOME:
            for m in SOME:
                edge = under(F, (p, m))
                path = None
                for s in st:
                    path = path or F.path_after(s, lambda i: F.pn[i] == k, lambda i: F.pn[i] in st, edge)
                if path is None:
                    continue
                c.ob(R, not (p and m), f"{c.where(F, k)}: a variable occurring with both signs is fixed", key + ":both", c.where(F, k),
                     F.show(path))
                if p and m:
                    continue
                def used(d, others):
                    q = None
                    for s in st:
                        q = q or F.path_after(s, lambda i: F.pn[i] == d, lambda i: F.pn[i] in st, edge)
                    stop = {x for _, x in others} | set(st)
                    return q is not None and F.path_after(d, lambda i: F.pn[i] == k, lambda i: F.pn[i] in stop, edge) is not None
                for v, sg, neg, d0 in ss:
                    if len(ss) > 1 and d0 is not None and not used(d0, [(0, x[3]) for x in ss]):
                        continue
                    at = ways(F, sg)
                    for a, d in at:
                        if d is not None and len(at) > 1 and not used(d, at):
                            continue
                        b = value(F, a, (p, m))
                        if b is None or not (p or m):
                            continue
                        c.ob(R, (b ^ neg) == int(m == 0), f"{c.where(F, k)}: a variable occurring only " +
                             ("positively is fixed to false" if p else "negatively is fixed to true"), key + ":sign", c.where(F, k), F.show(path))
    c.floor(R, 1, n)
    counts(c)


def counts(c):
    """the counts: given out only for complete lists, the positive one first"""
    R = "counts"
    F = c.flat("Eliminator.stats")
    running = lambda f: idle((f[0], not f[1]))
    full = lambda f: f[0][0] == "true" and not f[1] and has_field(f[0][1], "aborted")
    made = []
    for n in F.nodes:
        if n.kind != "assign" or n.id not in F.at or n.data[1][0] != "agg" or n.data[1][1].get("k") != "tuple" or len(n.data[1][2]) != 2:
            continue
        t = F.rv_term(n.data[1], 0, (), n)
        if not any(is_call(F.term(op), "len") or has_field(F.term(op), "pos_occurs", "neg_occurs") for op in n.data[1][2]):
            continue
        made.append(n.id)
        for k, (x, f) in enumerate(zip(t[1], ("pos_occurs", "neg_occurs"))):
            if has_field(x, "pos_occurs", "neg_occurs"):
                c.ob(R, has_field(x, f) and not has(x, lambda s: s[0] == "bin"), f"{c.where(F, n.id)}: the number of "
                     f"{'negative' if k else 'positive'} occurrences is {tstr(x)[:60]}", f"stats:{f}", c.where(F, n.id))
    c.floor(R, 1, len(made))
    for k in made:
        fr = F.nodes[k].frame
        h = F.nodes[F.frame_hof[fr]] if fr in F.frame_hof else None
        given = c.implied(F, h.data[1][0]) if h is not None and last(h.data[0][0]) in ("then", "then_some") else set()
        for fact, what, key in ((full, "the occurrences of the variable being followed completely", "stats:complete"),
                                (running, "the occurrence lists being in use", "stats:running")):
            if not any(fact(f) for f in given or ()):
                c.only_if(R, F, [k], fact, what, key)
