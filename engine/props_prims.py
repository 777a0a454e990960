"""small operations the larger steps rest on: marks, list removal, iteration state"""
from rules import *
from registry import prop
from props_model import norm, lin, offset, call_node
from props_assign import alternatives

BITS = {"insert": lambda a, b: a | b, "remove": lambda a, b: a & ~b, "toggle": lambda a, b: a ^ b,
        "bitor_assign": lambda a, b: a | b, "bitand_assign": lambda a, b: a & b, "bitxor_assign": lambda a, b: a ^ b,
        "sub_assign": lambda a, b: a & ~b, "union": lambda a, b: a | b, "intersection": lambda a, b: a & b,
        "difference": lambda a, b: a & ~b, "symmetric_difference": lambda a, b: a ^ b, "bitor": lambda a, b: a | b,
        "bitand": lambda a, b: a & b, "bitxor": lambda a, b: a ^ b, "sub": lambda a, b: a & ~b}
SAME = ("bits", "from_bits_truncate", "from_bits_retain", "clone", "copied", "into", "from")


def bit(t, cur, arg):
    """the value of one bit of a set of marks, given that bit of the marks present and of the argument; None: not known"""
    if t[0] == "field" and t[2] == "flags":
        return cur
    if t[0] == "arg":
        return arg
    if t[0] == "call":
        nm = last(t[1])
        if nm in SAME and t[2]:
            return bit(t[2][0], cur, arg)
        if nm == "empty":
            return 0
        if nm == "all":
            return 1
        if nm in ("complement", "not"):
            v = bit(t[2][0], cur, arg)
            return None if v is None else 1 - v
        if nm in BITS and len(t[2]) == 2:
            x, y = bit(t[2][0], cur, arg), bit(t[2][1], cur, arg)
            return None if x is None or y is None else BITS[nm](x, y) & 1
    if t[0] == "un" and t[1] == "Not":
        v = bit(t[2], cur, arg)
        return None if v is None else 1 - v
    if t[0] == "bin" and t[1] in ("BitOr", "BitAnd", "BitXor"):
        x, y = bit(t[2], cur, arg), bit(t[3], cur, arg)
        return None if x is None or y is None else BITS[t[1].lower()](x, y) & 1
    if constval(t) == 0:
        return 0
    return None


def test(t, cur, arg):
    """(form, value) of a test over all bits: form "all" or "any" """
    if t[0] == "un" and t[1] == "Not":
        r = test(t[2], cur, arg)
        return None if r is None else ("any" if r[0] == "all" else "all", 1 - r[1])
    x = y = None
    nm = last(t[1]) if t[0] == "call" else t[1] if t[0] == "bin" else t[0]
    ops = t[2] if t[0] == "call" else t[2:] if t[0] == "bin" else t[1:]
    if nm == "not" and len(ops) == 1:
        r = test(ops[0], cur, arg)
        return None if r is None else ("any" if r[0] == "all" else "all", 1 - r[1])
    if len(ops) == 2:
        x, y = bit(ops[0], cur, arg), bit(ops[1], cur, arg)
        if x is None or y is None:
            return None
        return {"contains": ("all", x | (1 - y)), "intersects": ("any", x & y), "eq": ("all", int(x == y)), "Eq": ("all", int(x == y)),
                "ne": ("any", int(x != y)), "Ne": ("any", int(x != y))}.get(nm)
    if len(ops) == 1 and nm == "is_empty":
        x = bit(ops[0], cur, arg)
        return None if x is None else ("all", 1 - x)
    return None


def flags(c, owner, R="flags"):
    """asking about, setting and clearing one mark concerns that mark alone"""
    n = 0
    want = {"turn_on": lambda a, b: a | b, "turn_off": lambda a, b: a & ~b & 1}
    for fn in ("turn_on", "turn_off", "set"):
        F = c.flat(f"{owner}.{fn}")
        ch = []
        own = []
        for x in F.nodes:
            if x.id not in F.at:
                continue
            if x.kind == "call" and x.data[1] and x.data[0][0].split("::")[-1] in [f"{owner}.{o}" for o in ("turn_on", "turn_off", "set")]:
                a = c.args(F, x.id)
                o = last(x.data[0][0])
                own.append(x.id)
                b = constval(a[2]) if len(a) > 2 else o == "turn_on"
                if fn in want and isinstance(b, (int, bool)):
                    c.ob(R, bool(b) == (fn == "turn_on"), f"{c.where(F, x.id)}: {owner}.{fn} does the contrary", f"{owner}.{fn}:own",
                         c.where(F, x.id))
                continue
            if x.kind == "call" and x.data[1] and last(x.data[0][0]) in set(BITS) | {"set"} and has_field(c.args(F, x.id)[0], "flags"):
                a = c.args(F, x.id)
                if last(x.data[0][0]) in ("insert", "remove", "toggle", "set") or last(x.data[0][0]).endswith("_assign"):
                    ch.append((x.id, last(x.data[0][0]), a))
            elif x.kind == "assign" and x.data[0][1]:
                pl = F.place_term(x.data[0])
                if pl[0] == "field" and pl[2] == "flags":
                    ch.append((x.id, "=", [c.wval(F, x.id)]))
        n += len(ch) + len(own)
        c.always(R, F, [k for k, _, _ in ch] + own, "changing the marks", f"{owner}.{fn}:changes") if fn != "set" else None
        for k, op, a in ch:
            def after(cur, arg):
                if op == "=":
                    return bit(a[0], cur, arg)
                v = bit(a[1], cur, arg)
                return None if v is None or op == "set" else BITS[op](cur, v) & 1
            if op == "set":
                b = a[2] if len(a) > 2 else None
                ok = b is None or (b[0] == "arg" if fn == "set" else constval(b) in (None, int(fn == "turn_on"), fn == "turn_on"))
                c.ob(R, ok and bit(a[1], 0, 1) in (1, None), f"{c.where(F, k)}: sets {tstr(a[1])[:40]} to {tstr(b)[:30] if b else ''}",
                     f"{owner}.{fn}:set", c.where(F, k))
                continue
            ws = [want[fn]] if fn in want else []
            if fn == "set":
                fb = [f for f in F.facts_at(k) if f[0][0] == "true" and f[0][1][0] == "arg"]
                ws = [want["turn_on" if f[1] else "turn_off"] for f in fb]
            for w in ws:
                for cur in (0, 1):
                    for arg in (0, 1):
                        v = after(cur, arg)
                        c.ob(R, v is None or v == w(cur, arg) & 1, f"{c.where(F, k)}: {owner}.{fn} makes a mark that is {cur} "
                             f"{'asked for' if arg else 'not asked for'} become {v}", f"{owner}.{fn}:{cur}{arg}", c.where(F, k))
    F = c.flat(f"{owner}.is")
    for t, d in alternatives(F, F.term(("c", ((0, 0), ())))):
        rs = {(cur, arg): test(t, cur, arg) for cur in (0, 1) for arg in (0, 1)}
        if any(r is None for r in rs.values()):
            continue
        n += 1
        if rs[0, 0][0] == "all":
            ok = rs[0, 0][1] and rs[1, 0][1] and rs[1, 1][1] and not rs[0, 1][1]
        else:
            ok = not rs[0, 0][1] and not rs[1, 0][1] and rs[1, 1][1] and not rs[0, 1][1]
        c.ob(R, bool(ok), f"{F.root.where()}: {tstr(t)[:60]} is not whether the mark is set", f"{owner}.is", F.root.where())
    c.floor(R, 2, n)
    # no two marks share a bit
    ty = {"Var": "FlagVar", "Clause": "FlagClause"}[owner]
    vals = {}

    def walk(x):
        if isinstance(x, dict):
            if str(x.get("path", "")).split("::")[-2:-1] == [ty] and isinstance(x.get("raw"), int):
                vals[x["path"].split("::")[-1]] = x["raw"]
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
    for b in c.prog.bodies.values():
        if b.crate == "splr.lib":
            walk(b.blocks)
    names = sorted(vals)
    for i, a in enumerate(names):
        c.ob(R, vals[a] != 0, f"{ty}::{a} is no bit at all", f"{ty}.{a}:zero", "src/types/flags.rs")
        for b in names[i + 1:]:
            c.ob(R, vals[a] & vals[b] == 0, f"{ty}::{a} and {ty}::{b} share a bit", f"{ty}.{a}:{b}", "src/types/flags.rs")
    c.floor(R, 2, len(names))


def whole_literal(c, R="pairs"):
    """an entry of the list of pairs is found by its literal"""
    F = c.flat("BinaryLinkDB.remove")
    n = 0
    for k in c.calls(F, "Vec.delete_unstable", "Vec.retain", "Iterator.position", "Iter.position"):
        for a in c.args(F, k)[1:]:
            if a[0] != "closure":
                continue
            n += 1
            if last(F.nodes[k].data[0][0]) == "retain":
                continue
            ok = c.closure_implies(a[1], lambda f: f[1] and f[0][0] == "eq" and not has_call(f[0], "vi"))
            c.ob(R, ok, f"{c.where(F, k)}: removes an entry that need not be that of the literal", "remove:literal", c.where(F, k))


def watch_steps(c, R="iteration"):
    """the state of an iteration over a watch list moves by one entry at a time"""
    for fn, fld, d in (("restore_entry", "index", 1), ("detach_entry", "end_at", -1)):
        F = c.flat("WatchCacheIterator." + fn)
        w = c.writes(F, fld)
        c.floor(R, 1, len(w))
        for k in w:
            pl = F.place_term(F.nodes[k].data[0])
            o = offset(c.wval(F, k), pl)
            c.ob(R, o == d, f"{c.where(F, k)}: {fld} becomes {tstr(c.wval(F, k))[:50]}", fn, c.where(F, k))


def lifted(c, R="lifted"):
    """exactly the clause numbers made from literals are recognised as such"""
    F = c.flat("ClauseId.is_lifted_lit")
    t = F.term(("c", ((0, 0), ())))

    def ev(t, x):
        v = constval(t)
        if isinstance(v, (int, bool)) and t[0] != "field":
            return v
        if t[0] == "field" and t[2] == "ordinal" or t[0] == "call" and last(t[1]) in ("get", "from", "into", "clone") and t[2] and \
                has_field(t[2][0], "ordinal"):
            return x
        if t[0] == "arg":
            return x
        if t[0] == "cast":
            return ev(t[-1], x)
        if t[0] == "un" and t[1] == "Not":
            v = ev(t[2], x)
            return (not v) if isinstance(v, bool) else None
        if t[0] == "call" and last(t[1]) in ("ne", "eq", "lt", "le", "gt", "ge", "bitand", "shr") and len(t[2]) == 2:
            t = ("bin", {"ne": "Ne", "eq": "Eq", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "bitand": "BitAnd", "shr": "Shr"}[last(t[1])],
                 t[2][0], t[2][1])
        if t[0] == "call" and last(t[1]) == "leading_zeros":
            v = ev(t[2][0], x)
            return None if v is None else 32 - int(v).bit_length()
        if t[0] == "bin":
            a, b = ev(t[2], x), ev(t[3], x)
            if a is None or b is None:
                return None
            return {"Ne": lambda: a != b, "Eq": lambda: a == b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b,
                    "Ge": lambda: a >= b, "BitAnd": lambda: a & b, "Shr": lambda: a >> b}.get(t[1], lambda: None)()
        return None
    n = 0
    for x in (1, 2, 3, 4, 1000, 1001, 0x3FFFFFFF, 0x40000000, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000002, 0x80000003, 0x80000004, 0x80001000,
              0xC0000001, 0xFFFFFFFE, 0xFFFFFFFF):
        v = ev(t, x)
        if v is None:
            break
        n += 1
        c.ob(R, bool(v) == (x >= 0x80000000), f"{F.root.where()}: the number {x:#x} is {'' if v else 'not '}taken for a literal",
             "recognised", F.root.where())
