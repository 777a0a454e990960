"""Program model over the MIR JSON written by /verif/driver (mirdump).

Prog      all bodies of the analysed crates, call resolution, type tables
Flat      control-flow graph of one root function with helper functions and
          closures inlined, refined by a property-simulation valuation
          (known variants / constants of locals), plus the path queries
          (must-precede, must-follow, facts that hold) the rules use.
"""
import json, os, re, sys
from collections import defaultdict, deque

sys.setrecursionlimit(20000)


def short(p):
    """last identifier of a path, generics removed"""
    p = re.sub(r"<.*", "", p)
    return p.split("::")[-1].strip("&' ")


class Body:
    __slots__ = ("d", "uid", "key", "keys", "name", "file", "line", "blocks", "locals", "argc",
                 "lname", "kind", "public", "promoted", "crate", "ndefs", "parent", "selfadt",
                 "trait", "capt")

    def __init__(self, d, crate):
        self.d = d
        self.crate = crate
        self.uid = d["uid"]
        self.name = d.get("name", "")
        self.file = d["file"]
        self.line = d["line"]
        self.kind = d["kind"]
        self.public = d.get("public", False)
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.promoted = d.get("promoted", [])
        self.parent = d.get("parent")
        self.selfadt = short(d.get("selfadt", "")) if d.get("selfadt") else None
        self.trait = short(d["trait"]) if d.get("trait") else None
        self.keys = callee_keys(d)
        self.key = self.keys[0]
        self.lname = {}
        self.capt = {}
        for n, pl in d["names"]:
            if not pl[1]:
                self.lname.setdefault(pl[0], n)
            elif pl[0] == 1 and self.kind == "closure":
                for e in pl[1]:
                    if e[0] == "f":
                        self.capt[e[1]] = n
        self.ndefs = None

    def where(self, line=None):
        return f"{self.file}:{line or self.line}"


def callee_keys(d):
    """canonical names of a function: most specific first"""
    ks = []
    name = d.get("name", "")
    if d.get("kind") == "closure":
        return ["{closure}"]
    sa = d.get("selfadt")
    tr = d.get("trait")
    if sa:
        ks.append(short(sa) + "." + name)
    elif d.get("selfty") and not d.get("intrait"):
        ks.append(short(d["selfty"]) + "." + name)
    if tr:
        ks.append(short(tr) + "." + name)
    ks.append(name)
    return ks


class Prog:
    def __init__(self, outdir):
        self.bodies = {}
        self.crates = {}
        for f in sorted(os.listdir(outdir)):
            if not f.endswith(".json"):
                continue
            d = json.load(open(os.path.join(outdir, f)))
            cid = f[:-5]
            self.crates[cid] = d
            for b in d["bodies"]:
                bb = Body(b, cid)
                u = b["uid"] if d["kind"] == "lib" else cid + "!" + b["uid"]
                bb.uid = u
                if d["kind"] != "lib" and bb.parent:
                    bb.parent = cid + "!" + bb.parent
                self.bodies[u] = bb
        self.lib = self.crates["splr.lib"]
        # trait method uid -> impl bodies
        self.traitimpl = defaultdict(list)
        self.traitmeth = {}
        for cid, d in self.crates.items():
            pre = "" if d["kind"] == "lib" else cid + "!"
            tm = {}
            for t in d["traits"]:
                for (n, u, dfl) in t["methods"]:
                    tm[(t["path"], n)] = u
                    self.traitmeth[u] = (t["path"], n)
            for i in d["impls"]:
                for (n, u) in i["methods"]:
                    if (i["trait"], n) in tm:
                        self.traitimpl[tm[(i["trait"], n)]].append(pre + u)
        self.bykey = defaultdict(list)
        for b in self.bodies.values():
            for k in b.keys:
                self.bykey[k].append(b)
        self.closures = defaultdict(list)
        for b in self.bodies.values():
            if b.kind == "closure":
                self.closures[b.parent].append(b)
        self.adts = {}
        for cid, d in self.crates.items():
            for a in d["adts"]:
                self.adts.setdefault(short(a["path"]), a)

    def fn(self, key, crate="splr.lib"):
        r = [b for b in self.bykey.get(key, []) if b.crate == crate]
        return r[0] if len(r) == 1 else None

    def fns(self, key, crate=None):
        return [b for b in self.bykey.get(key, []) if crate is None or b.crate == crate]

    def resolve(self, fn, crate="splr.lib"):
        """body targeted by a callee descriptor, if it is in the analysed crates"""
        r = fn.get("res")
        if r:
            if r["local"]:
                return self._b(r["uid"], crate)
            return None
        if not fn["local"]:
            return None
        u = fn["uid"]
        if u in self.traitmeth:
            im = self.traitimpl.get(u, [])
            if len(im) == 1:
                return self.bodies.get(im[0])
            return self._b(u, crate)  # default method, if any
        return self._b(u, crate)

    def _b(self, u, crate):
        if crate != "splr.lib":
            b = self.bodies.get(crate + "!" + u)
            if b is not None:
                return b
        return self.bodies.get(u)

    def callkeys(self, fn, crate="splr.lib"):
        ks = []
        b = self.resolve(fn, crate)
        if b is not None:
            ks += b.keys
        if fn.get("res"):
            for k in callee_keys(fn["res"]):
                if k not in ks:
                    ks.append(k)
        for k in callee_keys(fn):
            if k not in ks:
                ks.append(k)
        return ks


# ---------------------------------------------------------------- iteration
def body_calls(b):
    """yield (block index, terminator) for every call of a body"""
    for i, blk in enumerate(b.blocks):
        if blk.get("cleanup"):
            continue
        t = blk["t"]
        if t[0] == "call":
            yield i, t


def op_fn(op):
    if op[0] == "k" and "fn" in op[1]:
        return op[1]["fn"]
    return None


# ---------------------------------------------------------------- flat graph
class Node:
    __slots__ = ("id", "kind", "frame", "line", "data", "succ", "body")

    def __init__(self, id, kind, frame, line, data, body):
        self.id = id
        self.kind = kind
        self.frame = frame
        self.line = line
        self.data = data
        self.succ = []
        self.body = body


HOF_ONCE = {"map", "map_err", "map_or", "map_or_else", "and_then", "or_else", "unwrap_or_else",
            "ok_or_else", "is_some_and", "is_none_or", "is_ok_and", "then", "get_or_insert_with",
            "or_insert_with", "and_modify", "inspect", "inspect_err", "unwrap_or_default"}

# library functions that stop at the first element whose answer is the first of the two values
HOF_STOP = {"any": (("i", 1), ("i", 0)), "all": (("i", 0), ("i", 1)), "find": (("i", 1), ("i", 0)),
            "position": (("i", 1), ("i", 0)), "try_for_each": (None,), "try_fold": (None,)}

MAXNODES = 60000


class Flat:
    """root: Body; inline: f(Body)->bool decides which local callees are expanded."""

    def __init__(self, prog, root, inline=None, closures=True):
        self.prog = prog
        self.root = root
        self.inline = inline or (lambda b: False)
        self.do_closures = closures
        self.nodes = []
        self.nframes = 0
        self.frame_body = {}
        self.frame_parent = {}
        self.frame_hof = {}     # frame of a closure -> call of the library function it is handed to
        self.inlined = set()
        self.rets = []
        self.hof = {}       # closure? / call node of a short-circuiting library function -> (name, result local, its type)
        self.closdef = {}   # (frame, local) -> (uid, ops, frame) for closure aggregates
        entry, exits = self._build(root, [], None)
        self.entry = entry
        for x in exits:
            n = self._node("return", 0, root.line, None, root)
            x.succ.append((n.id, None))
            self.rets.append(n.id)
        self._defs()
        self._product()

    # -- construction
    def _node(self, kind, frame, line, data, body):
        n = Node(len(self.nodes), kind, frame, line, data, body)
        self.nodes.append(n)
        if len(self.nodes) > MAXNODES:
            raise RuntimeError("flat graph too large: " + self.root.uid)
        return n

    def _rn(self, pl, fr):
        """rename place: (frame, local), proj with index locals renamed"""
        proj = []
        for e in pl[1]:
            if e[0] == "i":
                proj.append(("i", (fr, e[1])))
            else:
                proj.append(tuple(e))
        return ((fr, pl[0]), tuple(proj))

    def _ro(self, op, fr):
        if op[0] == "k":
            return ("k", op[1], fr)
        return (op[0], self._rn(op[1], fr))

    def _rr(self, r, fr):
        k = r[0]
        if k == "use":
            return ("use", self._ro(r[1], fr))
        if k == "ref" or k == "raw":
            return (k, r[1], self._rn(r[2], fr))
        if k == "cast":
            return ("cast", r[1], self._ro(r[2], fr), r[3], r[4])
        if k == "bin":
            return ("bin", r[1], self._ro(r[2], fr), self._ro(r[3], fr))
        if k == "un":
            return ("un", r[1], self._ro(r[2], fr))
        if k == "discr":
            return ("discr", self._rn(r[1], fr), r[2], r[3])
        if k == "agg":
            return ("agg", r[1], tuple(self._ro(o, fr) for o in r[2]))
        if k == "repeat":
            return ("repeat", self._ro(r[1], fr), r[2])
        return (k,)

    def _build(self, body, argops, parent, stack=()):
        fr = self.nframes
        self.nframes += 1
        self.frame_body[fr] = body
        self.frame_parent[fr] = parent
        stack = stack + (body.uid,)
        first = {}
        # parameter bindings
        entry = self._node("nop", fr, body.line, ("enter", body.key), body)
        cur = entry
        for i, a in enumerate(argops):
            n = self._node("assign", fr, body.line, (((fr, i + 1), ()), ("use", a)), body)
            cur.succ.append((n.id, None))
            cur = n
        exits = []
        # create block heads lazily
        heads = {}
        order = []

        def head(bi):
            if bi not in heads:
                heads[bi] = self._node("nop", fr, body.line, ("bb", bi), body)
                order.append(bi)
            return heads[bi]

        cur.succ.append((head(0).id, None))
        qi = 0
        while qi < len(order):
            bi = order[qi]
            qi += 1
            blk = body.blocks[bi]
            c = heads[bi]
            for s in blk["s"]:
                if s[0] == "=":
                    pl = self._rn(s[2], fr)
                    rv = self._rr(s[3], fr)
                    n = self._node("assign", fr, s[1], (pl, rv), body)
                    if rv[0] == "agg" and rv[1].get("k") == "closure" and not pl[1]:
                        self.closdef[pl[0]] = (rv[1]["uid"], rv[2], fr)
                elif s[0] == "setd":
                    n = self._node("setd", fr, s[1], (self._rn(s[2], fr), s[3]), body)
                else:
                    continue
                c.succ.append((n.id, None))
                c = n
            t = blk["t"]
            k = t[0]
            if k == "goto":
                c.succ.append((head(t[2]).id, None))
            elif k == "switch":
                op = self._ro(t[2], fr)
                n = self._node("switch", fr, t[1], (op, t[5]), body)
                c.succ.append((n.id, None))
                if op[0] == "k" and "v" in op[1]:
                    v = op[1]["v"]
                    tgt = next((b for (vv, b) in t[3] if vv == v), t[4])
                    n.succ.append((head(tgt).id, None))
                else:
                    vals = [v for v, _ in t[3]]
                    for v, b in t[3]:
                        n.succ.append((head(b).id, ("eq", v)))
                    if body.blocks[t[4]]["t"][0] != "unreachable" or body.blocks[t[4]]["s"]:
                        n.succ.append((head(t[4]).id, ("ne", tuple(vals))))
            elif k == "return":
                exits.append(c)
            elif k == "unreachable" or k == "otherterm":
                pass
            elif k == "drop":
                n = self._node("drop", fr, t[1], (self._rn(t[2], fr), t[4]), body)
                c.succ.append((n.id, None))
                n.succ.append((head(t[3]).id, None))
            elif k == "assert":
                n = self._node("assert", fr, t[1], (self._ro(t[2], fr), t[3], t[4]), body)
                c.succ.append((n.id, None))
                n.succ.append((head(t[5]).id, None))
            elif k == "call":
                self._call(body, fr, c, t, head, stack)
            else:
                raise RuntimeError("unknown terminator " + k)
        return entry, exits

    def _call(self, body, fr, c, t, head, stack):
        fn = op_fn(t[2])
        args = [self._ro(a, fr) for a in t[3]]
        dest = self._rn(t[4], fr)
        tgt = t[5]
        keys = self.prog.callkeys(fn, body.crate) if fn else ["{indirect}"]
        callee = self.prog.resolve(fn, body.crate) if fn else None
        line = t[1]
        if callee is not None and callee.uid not in stack and tgt >= 0 and callee.kind != "closure" \
                and self.inline(callee):
            self.inlined.add(callee.uid)
            e, xs = self._build(callee, args, (fr, line), stack)
            c.succ.append((e.id, None))
            self._join(xs, dest, head(tgt), fr, line, body)
            return
        # a local closure called directly: Fn*::call*(&closure, (args,))
        if fn and short(fn.get("trait", "")) in ("Fn", "FnMut", "FnOnce") and args:
            cd = self._closure_of(args[0])
            if cd is not None and tgt >= 0:
                cb, cops, cfr = cd
                if cb.uid not in stack:
                    e, xs = self._build(cb, [args[0], ("tup", args[1])], (fr, line), stack)
                    # parameters of the closure come packed in a tuple
                    self._fix_tuple(e, cb, args[1])
                    c.succ.append((e.id, None))
                    self._join(xs, dest, head(tgt), fr, line, body)
                    return
        n = self._node("call", fr, line, (keys, args, dest, fn, t[6] if len(t) > 6 else ""), body)
        # closures handed to a library function: executed zero or more times before it returns
        pre = c
        if self.do_closures and tgt >= 0 and (callee is None or True):
            for ai, a in enumerate(args):
                cd = self._closure_of(a)
                if cd is None:
                    continue
                cb, cops, cfr = cd
                if cb.uid in stack:
                    continue
                stop = keys[-1] if keys[-1] in HOF_STOP and "{closure}" not in keys else None
                if stop:
                    kill = self._node("setd", fr, line, None, body)
                    pre.succ.append((kill.id, None))
                    pre = kill
                ch = self._node("nop", fr, line, ("closure?", cb.uid), body)
                pre.succ.append((ch.id, None))
                params = [a]
                for pi in range(1, cb.argc):
                    params.append(("elem", (n.id, ai, pi)))
                e, xs = self._build(cb, params, (fr, line), stack)
                self.frame_hof[e.frame] = n.id
                ch.succ.append((e.id, None))
                if stop:
                    kill.data = (((e.frame, 0), ()), None, ("v", "never", ()))
                    self.hof[ch.id] = self.hof[n.id] = (stop, (e.frame, 0), cb.locals[0])
                after = self._node("nop", fr, line, ("closure.", cb.uid), body)
                ch.succ.append((after.id, None))
                for x in xs:
                    x.succ.append((after.id if keys[-1] in HOF_ONCE else ch.id, None))
                pre = after
        pre.succ.append((n.id, None))
        if tgt >= 0:
            n.succ.append((head(tgt).id, None))
        else:
            n.kind = "diverge"

    def _join(self, xs, dest, h, fr, line, body):
        for x in xs:
            # return place of the inlined frame
            sub = x.frame
            # find the frame whose body owns x (x may be a nop of the same frame)
            n = self._node("assign", fr, line, (dest, ("use", ("m", ((sub, 0), ())))), body)
            x.succ.append((n.id, None))
            n.succ.append((h.id, None))

    def _fix_tuple(self, entry, cb, tupop):
        # rebind params 2.. to tuple fields
        nid = entry.id
        cur = entry
        seen = 0
        while True:
            nx = [s for s, _ in cur.succ]
            if len(nx) != 1:
                break
            n = self.nodes[nx[0]]
            if n.kind == "assign" and n.frame == entry.frame and not n.data[0][1] \
                    and 1 <= n.data[0][0][1] <= cb.argc and isinstance(n.data[1][1], tuple) \
                    and n.data[1][1][0] == "tup":
                if tupop[0] == "k":
                    n.data = (n.data[0], ("use", tupop))
                else:
                    pl = tupop[1]
                    n.data = (n.data[0], ("use", ("c", (pl[0], pl[1] + (("f", "0", "tuple"),)))))
                    last = n
                    for extra in range(1, cb.argc - 1):
                        m = self._node("assign", n.frame, n.line,
                                       (((entry.frame, 2 + extra), ()),
                                        ("use", ("c", (pl[0], pl[1] + (("f", str(extra), "tuple"),))))),
                                       n.body)
                        m.succ = last.succ
                        last.succ = [(m.id, None)]
                        last = m
                return
            cur = n
            seen += 1
            if seen > 20:
                break

    def _closure_of(self, op, depth=0):
        if op[0] not in ("c", "m") or depth > 6:
            if op[0] == "k" and "closure" in op[1]:
                b = self._cb(op[1]["closure"], op[2])
                return (b, (), op[2]) if b else None
            return None
        loc, proj = op[1]
        if any(e[0] not in ("*",) for e in proj):
            return None
        if loc in self.closdef:
            uid, ops, fr = self.closdef[loc]
            b = self._cb(uid, fr)
            return (b, ops, fr) if b else None
        # follow a single definition
        d = [n for n in self.nodes if n.kind == "assign" and n.data[0] == (loc, ())]
        if len(d) == 1:
            rv = d[0].data[1]
            if rv[0] == "use":
                return self._closure_of(rv[1], depth + 1)
            if rv[0] == "ref":
                return self._closure_of(("c", rv[2]), depth + 1)
        return None

    def _cb(self, uid, fr):
        crate = self.frame_body[fr].crate
        return self.prog._b(uid, crate)

    # -- definitions
    def _defs(self):
        self.defs = defaultdict(list)
        for n in self.nodes:
            if n.kind == "assign" and not n.data[0][1]:
                self.defs[n.data[0][0]].append(n)
            elif n.kind in ("call", "diverge") and not n.data[2][1]:
                self.defs[n.data[2][0]].append(n)
        self.preds = defaultdict(list)
        for n in self.nodes:
            for s, f in n.succ:
                self.preds[s].append(n.id)

    # -- product with valuations (property simulation)
    def _product(self):
        live = self._liveness()
        P = {}
        self.pn = []        # product node -> flat node id
        self.ps = []        # successors: list of (product id, edge)
        self.pp = []
        self.pval = []

        def get(nid, val):
            lv = live[nid]
            val = tuple(sorted((k, v) for k, v in val.items() if k in lv))
            key = (nid, val)
            if key in P:
                return P[key], False
            i = len(self.pn)
            P[key] = i
            self.pn.append(nid)
            self.ps.append([])
            self.pp.append([])
            self.pval.append(dict(val))
            return i, True

        start, _ = get(self.entry.id, {})
        self.pstart = start
        work = [start]
        per = defaultdict(int)
        while work:
            i = work.pop()
            nid = self.pn[i]
            n = self.nodes[nid]
            val = dict(self.pval[i])
            outs = self._step(n, val)
            for (t, edge, v2) in outs:
                if per[t] > 40:          # widen: too many valuations at this node; results on their way to a `?` last longer
                    v2 = {k: v for k, v in v2.items() if k[1] not in self.frame_body[k[0]].lname} \
                        if per[t] <= 100 else {}
                j, new = get(t, v2)
                if new:
                    per[t] += 1
                    work.append(j)
                self.ps[i].append((j, edge))
                self.pp[j].append(i)
            if len(self.pn) > 400000:
                raise RuntimeError("product too large: " + self.root.uid)
        self.at = defaultdict(list)
        for i, nid in enumerate(self.pn):
            self.at[nid].append(i)
        self._tc = {}

    def stopped(self, i):
        """a product node at the head of a library function's closure from which the function asks for no further element"""
        n = self.nodes[self.pn[i]]
        return n.id in self.hof and n.kind == "nop" and all(self.pn[j] != n.succ[0][0] for j, _ in self.ps[i])

    def hofs_of(self, nid):
        """the `closure?` nodes whose closure body starts with the frame of a node"""
        fr = self.nodes[nid].frame
        return {n.id for n in self.nodes if n.kind == "nop" and isinstance(n.data, tuple) and n.data[0] == "closure?" and
                n.succ and self.nodes[n.succ[0][0]].frame == fr}

    def _uses(self, n):
        out = set()

        def pl(p):
            out.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    out.add(e[1])

        def op(o):
            if o[0] in ("c", "m"):
                pl(o[1])

        if n.kind == "assign":
            p, r = n.data
            if p[1]:
                pl(p)
            k = r[0]
            if k in ("use", "repeat"):
                op(r[1])
            elif k in ("ref", "raw"):
                pl(r[2])
            elif k == "cast" or k == "un":
                op(r[2])
            elif k == "bin":
                op(r[2])
                op(r[3])
            elif k == "discr":
                pl(r[1])
            elif k == "agg":
                for o in r[2]:
                    op(o)
        elif n.kind in ("call", "diverge"):
            for o in n.data[1]:
                op(o)
            if n.data[2][1]:
                pl(n.data[2])
        elif n.kind == "switch":
            op(n.data[0])
        elif n.kind == "assert":
            op(n.data[0])
        elif n.kind == "return":
            out.add((0, 0))
        if n.id in self.hof:
            out.add(self.hof[n.id][1])
        return out

    def _liveness(self):
        use = [self._uses(n) for n in self.nodes]
        dfn = []
        for n in self.nodes:
            d = set()
            if n.kind == "assign" and not n.data[0][1]:
                d.add(n.data[0][0])
            elif n.kind in ("call",) and not n.data[2][1]:
                d.add(n.data[2][0])
            dfn.append(d)
        # references keep their referent alive: conservative closure
        refd = defaultdict(set)
        for n in self.nodes:
            if n.kind == "assign" and n.data[1][0] in ("ref", "raw") and not n.data[0][1]:
                refd[n.data[0][0]].add(n.data[1][2][0])
        live = [set() for _ in self.nodes]
        work = deque(range(len(self.nodes)))
        inq = [True] * len(self.nodes)
        while work:
            i = work.pop()
            inq[i] = False
            n = self.nodes[i]
            out = set()
            for s, _ in n.succ:
                out |= live[s]
            new = (out - dfn[i]) | use[i]
            if new != live[i]:
                live[i] = new
                for p in self.preds[i]:
                    if not inq[p]:
                        inq[p] = True
                        work.append(p)
        res = []
        for s in live:
            t = set(s)
            stack = list(s)
            while stack:
                x = stack.pop()
                for y in refd.get(x, ()):
                    if y not in t:
                        t.add(y)
                        stack.append(y)
            res.append(t)
        return res

    # abstract values: ("i", n) | ("v", variant, ((field, absval),...)) | ("r", place)
    def _aval_place(self, p, val, depth=0):
        if depth > 8:
            return None
        loc, proj = p
        v = val.get(loc)
        for idx, e in enumerate(proj):
            if v is None:
                return None
            if e[0] == "*":
                if v[0] == "r":
                    rest = proj[idx + 1:]
                    q = v[1]
                    return self._aval_place((q[0], q[1] + rest), val, depth + 1)
                return None
            if e[0] == "d":
                if v[0] != "v" or v[1] != e[1]:
                    return None
            elif e[0] == "f":
                if v[0] != "v":
                    return None
                v = dict(v[2]).get(e[1])
            else:
                return None
        return v

    def _aval_op(self, o, val):
        if o[0] in ("c", "m"):
            return self._aval_place(o[1], val)
        if o[0] == "k":
            c = o[1]
            if "v" in c:
                return ("i", c["v"])
            if "prom" in c:
                return self._aval_prom(c, o[2])
        return None

    def _aval_prom(self, c, fr):
        t = self.prom_term(c, fr)
        return self._term_aval(t)

    def _term_aval(self, t):
        if t[0] == "const" and isinstance(t[1], int):
            return ("i", t[1])
        if t[0] == "adt":
            fs = []
            for f, x in t[3]:
                a = self._term_aval(x)
                if a is not None:
                    fs.append((f, a))
            return ("v", t[2], tuple(fs))
        return None

    def _step(self, n, val):
        k = n.kind
        if k == "assign":
            p, r = n.data
            v = self._aval_rv(r, val)
            self._write(p, v, val)
            return [(s, e, dict(val)) for s, e in n.succ]
        if k == "setd":
            self._write(n.data[0], n.data[2] if len(n.data) > 2 else None, val)
            return [(s, e, dict(val)) for s, e in n.succ]
        if k == "nop" and n.id in self.hof:
            # the function stops at the first element whose answer says so
            nm, loc, ty = self.hof[n.id]
            v = val.get(loc)
            again, after = n.succ[0], n.succ[1]
            vals = [v]
            if v is None:
                vals = HOF_STOP[nm] if nm[:4] != "try_" else (("v", "Err", ()), ("v", "Ok", ())) if "Result<" in ty else \
                    (("v", "None", ()), ("v", "Some", ())) if "Option<" in ty else (None,)
            outs = []
            for v in vals:
                v2 = dict(val)
                if v is not None:
                    v2[loc] = v
                stops = v is not None and (v == HOF_STOP[nm][0] if nm[:4] != "try_" else v[1] in ("Err", "None", "Break"))
                outs.append((after[0], after[1], v2))
                if not stops:
                    outs.append((again[0], again[1], dict(v2)))
            return outs
        if k == "call":
            keys, args, dest, fn, _ = n.data
            v = self._aval_call(n, val)
            # a callee may write through &mut references it receives
            for a in args:
                if a[0] in ("c", "m"):
                    av = self._aval_place(a[1], val)
                    if av is not None and av[0] == "r" and self._is_mut(a):
                        val.pop(av[1][0], None)
            self._write(dest, v, val)
            return [(s, e, dict(val)) for s, e in n.succ]
        if k == "switch":
            op, ty = n.data
            v = self._aval_op(op, val)
            outs = []
            for s, e in n.succ:
                if v is not None and v[0] == "i" and e is not None:
                    if e[0] == "eq" and e[1] != v[1]:
                        continue
                    if e[0] == "ne" and v[1] in e[1]:
                        continue
                v2 = dict(val)
                if e is not None and v is None:
                    if not self._refine(n, op, e, v2):
                        continue
                outs.append((s, e, v2))
            return outs
        return [(s, e, dict(val)) for s, e in n.succ]

    def _is_mut(self, op):
        loc, proj = op[1]
        b = self.frame_body[loc[0]]
        t = b.locals[loc[1]] if loc[1] < len(b.locals) else ""
        return t.startswith("&mut") or "&mut" in t or t.startswith("*mut")

    def _refine(self, n, op, e, val):
        """switch edge taken: learn what it says about the tested local"""
        if op[0] not in ("c", "m"):
            return True
        loc, proj = op[1]
        if proj:
            if e[0] == "eq":
                self._learn(op[1], ("i", e[1]), val)
            return True
        if e[0] == "eq":
            val[loc] = ("i", e[1])
        elif len(e[1]) == 1 and e[1][0] in (0, 1) and n.data[1] == "bool":
            val[loc] = ("i", 1 - e[1][0])
        d = self.defs.get(loc, [])
        if len(d) == 1 and d[0].kind == "assign":
            rv = d[0].data[1]
            if rv[0] == "discr":
                m = dict((a, b) for a, b in rv[3])
                if e[0] == "eq":
                    vn = m.get(e[1])
                else:
                    rest = [b for a, b in rv[3] if a not in e[1]]
                    if not rest:
                        return False       # exhaustive match: no other variant exists
                    vn = rest[0] if len(rest) == 1 else None
                if vn is not None:
                    self._learn(rv[1], ("v", vn, ()), val)
            elif rv[0] == "un" and rv[1] == "Not" and e[0] == "eq" and rv[2][0] in ("c", "m"):
                self._learn(rv[2][1], ("i", 1 - e[1]), val)
        if len(d) == 1 and d[0].kind == "call":
            keys, args = d[0].data[0], d[0].data[1]
            nm = keys[-1]
            if nm in ("is_ok", "is_err", "is_some", "is_none") and args and args[0][0] in ("c", "m") and \
                    e[0] in ("eq", "ne"):
                b = None
                if e[0] == "eq":
                    b = e[1]
                elif len(e[1]) == 1:
                    b = 1 - e[1][0]
                if b is not None:
                    vn = {"is_ok": ("Err", "Ok"), "is_err": ("Ok", "Err"),
                          "is_some": ("None", "Some"), "is_none": ("Some", "None")}[nm][b]
                    self._learn(args[0][1], ("v", vn, ()), val, deref=True)
            if nm == "branch" and False:
                pass
        return True

    def _learn(self, p, v, val, deref=False):
        loc, proj = p
        if deref and not proj:
            w = val.get(loc)
            if w is not None and w[0] == "r":
                return self._learn(w[1], v, val)
        if not proj:
            old = val.get(loc)
            if old is None:
                val[loc] = v
            return
        if proj and proj[0][0] == "*":
            w = val.get(loc)
            if w is not None and w[0] == "r":
                q = w[1]
                return self._learn((q[0], q[1] + proj[1:]), v, val)
            return
        # nested field of a known variant
        if v[0] == "v" or v[0] == "i":
            old = val.get(loc)
            new = self._setpath(old, proj, v)
            if new is not None:
                val[loc] = new

    def _setpath(self, old, proj, v):
        if not proj:
            return v if old is None else old
        e = proj[0]
        if e[0] == "d":
            if old is not None and old[0] == "v" and old[1] == e[1]:
                inner = dict(old[2])
            elif old is None:
                inner = {}
            else:
                return None
            if len(proj) < 2 or proj[1][0] != "f":
                return None
            x = self._setpath(inner.get(proj[1][1]), proj[2:], v)
            if x is None:
                return None
            inner[proj[1][1]] = x
            return ("v", e[1], tuple(sorted(inner.items())))
        return None

    def _write(self, p, v, val):
        loc, proj = p
        # kill references into the written local's value
        if not proj:
            if v is None:
                val.pop(loc, None)
            else:
                val[loc] = v
        elif proj[0][0] == "*":
            w = val.get(loc)
            if w is not None and w[0] == "r":
                q = w[1]
                self._write((q[0], q[1] + proj[1:]), v, val)
        else:
            val.pop(loc, None)

    def _aval_rv(self, r, val):
        k = r[0]
        if k == "use":
            return self._aval_op(r[1], val)
        if k == "ref":
            p = r[2]
            if p[1] and p[1][0][0] == "*":
                w = val.get(p[0])
                if w is not None and w[0] == "r":
                    return ("r", (w[1][0], w[1][1] + p[1][1:]))
                return None
            if any(e[0] in ("i", "*") for e in p[1]):
                return None
            return ("r", p)
        if k == "discr":
            v = self._aval_place(r[1], val)
            if v is not None and v[0] == "v":
                for a, b in r[3]:
                    if b == v[1]:
                        return ("i", a)
            return None
        if k == "agg":
            kd = r[1]
            if kd.get("k") == "adt":
                fs = []
                for f, o in zip(kd["fields"], r[2]):
                    a = self._aval_op(o, val)
                    if a is not None and a[0] != "r":
                        fs.append((f, a))
                return ("v", kd["variant"], tuple(sorted(fs)))
            if kd.get("k") == "tuple":
                fs = []
                for i, o in enumerate(r[2]):
                    a = self._aval_op(o, val)
                    if a is not None:
                        fs.append((str(i), a))
                return ("v", "tuple", tuple(fs)) if fs else None
            return None
        if k == "un" and r[1] == "Not":
            v = self._aval_op(r[2], val)
            if v is not None and v[0] == "i" and v[1] in (0, 1):
                return ("i", 1 - v[1])
        if k == "bin" and r[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr"):
            a = self._aval_op(r[2], val)
            b = self._aval_op(r[3], val)
            if a and b and a[0] == "i" and b[0] == "i" and r[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                x, y = a[1], b[1]
                return ("i", int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y,
                                  "Gt": x > y, "Ge": x >= y}[r[1]]))
        if k == "cast" and r[1] == "IntToInt":
            return self._aval_op(r[2], val)
        return None

    def _aval_call(self, n, val):
        keys, args, dest, fn, _ = n.data
        nm = keys[-1]
        if not args:
            return None
        if n.id in self.hof:
            nm, loc, ty = self.hof[n.id]
            v = val.get(loc)
            if v is None:
                return None
            never = v[:2] == ("v", "never")
            if nm in ("any", "all"):
                return ("i", int(nm == "all")) if never else v
            if nm in ("find", "position"):
                return ("v", "Some" if v == ("i", 1) else "None", ())
            if never:
                return ("v", "Ok", ()) if "Result<" in ty else ("v", "Some", ()) if "Option<" in ty else None
            return (v[0], v[1], v[2] if v[1] in ("Err",) else ())

        def a(i):
            v = self._aval_op(args[i], val)
            while v is not None and v[0] == "r":
                v = self._aval_place(v[1], val)
            return v

        v = a(0)
        if nm == "branch" and v is not None and v[0] == "v":
            if v[1] in ("Ok", "Some"):
                return ("v", "Continue", v[2])
            if v[1] == "Err":
                return ("v", "Break", (("0", v),))
            if v[1] == "None":
                return ("v", "Break", ())
        if nm == "from_residual":
            if v is not None and v[0] == "v" and v[1] == "Err":
                return ("v", "Err", ())
            dt = self.frame_body[dest[0][0]].locals[dest[0][1]] if not dest[1] else ""
            if "Result<" in dt:
                return ("v", "Err", ())
            if "Option<" in dt:
                return ("v", "None", ())
        if nm in ("is_ok", "is_err", "is_some", "is_none") and v is not None and v[0] == "v":
            return ("i", int(v[1] == {"is_ok": "Ok", "is_err": "Err", "is_some": "Some", "is_none": "None"}[nm]))
        if nm in ("map_err", "map", "as_ref", "as_mut", "copied", "cloned") and v is not None and v[0] == "v" \
                and v[1] in ("Ok", "Err", "Some", "None"):
            return ("v", v[1], ())
        if nm in ("eq", "ne") and len(args) == 2 and "PartialEq.eq" in keys + ["PartialEq.eq"]:
            w = a(1)
            if v and w and v[0] == "i" and w[0] == "i":
                r = v[1] == w[1]
                return ("i", int(r if nm == "eq" else not r))
            if v and w and v[0] == "v" and w[0] == "v" and v[1] != w[1]:
                return ("i", int(nm == "ne"))
            if v and w and v[0] == "v" and w[0] == "v" and v == w and self._complete(v):
                return ("i", int(nm == "eq"))
        if nm == "not" and v is not None and v[0] == "i" and v[1] in (0, 1):
            return ("i", 1 - v[1])
        if nm in ("clone", "into", "from", "into_iter", "to_owned") and nm == "clone":
            return v
        return None

    def _complete(self, v):
        return v[0] == "i" or (v[0] == "v" and v[1] in ("None", "EmptyClause", "Dead", "Some", "Ok", "Err")
                               and (v[1] in ("None", "EmptyClause", "Dead")
                                    or (len(v[2]) == 1 and self._complete(v[2][0][1]))))

    # -- terms
    def prom_term(self, c, fr):
        b = self.frame_body[fr]
        owner = b
        of = c.get("promof")
        if of:
            x = self.prog._b(of, b.crate)
            if x is not None:
                owner = x
        pb = owner.promoted[c["prom"]]
        return _prom_term(pb, self)

    def term(self, op, depth=0, seen=()):
        if depth > 60:
            self._trunc = self.__dict__.get("_trunc", 0) + 1
            return ("deep",)
        if op[0] == "k":
            c = op[1]
            if "prom" in c:
                return self.prom_term(c, op[2])
            return const_term(c)
        if op[0] == "elem":
            return ("elem",) + op[1]
        if op[0] == "tup":
            return ("tup", self.term(op[1], depth + 1, seen))
        return self.place_term(op[1], depth, seen)

    def place_term(self, p, depth=0, seen=()):
        loc, proj = p
        t = self.local_term(loc, depth + 1, seen)
        for e in proj:
            t = project(t, e, self, depth, seen)
        return t

    def local_term(self, loc, depth=0, seen=()):
        cache = self.__dict__.setdefault("_tc", {})
        if loc in cache:
            return cache[loc]
        if depth > 60 or loc in seen:
            self._trunc = self.__dict__.get("_trunc", 0) + 1
            return ("var", loc, self._lname(loc))
        trunc0 = self.__dict__.get("_trunc", 0)
        d = self.defs.get(loc, [])
        if len(d) > 1 and self.__dict__.get("at"):
            d = [x for x in d if x.id in self.at] or d
        fr, l = loc
        b = self.frame_body[fr]
        if not d:
            if l == 0:
                t = ("ret", fr)
            elif l <= b.argc:
                t = ("arg", fr, l, b.lname.get(l, str(l)))
            else:
                t = ("var", loc, self._lname(loc))
        elif len(d) == 1:
            t = self.def_term(d[0], depth, seen + (loc,))
        else:
            ts = []
            if len(d) <= 6:
                for x in d:
                    tt = self.def_term(x, depth + 3, seen + (loc,))
                    if tt not in ts:
                        ts.append(tt)
            if len(ts) == 1:
                t = ts[0]
            else:
                t = ("var", loc, self._lname(loc))
        # a term cut short inside a cycle or by the depth limit is valid only in its context
        if self.__dict__.get("_trunc", 0) == trunc0 or not seen or t[:2] == ("var", loc):
            cache[loc] = t
        return t

    def _lname(self, loc):
        return self.frame_body[loc[0]].lname.get(loc[1], "_%d" % loc[1])

    def def_term(self, n, depth, seen):
        if n.kind == "assign":
            return self.rv_term(n.data[1], depth, seen, n)
        keys, args, dest, fn, _ = n.data
        return self.call_term(n, depth, seen)

    def call_term(self, n, depth=0, seen=()):
        keys, args, dest, fn, _ = n.data
        at = tuple(self.term(a, depth + 1, seen) for a in args)
        nm = keys[-1]
        # transparent wrappers
        if nm in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "clone", "copied", "cloned",
                  "as_slice", "as_mut_slice", "to_vec", "to_owned", "into_iter", "iter", "iter_mut", "as_str") \
                and len(at) == 1 and nm in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut", "clone",
                                            "copied", "cloned"):
            if nm == "clone" and keys[0] == "Vec.clone" and dest[0] in self._edited():
                return ("call", keys[0], at, n.id)
            return at[0]
        if nm == "branch" and "Try.branch" in keys:
            return ("try", at[0], "opt") if any(k.startswith("Option.") for k in keys) else ("try", at[0])
        if nm in ("index", "index_mut", "get_unchecked", "get_unchecked_mut") and len(at) == 2 and \
                self.prog.resolve(fn, self.frame_body[n.frame].crate) is None:
            if at[1][0] == "adt" and at[1][1] == "RangeFull":
                return at[0]
            return ("index", at[0], at[1])
        return ("call", keys[0], at, n.id)

    def _edited(self):
        """locals that are borrowed mutably as a whole"""
        e = self.__dict__.get("_edt")
        if e is None:
            e = self._edt = {n.data[1][2][0] for n in self.nodes if n.kind == "assign" and n.data[1][0] in ("ref", "raw")
                             and "mut" in str(n.data[1][1]).lower() and not n.data[1][2][1]}
        return e

    def rv_term(self, r, depth, seen, n=None):
        k = r[0]
        if k == "use":
            return self.term(r[1], depth + 1, seen)
        if k == "ref" or k == "raw":
            return self.place_term(r[2], depth + 1, seen)
        if k == "cast":
            return self.term(r[2], depth + 1, seen) if r[1] in ("IntToInt",) or "Pointer" in r[1] \
                else ("cast", r[1], r[3], self.term(r[2], depth + 1, seen))
        if k == "bin":
            return ("bin", r[1], self.term(r[2], depth + 1, seen), self.term(r[3], depth + 1, seen))
        if k == "un" and r[1] == "PtrMetadata":
            return ("call", "Vec.len", (self.term(r[2], depth + 1, seen),), n.id if n else -1)
        if k == "un":
            return ("un", r[1], self.term(r[2], depth + 1, seen))
        if k == "discr":
            return ("discr", self.place_term(r[1], depth + 1, seen), tuple(map(tuple, r[3])))
        if k == "agg":
            kd = r[1]
            ops = tuple(self.term(o, depth + 1, seen) for o in r[2])
            if kd["k"] == "adt":
                return ("adt", short(kd["adt"]), kd["variant"], tuple(zip(kd["fields"], ops)))
            if kd["k"] == "tuple":
                return ("tuple", ops)
            if kd["k"] == "closure":
                return ("closure", kd["uid"], ops)
            return ("array", ops)
        if k == "repeat":
            return ("repeat", self.term(r[1], depth + 1, seen), r[2])
        return ("other",)

    # -- conditions
    def edge_facts(self, n, e):
        """facts implied by taking edge e out of switch node n"""
        if n.kind != "switch" or e is None:
            return []
        cache = self.__dict__.setdefault("_ef", {})
        key = (n.id, e)
        if key in cache:
            return cache[key]
        op, ty = n.data
        t = self.term(op)
        out = []
        if t[0] == "discr":
            m = dict(t[2])
            if e[0] == "eq":
                out += variant_fact(t[1], m.get(e[1], str(e[1])), True)
            else:
                rest = [b for a, b in t[2] if a not in e[1]]
                if len(rest) == 1:
                    out += variant_fact(t[1], rest[0], True)
                for a in e[1]:
                    out += variant_fact(t[1], m.get(a, str(a)), False)
        elif ty == "bool":
            b = None
            if e[0] == "eq":
                b = bool(e[1])
            elif len(e[1]) == 1:
                b = not bool(e[1][0])
            if b is not None:
                out += bool_fact(t, b)
        else:
            if e[0] == "eq":
                out.append((("eq", t, ("const", e[1])), True))
            else:
                for a in e[1]:
                    out.append((("eq", t, ("const", a)), False))
        cache[key] = out
        return out

    def pfacts(self, i, e):
        """edge_facts, with boolean variables resolved to the definitions that reach product node i"""
        n = self.nodes[self.pn[i]]
        fs = self.edge_facts(n, e)
        if n.kind != "switch" or e is None:
            return fs
        cache = self.__dict__.setdefault("_pf", {})
        if n.data[1] != "bool":
            if (i, e) not in cache:
                x = []
                for (k, b) in [f for f in fs if f[1] and f[0][0] == "is" and f[0][1][0] == "var" and f[0][2] in OPTRES]:
                    x += self._variant_facts(k[1], k[2], i)
                cache[(i, e)] = list(fs) + [f for f in x if f not in fs] if x else fs
            return cache[(i, e)]
        if (i, e) not in cache:
            b = bool(e[1]) if e[0] == "eq" else (not bool(e[1][0]) if len(e[1]) == 1 else None)
            x = self._flag_facts(self.term(n.data[0]), b, i) if b is not None else []
            cache[(i, e)] = list(fs) + [f for f in x if f not in fs] if x else fs
        return cache[(i, e)]

    def _ppred(self):
        if not hasattr(self, "_pp"):
            pp = [[] for _ in self.pn]
            for a in range(len(self.pn)):
                for b, _ in self.ps[a]:
                    pp[b].append(a)
            self._pp = pp
        return self._pp

    def reaching(self, loc, i):
        """product nodes whose definition of loc reaches product node i; None if the entry does"""
        ds = {d.id for d in self.defs.get(loc, [])}
        pp = self._ppred()
        out, seen, st = set(), set(), list(pp[i])
        if i == self.pstart:
            return None
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.pn[x] in ds:
                out.add(x)
                continue
            if x == self.pstart:
                return None
            st += pp[x]
        return out

    def _variant_facts(self, t, v, i, depth=0):
        """facts common to every definition reaching i that can give an option or result the variant v"""
        if t[0] != "var" or depth > 4:
            return []
        rd = self.reaching(t[1], i)
        if not rd:
            return []
        acc = None
        for x in rd:
            d = self.nodes[self.pn[x]]
            if d.kind == "assign":
                if d.data[0][1]:
                    return []
                w = self.rv_term(d.data[1], 0, (), d)
            elif d.kind == "call":
                w = self.call_term(d)
            else:
                return []
            if w[0] == "adt":
                if w[2] != v:
                    continue
                cur = set()
            elif w[0] == "call" and w[1].split(".")[-1] == "from_residual":
                if v in ("Some", "Ok"):
                    continue
                cur = set()
            else:
                cur = set(variant_fact(w, v, True)) | set(self._variant_facts(w, v, x, depth + 1))
            acc = cur if acc is None else acc & cur
        return sorted(acc, key=repr) if acc else []

    def _flag_facts(self, t, b, i, depth=0):
        """facts common to every definition reaching i that can give a boolean variable the value b"""
        while t[0] == "un" and t[1] == "Not":
            t, b = t[2], not b
        if t[0] != "var" or depth > 4:
            return []
        rd = self.reaching(t[1], i)
        if not rd:
            return []
        acc = None
        for x in rd:
            d = self.nodes[self.pn[x]]
            if d.kind == "assign":
                if d.data[0][1]:
                    return []
                v = self.rv_term(d.data[1], 0, (), d)
            elif d.kind == "call":
                v = self.call_term(d)
            else:
                return []
            if v[0] == "const" and v[1] in (0, 1, True, False):
                if bool(v[1]) != b:
                    continue
                cur = set()
            else:
                cur = set(bool_fact(v, b)) | set(self._flag_facts(v, b, x, depth + 1))
            acc = cur if acc is None else acc & cur
        return sorted(acc, key=repr) if acc else []

    # -- queries on the product graph
    def events(self, pred):
        """flat node ids satisfying pred(node) that are reachable in the product"""
        return [n.id for n in self.nodes if n.id in self.at and pred(n)]

    def reach(self, starts, stop=lambda i: False, edge_ok=None):
        seen = set()
        st = list(starts)
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            if stop(i):
                continue
            for j, e in self.ps[i]:
                if edge_ok and not edge_ok(i, j, e):
                    continue
                if j not in seen:
                    st.append(j)
        return seen

    def must_precede(self, A, b):
        """True if every path entry->b passes a node of A (flat ids) first; else a witness path"""
        A = set(A)
        r = self._find(self.pstart, lambda i: self.pn[i] == b, lambda i: self.pn[i] in A)
        return r

    def _find(self, start, goal, block, edge_ok=None, skip_first=False):
        """BFS; returns None if no path from start to goal avoiding block nodes, else the path"""
        starts = [start] if isinstance(start, int) else list(start)
        prev = {s: None for s in starts}
        dq = deque(starts)
        first = True
        while dq:
            i = dq.popleft()
            if not (first and skip_first):
                if goal(i):
                    path = []
                    while i is not None:
                        path.append(i)
                        i = prev[i]
                    return path[::-1]
                if block(i):
                    first = False
                    continue
            first = False
            for j, e in self.ps[i]:
                if edge_ok and not edge_ok(i, j, e):
                    continue
                if j not in prev:
                    prev[j] = i
                    dq.append(j)
        return None

    def path_after(self, a, goal, block, edge_ok=None):
        """a path from (just after) flat node a to a product node satisfying goal avoiding block"""
        for i in self.at.get(a, []):
            for j, e in self.ps[i]:
                if edge_ok and not edge_ok(i, j, e):
                    continue
                r = self._find(j, goal, block, edge_ok)
                if r is not None:
                    return [i] + r
        return None

    def show(self, path, limit=14):
        out = []
        last = None
        for i in path:
            n = self.nodes[self.pn[i]]
            if n.kind in ("call", "switch", "return", "diverge") or i == path[-1]:
                d = n.data[0][0] if n.kind in ("call", "diverge") else n.kind
                s = f"{n.body.file}:{n.line} {d}"
                if s != last:
                    out.append(s)
                last = s
        if len(out) > limit:
            out = out[:limit // 2] + ["..."] + out[-limit // 2:]
        return out

    def facts(self):
        """facts holding on every path to each product node: dict product id -> frozenset"""
        if hasattr(self, "_facts"):
            return self._facts
        TOP = None
        F = {self.pstart: frozenset()}
        work = deque([self.pstart])
        inq = {self.pstart}
        killcache = {}

        def kills(n):
            """(node id of call re-executed, locals written, field names written)"""
            if n.id in killcache:
                return killcache[n.id]
            ls = set()
            fs = set()
            cid = None
            if n.kind == "assign" or n.kind == "setd":
                p = n.data[0]
                if not p[1]:
                    ls.add(p[0])
                else:
                    f = [e[1] for e in p[1] if e[0] == "f"]
                    if f:
                        fs.add(f[-1])
                    else:
                        pass
            elif n.kind == "call":
                cid = n.id
                p = n.data[2]
                if not p[1]:
                    ls.add(p[0])
            killcache[n.id] = (cid, ls, fs)
            return killcache[n.id]

        def out(i):
            f = F[i]
            n = self.nodes[self.pn[i]]
            cid, ls, fs = kills(n)
            if f and (cid is not None or ls or fs):
                f = frozenset(x for x in f if not mentions(x[0], cid, ls, fs))
            return f

        while work:
            i = work.popleft()
            inq.discard(i)
            base = out(i)
            n = self.nodes[self.pn[i]]
            for j, e in self.ps[i]:
                f = base
                if e is not None and n.kind == "switch":
                    ef = self.pfacts(i, e)
                    if ef:
                        f = f | frozenset(ef)
                if j not in F:
                    F[j] = f
                    if j not in inq:
                        inq.add(j)
                        work.append(j)
                else:
                    g = F[j] & f
                    if g != F[j]:
                        F[j] = g
                        if j not in inq:
                            inq.add(j)
                            work.append(j)
        self._facts = F
        return F

    def returns(self):
        """(product id, abstract value of the returned place or None) of every return"""
        out = []
        for i, nid in enumerate(self.pn):
            if self.nodes[nid].kind == "return":
                out.append((i, self.pval[i].get((0, 0))))
        return out

    def facts_at(self, nid):
        """facts holding at every product copy of a flat node"""
        F = self.facts()
        r = None
        for i in self.at.get(nid, []):
            r = F[i] if r is None else (r & F[i])
        return r or frozenset()

    def guard_path(self, nid, factpred):
        """None if every path to nid takes (and does not lose) an edge whose facts satisfy factpred;
        otherwise a witness path that avoids such edges."""
        def ok(i, j, e):
            n = self.nodes[self.pn[i]]
            if e is None or n.kind != "switch":
                return True
            return not any(factpred(f) for f in self.pfacts(i, e))
        return self._find(self.pstart, lambda i: self.pn[i] == nid, lambda i: False, ok)


def mentions(t, cid, ls, fs):
    if not isinstance(t, tuple):
        return False
    if not t:
        return False
    h = t[0]
    if h == "call":
        if cid is not None and len(t) > 3 and t[3] == cid:
            return True
        return any(mentions(x, cid, ls, fs) for x in t[2])
    if h == "elem":
        return False
    if h == "var":
        return t[1] in ls
    if h == "field":
        if t[2] in fs:
            return True
        return mentions(t[1], cid, ls, fs)
    for x in t[1:]:
        if isinstance(x, tuple) and mentions(x, cid, ls, fs):
            return True
    if h not in _HEADS and any(isinstance(x, tuple) and mentions(x, cid, ls, fs) for x in t[:1]):
        return True
    return False


_HEADS = {"call", "elem", "var", "field", "bin", "un", "eq", "lt", "le", "is", "true", "adt", "tuple", "const",
          "discr", "try", "index", "variant", "cast", "arg"}


def fmt_template(lit):
    """the format string a compiled `format_args!` template stands for ("{}" for a placeholder), or None"""
    if not (lit.startswith('b"') and lit.endswith('\\x00"')):
        return None
    import ast
    try:
        b = ast.literal_eval(lit)
    except (ValueError, SyntaxError):
        return None
    i, arg, out = 0, 0, ""
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out if i == len(b) and "{" in out else None
        if n <= 0x80:
            if n == 0x80:
                n = b[i] + 256 * b[i + 1] if i + 1 < len(b) else 0
                i += 2
            out += b[i:i + n].decode("utf-8", "replace").replace("{", "{{").replace("}", "}}")
            i += n
            continue
        if n < 0xc0:
            return None
        opt, ix = "", arg
        for bit, w in ((1, 4), (2, 2), (4, 2), (8, 2)):
            if n & bit:
                v = int.from_bytes(b[i:i + w], "little")
                i += w
                if bit == 8:
                    ix = v
                else:
                    opt += {1: "f", 2: "w", 4: "p"}[bit] + ("$" if n & (bit << 3) and bit > 1 else "") + str(v)
        out += "{" + (str(ix) if ix != arg else "") + (":" + opt if opt else "") + "}"
        arg = ix + 1
    return None


def const_term(c):
    if "fn" in c:
        return ("fn", c["fn"]["p"])
    if "path" in c and "v" not in c:
        return ("named", short(c["path"]), c["path"])
    if "path" in c:
        return ("const", c["v"], short(c["path"]))
    if "v" in c:
        return ("const", c["v"])
    if "f" in c:
        return ("const", c["f"])
    if "s" in c:
        return ("const", c["s"])
    if "static" in c:
        return ("static", c["static"])
    if "bytes" in c:
        return ("const", fmt_template(c.get("str", "")) or c["bytes"])
    return ("kother", c.get("str", c.get("ty")))


def _prom_term(pb, flat):
    """evaluate a straight-line promoted body to a term"""
    env = {}

    def op(o):
        if o[0] == "k":
            return const_term(o[1])
        return pl(o[1])

    def pl(p):
        t = env.get(p[0], ("pv", p[0]))
        for e in p[1]:
            t = project(t, tuple(e), flat, 0, ())
        return t

    bi = 0
    seen = set()
    while bi not in seen:
        seen.add(bi)
        blk = pb["blocks"][bi]
        for s in blk["s"]:
            if s[0] == "=" and not s[2][1]:
                r = s[3]
                k = r[0]
                if k == "use":
                    v = op(r[1])
                elif k == "ref":
                    v = pl(r[2])
                elif k == "agg":
                    kd = r[1]
                    ops = tuple(op(o) for o in r[2])
                    if kd["k"] == "adt":
                        v = ("adt", short(kd["adt"]), kd["variant"], tuple(zip(kd["fields"], ops)))
                    elif kd["k"] == "tuple":
                        v = ("tuple", ops)
                    else:
                        v = ("array", ops)
                elif k == "cast":
                    v = op(r[2])
                else:
                    v = ("pother",)
                env[s[2][0]] = v
        t = blk["t"]
        if t[0] == "goto":
            bi = t[2]
        elif t[0] == "call":
            env[t[4][0]] = ("call", "promoted", tuple(op(a) for a in t[3]), -1)
            if t[5] < 0:
                break
            bi = t[5]
        elif t[0] == "assert":
            bi = t[5]
        else:
            break
    return env.get(0, ("pother",))


def project(t, e, flat, depth, seen):
    k = e[0]
    if k == "*":
        return t
    if k == "f":
        if t[0] == "adt":
            for f, x in t[3]:
                if f == e[1]:
                    return x
        if t[0] == "tuple" and e[1].isdigit() and int(e[1]) < len(t[1]):
            return t[1][int(e[1])]
        if t[0] == "closure" and e[1].isdigit() and int(e[1]) < len(t[2]):
            return t[2][int(e[1])]
        if t[0] == "tup":
            return ("field", t[1], e[1])
        if t[0] == "variant" and t[1][0] == "adt" and t[1][2] == t[2]:
            for f, x in t[1][3]:
                if f == e[1]:
                    return x
        if t[0] == "variant" and t[1][0] == "try" and t[2] == "Continue":
            t = ("variant", t[1][1], "Some" if len(t[1]) > 2 else "Ok")
            return project(t, ("f", "0"), flat, depth, seen)
        if t[0] == "variant" and t[1][0] == "var" and flat is not None and depth < 40:
            x = payload(t[1][1], t[2], e[1], flat, depth, seen)
            if x is not None:
                return x
        return ("field", t, e[1])
    if k == "i":
        return ("index", t, flat.local_term(e[1], depth + 1, seen) if flat else ("?",))
    if k == "ci":
        return ("index", t, ("const", e[1]))
    if k == "sub":
        return ("slice", t, e[1], e[2])
    if k == "d":
        if t[0] == "adt":
            return t
        return ("variant", t, e[1])
    return ("proj?", t)


def payload(loc, variant, field, flat, depth, seen):
    """the field of a variant that only one definition of the local makes"""
    if loc in seen:
        return None
    d = flat.defs.get(loc, [])
    if flat.__dict__.get("at"):
        d = [x for x in d if x.id in flat.at] or d
    if not 2 <= len(d) <= 6:
        return None
    got = []
    for n in d:
        if n.kind == "call" and n.data[0][-1] == "from_residual":
            if variant in ("Ok", "Some"):
                continue
            return None
        if n.kind != "assign" or n.data[1][0] not in ("agg", "use"):
            return None
        x = flat.def_term(n, depth + 3, seen + (loc,))
        if x[0] != "adt":
            return None
        if x[2] == variant:
            got.append(x)
    if len(got) != 1:
        return None
    return next((x for f, x in got[0][3] if f == field), None)


OPP = {"Ok": "Err", "Err": "Ok", "Some": "None", "None": "Some", "Continue": "Break", "Break": "Continue"}


def variant_fact(t, v, pol):
    out = []
    if not pol and v in OPP:
        v, pol = OPP[v], True
    if t[0] == "try":
        inner = t[1]
        m = {"Continue": "Some", "Break": "None"} if len(t) > 2 else {"Continue": "Ok", "Break": "Err"}
        out.append((("is", inner, m.get(v, v)), pol))
        out += [f for f in variant_fact(inner, m.get(v, v), pol) if f not in out]
        return out
    if t[0] == "adt":
        return out
    if t[0] == "call" and t[1] in ("Result.map_err", "Result.map", "Option.map") and t[2]:
        out += variant_fact(t[2][0], v, pol)
    if t[0] == "call" and t[2] and pol and v in OPTRES:
        nm, x = t[1].split(".")[-1], t[2][0]
        good = v in ("Some", "Ok")
        if nm == "then_some" or nm == "then" and len(t[2]) == 2 and t[2][1][0] == "closure":
            out += bool_fact(x, good)
        elif t[1] == "Result.ok":
            out += variant_fact(x, "Ok" if good else "Err", True)
        elif t[1] == "Result.err":
            out += variant_fact(x, "Err" if good else "Ok", True)
        elif t[1] in ("Option.ok_or", "Option.ok_or_else"):
            out += variant_fact(x, "Some" if good else "None", True)
        elif t[1] in ("Option.copied", "Option.cloned", "Option.as_ref", "Option.as_mut", "Option.as_deref", "Result.as_ref"):
            out += variant_fact(x, v, True)
        elif t[1] in ("Option.and_then", "Option.filter", "Result.and_then", "Option.and") and good:
            out += variant_fact(x, v, True)
    out.append((("is", t, v), pol))
    return out


OPTRES = ("Some", "None", "Ok", "Err")


def bool_fact(t, b):
    out = []
    h = t[0]
    if h == "un" and t[1] == "Not":
        return bool_fact(t[2], not b)
    if h == "bin":
        o, x, y = t[1], t[2], t[3]
        if o == "Eq":
            return eq_fact(x, y, b)
        if o == "Ne":
            return eq_fact(x, y, not b)
        if o == "Lt":
            return [(("lt", x, y), b)]
        if o == "Gt":
            return [(("lt", y, x), b)]
        if o == "Le":
            return [(("lt", y, x), not b)]
        if o == "Ge":
            return [(("lt", x, y), not b)]
        if o == "BitAnd" and b:
            return bool_fact(x, True) + bool_fact(y, True)
        if o == "BitOr" and not b:
            return bool_fact(x, False) + bool_fact(y, False)
        if o == "BitXor":
            return [(("true", t), b)]
    if h == "call":
        nm = t[1].split(".")[-1]
        a = t[2]
        if nm == "not" and len(a) == 1:
            return bool_fact(a[0], not b)
        if nm == "is_some" and a:
            return variant_fact(a[0], "Some" if b else "None", True)
        if nm == "is_none" and a:
            return variant_fact(a[0], "None" if b else "Some", True)
        if nm == "is_ok" and a:
            return variant_fact(a[0], "Ok" if b else "Err", True)
        if nm == "is_err" and a:
            return variant_fact(a[0], "Err" if b else "Ok", True)
        if nm == "eq" and len(a) == 2:
            return eq_fact(a[0], a[1], b)
        if nm == "ne" and len(a) == 2:
            return eq_fact(a[0], a[1], not b)
        if nm == "lt" and len(a) == 2:
            return [(("lt", a[0], a[1]), b)]
        if nm == "gt" and len(a) == 2:
            return [(("lt", a[1], a[0]), b)]
        if nm == "le" and len(a) == 2:
            return [(("lt", a[1], a[0]), not b)]
        if nm == "ge" and len(a) == 2:
            return [(("lt", a[0], a[1]), not b)]
    out.append((("true", t), b))
    return out


def eq_fact(x, y, b):
    # constant/aggregate on the right
    if x[0] in ("const", "adt", "named") and y[0] not in ("const", "adt", "named"):
        x, y = y, x
    out = [(("eq", x, y), b)]
    if y[0] == "const" and y[1] in (True, False) and isinstance(y[1], bool):
        pass
    if y[0] == "adt" and not y[3]:
        out += variant_fact(x, y[2], b)
    if y[0] == "adt" and y[3] and b:
        out += variant_fact(x, y[2], True)
    return out


# ---------------------------------------------------------------- term helpers
def strip(t):
    """drop call-site ids so that terms compare structurally"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        return ("call", t[1], tuple(strip(x) for x in t[2]))
    if t and t[0] == "arg":
        return ("arg", t[3]) if len(t) > 3 else t
    if t and t[0] == "var":
        return ("var", t[2]) if len(t) > 2 else t
    return tuple(strip(x) for x in t)


def tstr(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if d > 8:
        return "…"
    h = t[0] if t else ""
    if h == "call":
        return f"{t[1]}({', '.join(tstr(x, d+1) for x in t[2])})"
    if h == "field":
        return f"{tstr(t[1], d+1)}.{t[2]}"
    if h == "variant":
        return f"{tstr(t[1], d+1)}@{t[2]}"
    if h == "index":
        return f"{tstr(t[1], d+1)}[{tstr(t[2], d+1)}]"
    if h == "const":
        return repr(t[2]) if len(t) > 2 else repr(t[1])
    if h == "named":
        return t[1]
    if h == "arg":
        return str(t[-1])
    if h == "var":
        return "$" + str(t[-1])
    if h == "bin":
        return f"({tstr(t[2], d+1)} {t[1]} {tstr(t[3], d+1)})"
    if h == "un":
        return f"{t[1]}({tstr(t[2], d+1)})"
    if h == "adt":
        return f"{t[1]}::{t[2]}" + ("(" + ", ".join(tstr(x, d + 1) for _, x in t[3]) + ")" if t[3] else "")
    if h == "is":
        return f"{tstr(t[1], d+1)} is {t[2]}"
    if h in ("eq", "lt"):
        return f"{tstr(t[1], d+1)} {'==' if h == 'eq' else '<'} {tstr(t[2], d+1)}"
    if h == "true":
        return tstr(t[1], d + 1)
    if h == "try":
        return f"{tstr(t[1], d+1)}?"
    if h == "tuple":
        return "(" + ", ".join(tstr(x, d + 1) for x in t[1]) + ")"
    return "(" + " ".join(tstr(x, d + 1) for x in t) + ")"


def fstr(f):
    return ("" if f[1] else "not ") + tstr(f[0])


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)
