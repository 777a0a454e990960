"""A small forward abstract interpreter over the product graph of one function: locals carry symbolic values
(literals of a clause, flags, lengths), one run per case of the finite case distinction a rule chooses."""
from mir import *

PASS = {"clone", "copied", "cloned", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "into", "unwrap",
        "expect", "to_owned"}


def key(place):
    """(local, field path) of a place, dereferences and variants dropped; None if it has an index"""
    fs = []
    for e in place[1]:
        if e[0] == "f":
            fs.append(e[1])
        elif e[0] in ("*", "d"):
            continue
        else:
            return None
    return (place[0], tuple(fs))


class Interp:
    """subclass: start(F) -> (env dict, user); call(n, vals, env, user) -> (value, user); write(n, user) -> user;
    read(place, env, user) -> value for untracked places; compare(op, a, b) -> bool or None;
    done(user, n, i) -> message or None"""
    LIMIT = 60000
    AGGS = ("tuple", "adt")

    def __init__(self, F):
        self.F = F
        self.msg = None

    # -- values
    def get(self, place, env, user):
        k = key(place)
        if k is not None:
            loc, fs = k
            if (loc, fs) in env:
                return env[(loc, fs)]
        return self.read(place, env, user)

    def val(self, op, env, user):
        if op[0] == "k":
            c = op[1]
            if "prom" in c:
                t = self.F.prom_term(c, op[2])
                if t[0] == "const" and isinstance(t[1], int):
                    return ("I", t[1])
                return None
            if isinstance(c.get("v"), bool):
                return ("B", c["v"])
            if "v" in c:
                return ("I", c["v"])
            return None
        if op[0] in ("elem", "tup"):
            return None
        return self.get(op[1], env, user)

    def read(self, place, env, user):
        return None

    def compare(self, o, a, b):
        if a and b and a[0] in ("I", "B") and b[0] in ("I", "B"):
            x, y = int(a[1]), int(b[1])
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(o)
        return None

    def rv(self, r, env, user):
        k = r[0]
        if k in ("use", "repeat"):
            return self.val(r[1], env, user)
        if k in ("ref", "raw"):
            return self.get(r[2], env, user)
        if k == "cast":
            return self.val(r[2], env, user)
        if k == "un" and r[1] == "Not":
            v = self.val(r[2], env, user)
            if v and v[0] in ("B", "I") and v[1] in (0, 1, True, False):
                return ("B", not v[1])
            return None
        if k == "discr":
            kk = key(r[1])
            return env.get((kk[0], kk[1] + ("?d",))) if kk else None
        if k == "bin":
            a, b = self.val(r[2], env, user), self.val(r[3], env, user)
            if r[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                x = self.compare(r[1], a, b)
                return None if x is None else ("B", x)
            if r[1] in ("BitAnd", "BitOr", "BitXor") and a and b and a[0] == b[0] == "B":
                return ("B", {"BitAnd": a[1] and b[1], "BitOr": a[1] or b[1], "BitXor": a[1] != b[1]}[r[1]])
            return None
        return None

    def assign(self, n, env, user):
        pl, r = n.data
        k = key(pl)
        if k is None:
            return
        v = self.rv(r, env, user)
        src = None
        if r[0] in ("use", "cast") and r[1 if r[0] == "use" else 2][0] in ("c", "m"):
            src = key(r[1 if r[0] == "use" else 2][1])
        elif r[0] in ("ref", "raw"):
            src = key(r[2])
        if src is not None and src[0] == k[0]:
            src = None
        for x in [x for x in env if x[0] == k[0] and x[1][:len(k[1])] == k[1]]:
            del env[x]
        if v is not None:
            env[k] = v
            if v[0] != "ARR":
                return
        if src is not None:
            for x in list(env):
                if x[0] == src[0] and x[1][:len(src[1])] == src[1] and len(x[1]) > len(src[1]):
                    env[(k[0], k[1] + x[1][len(src[1]):])] = env[x]
        if r[0] == "agg" and (r[1].get("k") in self.AGGS or r[1].get("k") == "array" and len(r[2]) <= 4):
            names = r[1].get("fields") if r[1]["k"] == "adt" else [str(i) for i in range(len(r[2]))]
            if r[1]["k"] == "array":
                env[k] = ("ARR", len(r[2]), 0)
                names = ["#" + x for x in names]
            for f, o in zip(names, r[2]):
                v = self.val(o, env, user)
                if v is not None:
                    env[(k[0], k[1] + (f,))] = v
                elif o[0] in ("c", "m"):
                    s = key(o[1])
                    if s:
                        for x in list(env):
                            if x[0] == s[0] and x[1][:len(s[1])] == s[1] and len(x[1]) > len(s[1]):
                                env[(k[0], k[1] + (f,) + x[1][len(s[1]):])] = env[x]

    def array_step(self, n, vals, env):
        """iteration over a fixed array: the values of the result, or None if the call is something else"""
        if not vals or not vals[0] or vals[0][0] != "ARR" or not n.data[0]:
            return None
        nm = n.data[0][-1]
        o = self.origin(n.data[1][0], env)
        if o is None:
            return None
        if nm in ("into_iter", "iter", "as_slice", "copied", "cloned", "deref", "by_ref", "clone"):
            return {(): vals[0], **{x[1][len(o[1]):]: v for x, v in env.items()
                                    if x[0] == o[0] and x[1][:len(o[1])] == o[1] and len(x[1]) > len(o[1])}}
        if nm == "next":
            _, ln, at = vals[0]
            if at >= ln:
                return {("?d",): ("I", 0)}
            env[o] = ("ARR", ln, at + 1)
            pre = o[1] + (f"#{at}",)
            return {("?d",): ("I", 1), **{("0",) + x[1][len(pre):]: v for x, v in env.items()
                                          if x[0] == o[0] and x[1][:len(pre)] == pre}}
        return None

    def origin(self, op, env):
        """the local that holds the value an operand refers to"""
        if op[0] not in ("c", "m"):
            return None
        k = key(op[1])
        for _ in range(8):
            if k is None:
                return None
            ds = self.F.defs.get(k[0], [])
            if len(ds) != 1 or ds[0].kind != "assign" or k[1] or ds[0].data[1][0] not in ("ref", "raw"):
                return k
            k = key(ds[0].data[1][2])
        return k

    def call(self, n, vals, env, user):
        return None, user

    def write(self, n, env, user):
        return user

    def done(self, user, n, i):
        return None

    def keep(self):
        """locals whose values are kept although no later node reads them"""
        return ()

    def halt(self, user):
        return False

    # -- the walk
    def run(self, env, user, starts=None, stop=None):
        """explore; returns a bad path (product ids) or None, message in self.msg"""
        F = self.F
        live = F.__dict__.setdefault("_live2", None)
        if live is None:
            live = F._live2 = F._liveness()
        kept = self.keep()
        prev = {}
        dq = deque()
        for s in (starts or [F.pstart]):
            k = (s, tuple(sorted(env.items(), key=repr)), user)
            prev[k] = None
            dq.append(k)
        self.states = 0
        while dq:
            k = dq.popleft()
            i, envt, us = k
            n = F.nodes[F.pn[i]]
            e = dict(envt)
            self.states += 1
            if self.states > self.LIMIT:
                raise RuntimeError("abstract interpretation too large: " + F.root.uid)
            m = None
            sw = None
            if n.kind == "assign":
                us = self.write(n, e, us)
                self.assign(n, e, us)
            elif n.kind in ("call", "diverge"):
                vals = [self.val(a, e, us) for a in n.data[1]]
                arr = self.array_step(n, vals, e)
                if arr is not None:
                    v = arr
                else:
                    v, us = self.call(n, vals, e, us)
                kk = key(n.data[2])
                if kk is not None:
                    for x in [x for x in e if x[0] == kk[0] and x[1][:len(kk[1])] == kk[1]]:
                        del e[x]
                    if v is not None:
                        if isinstance(v, dict):
                            for f, x in v.items():
                                e[(kk[0], kk[1] + f)] = x
                        else:
                            e[kk] = v
            elif n.kind == "switch":
                sw = self.val(n.data[0], e, us)
            if us is not None and isinstance(us, tuple) and us and isinstance(us[-1], str):
                m = us[-1]
            if m is None:
                m = self.done(us, n, i)
            if m:
                self.msg = m
                path = []
                while k is not None:
                    path.append(k[0])
                    k = prev[k]
                return path[::-1]
            if stop and stop(n) or self.halt(us):
                continue
            for j, ed in F.ps[i]:
                if ed is not None and n.kind == "switch":
                    if sw is not None:
                        ok = self.edge(sw, ed)
                        if ok is False:
                            continue
                    u2 = self.on_edge(n, ed, e, us)
                    if u2 is False:
                        continue
                else:
                    u2 = us
                lv = live[F.pn[j]]
                if n.id in F.hof and n.kind == "nop":
                    # the product has decided what the closure answered
                    loc = F.hof[n.id][1]
                    a, b = e.get((loc, ())), F.pval[j].get(loc)
                    if a and b and a[0] in ("B", "I") and b[0] == "i" and int(a[1]) != b[1]:
                        continue
                e2 = {x: v for x, v in e.items() if x[0] in lv or x[0] in kept}
                kk = (j, tuple(sorted(e2.items(), key=repr)), u2)
                if kk not in prev:
                    prev[kk] = k
                    dq.append(kk)
        return None

    def on_edge(self, n, ed, env, user):
        return user

    def edge(self, v, ed):
        if v[0] in ("B", "I"):
            x = int(v[1])
            return x == ed[1] if ed[0] == "eq" else x not in ed[1]
        return None
