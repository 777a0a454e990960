"""State machines over paths, with the values of local flags and options kept consistent along each path."""
from rules import *


def _subject(f):
    """(variable, what it says) of a fact about a local variable"""
    t, pol = f
    if t[0] == "is" and isinstance(t[1], tuple) and t[1] and t[1][0] == "var":
        return t[1][1], ("is", t[2]), pol
    if t[0] == "true" and isinstance(t[1], tuple) and t[1] and t[1][0] == "var":
        return t[1][1], ("true",), pol
    if t[0] == "true" and is_call(t[1], "is_none_or", "is_some_and") and t[1][2] and t[1][2][0][0] == "var":
        k = last(t[1][1])
        if k == "is_none_or" and not pol:
            return t[1][2][0][1], ("is", "Some"), True
        if k == "is_some_and" and pol:
            return t[1][2][0][1], ("is", "Some"), True
    return None


OPP = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}


def _norm(w, pol):
    if w[0] == "is" and not pol and w[1] in OPP:
        return ("is", OPP[w[1]]), True
    return w, pol


def learn(env, v, w, pol):
    """add knowledge about a variable; None if it contradicts what is known"""
    w, pol = _norm(w, pol)
    out = []
    for x, w2, p2 in env:
        if x == v:
            if w2 == w:
                if p2 != pol:
                    return None
                return env
            if w[0] == "is" and w2[0] == "is" and pol and p2:
                return None
    return env | {(v, w, pol)}


def machine(F, starts, init, step, bad, on_edge=None, watch=(), limit=400000):
    """walks paths with a user state.  step(state, node, defs)->state or None; bad(state, node, i, defs)->bool;
    on_edge(state, fact, env)->state or None. defs: {watched variable: last defining node}"""
    watch = frozenset(watch)
    prev, dq = {}, deque()
    for s in ([starts] if isinstance(starts, int) else starts):
        k = (s, init, frozenset(), ())
        prev[k] = None
        dq.append(k)
    defsof = {}
    for loc, ds in F.defs.items():
        for d in ds:
            defsof.setdefault(d.id, []).append(loc)
    interesting = _vars(F)
    while dq:
        k = dq.popleft()
        i, st, env, dfs = k
        n = F.nodes[F.pn[i]]
        dm = dict(dfs)
        st = step(st, n, dm)
        if st is None:
            continue
        if bad(st, n, i, dm):
            path = []
            while k is not None:
                path.append(k[0])
                k = prev[k]
            return path[::-1]
        for loc in defsof.get(n.id, ()):
            if loc in watch:
                dm[loc] = n.id
            if loc in interesting:
                env = frozenset(x for x in env if x[0] != loc)
                if n.kind == "assign" and not n.data[0][1]:
                    v = F.rv_term(n.data[1], 0, (), n)
                    if v[0] == "adt" and v[2] in OPP:
                        env = env | {(loc, ("is", v[2]), True)}
                    elif v[0] == "const" and v[1] in (0, 1):
                        env = env | {(loc, ("true",), bool(v[1]))}
        dfs2 = tuple(sorted(dm.items()))
        for j, e in F.ps[i]:
            st2, env2 = st, env
            if e is not None and n.kind == "switch":
                fs = F.pfacts(i, e)
                for f in fs:
                    s = _subject(f)
                    if s and s[0] in interesting:
                        env2 = learn(env2, *s)
                        if env2 is None:
                            break
                    t, pol = f
                    if t[0] == "true" and is_call(t[1], "is_none_or", "is_some_and") and t[1][2] and t[1][2][0][0] == "var":
                        kn = {(w, p) for v, w, p in env if v == t[1][2][0][1]}
                        if (("is", "None"), True) in kn and (last(t[1][1]) == "is_none_or") != pol:
                            env2 = None
                            break
                if env2 is None:
                    continue
                if on_edge:
                    for f in fs:
                        st2 = on_edge(st2, f, env2)
                        if st2 is None:
                            break
                    if st2 is None:
                        continue
            k2 = (j, st2, env2, dfs2)
            if k2 not in prev:
                prev[k2] = k
                dq.append(k2)
                if len(prev) > limit:
                    raise RuntimeError("too many path states: " + F.root.uid)
    return None


def _vars(F):
    """local variables tested in more than one place"""
    if hasattr(F, "_corr"):
        return F._corr
    cnt = defaultdict(set)
    for n in F.nodes:
        if n.kind != "switch" or n.id not in F.at:
            continue
        for e in {e for _, e in n.succ if e is not None}:
            for f in F.edge_facts(n, e):
                t = f[0]
                s = _subject(f) or _subject((t, not f[1]))
                if s:
                    cnt[s[0]].add(n.id)
    F._corr = {v for v, s in cnt.items() if len(s) > 1}
    return F._corr


def known(env, v, w):
    for x, w2, p in env:
        if x == v and w2 == w:
            return p
        if x == v and w[0] == "is" and w2[0] == "is" and p and w2 != w:
            return False
    return None
