"""P17 what the solver program prints, returns and saves."""
import re
from rules import *
from registry import prop
from paths import machine
from props_model import norm

WORD = re.compile(r"(UNSATISFIABLE|SATISFIABLE|UNKNOWN)")
WRITE = ("Write.write_all", "write_all", "Write.write_fmt", "write_fmt", "Write.write", "String.push_str", "push_str", "write", "fs.write",
         "Vec.extend_from_slice")
PRINT = ("_print",)
EXIT = ("exit",)
LOAD = ("loaderr?", "loaderr", "loadunsat", "not EmptyClause", "not RootLevelConflict")
ERRV = ("EmptyClause", "RootLevelConflict")


def verdict_of(a, res):
    """what colored() is asked to show: a word, or None"""
    a = res(a)
    if a and a[0] == "adt" and a[2] == "Err":
        return "UNKNOWN"
    if a and a[0] == "adt" and a[2] == "Ok":
        v = constval(res(a[3][0][1]))
        return {1: "SATISFIABLE", 0: "UNSATISFIABLE", True: "SATISFIABLE", False: "UNSATISFIABLE"}.get(v)
    return None


def words(t, res, plain=None, depth=0):
    """verdict words in a text"""
    out = set()
    for s in subterms(t):
        if not s:
            continue
        if s[0] == "const" and isinstance(s[1], str):
            out |= set(WORD.findall(s[1]))
        elif s[0] == "const" and isinstance(s[-1], str):
            out |= set(WORD.findall(s[-1]))
        elif s[0] == "call" and last(s[1]) == "colored":
            w = verdict_of(s[2][0], res)
            out.add(w or "?")
            if plain is not None and len(s[2]) > 1:
                plain.append(constval(res(s[2][1])))
        elif s[0] == "var" and depth < 3:
            r = res(s)
            if r != s and r[0] != "var":
                out |= words(r, res, plain, depth + 1)
    return out


def colored_text(c):
    """the text of each verdict names that verdict"""
    try:
        b = c.fn("colored", "splr.bin")
    except Missing:
        return
    F = c.flat(b, crate="splr.bin")
    n = 0
    ok = lambda f: f[0][0] == "is" and f[0][2] in ("Ok", "Err")
    for x in F.nodes:
        if x.id not in F.at or x.kind not in ("call", "assign"):
            continue
        ts = [F.term(a) for a in x.data[1]] if x.kind == "call" else [F.rv_term(x.data[1], 0, (), x)]
        ws = set()
        for t in ts:
            if x.kind == "assign" and t[0] == "call":
                continue
            ws |= {w for s in subterms(t) if s and s[0] == "const" for w in WORD.findall(str(s[1]) + str(s[-1]))}
        if not ws:
            continue
        n += 1
        w = c.where(F, x.id)
        c.ob("text", len(ws) == 1, f"{w}: one text names {sorted(ws)}", "one", w)
        kinds = set()
        for i in F.at[x.id]:
            kinds |= case_of(F, i)
        bad = kinds - {next(iter(ws))}
        c.ob("text", not bad, f"{w}: the text for {', '.join(sorted(bad))} is {sorted(ws)[0]}", "verdict", w)
    c.floor("text", 3, n)


def case_of(F, i):
    """the verdicts for which a product node is reached (by walking backwards over the tests of the result)"""
    out = set()
    preds = F.__dict__.get("_preds17")
    if preds is None:
        preds = {}
        for a, ss in enumerate(F.ps):
            for b, e in ss:
                preds.setdefault(b, []).append((a, e))
        F._preds17 = preds
    seen, st = set(), [(i, None)]
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        j, sat = k
        ps = preds.get(j, [])
        if not ps:
            out |= {"SATISFIABLE", "UNSATISFIABLE", "UNKNOWN"} if sat is None else {sat} if isinstance(sat, str) else \
                {"SATISFIABLE", "UNSATISFIABLE"} if sat == () else set()
            continue
        for a, e in ps:
            s2 = sat
            stop = False
            if e is not None and F.nodes[F.pn[a]].kind == "switch":
                for f in F.pfacts(a, e):
                    t, pol = f
                    if t[0] == "is" and t[2] in ("Ok", "Err") and t[1][0] in ("arg", "var"):
                        e_ = (t[2] == "Err") == pol
                        out |= {"UNKNOWN"} if e_ else {sat} if isinstance(sat, str) else {"SATISFIABLE", "UNSATISFIABLE"}
                        stop = True
                    elif t[0] == "true" and has(t[1], lambda s: s[0] == "variant" and s[2] == "Ok"):
                        s2 = "SATISFIABLE" if pol else "UNSATISFIABLE"
                    elif t[0] == "eq" and has(t, lambda s: s[0] == "variant" and s[2] == "Ok") and 1 in (constval(t[1]), constval(t[2])):
                        s2 = "SATISFIABLE" if pol else "UNSATISFIABLE"
            if not stop:
                st.append((a, s2))
    return out


@prop("P17", "path state machine over the program's main function",
      "Every path of main (with the functions that save the result expanded) is followed with the outcome it assumes; what it "
      "prints, saves and exits with is compared with that outcome. The layout of the statistics in the result file is not decided.")
def p17(c):
    colored_text(c)
    F = c.flat("main", inline=("save_result", "save_result_without_solver"), crate="splr.bin")
    build = c.calls(F, "Solver.build", "Instantiate.instantiate", "Solver.try_from", "Solver.new")
    solve = c.calls(F, "Solver.solve", "SolveIF.solve")
    exits = c.calls(F, *EXIT)
    c.floor("outcome", 3, len(build) + len(solve) + len(exits))
    B = lambda t: t[0] == "call" and len(t) > 3 and t[3] in build
    S = lambda t: t[0] == "call" and len(t) > 3 and t[3] in solve

    watch = set()
    for n in F.nodes:
        if n.id in F.at and n.kind in ("call", "diverge") and last(n.data[0][0]) in ("exit", "colored", "_print", "write_all", "write_fmt", "write",
                                                                                     "push_str", "new_display"):
            for a in n.data[1]:
                for s in subterms(F.term(a)):
                    if s and s[0] == "var":
                        watch.add(s[1])
    watch.add((0, 0))
    more = True
    while more:
        more = False
        for loc in list(watch):
            for d in F.defs.get(loc, ()):
                if d.id in F.at and d.kind == "assign":
                    for s in subterms(F.rv_term(d.data[1], 0, (), d)):
                        if s and s[0] == "var" and s[1] not in watch and F.root.locals:
                            watch.add(s[1])
                            more = True

    def resolver(dm):
        def res(t):
            k = 0
            while t and t[0] == "var" and t[1] in dm and k < 6:
                d = F.nodes[dm[t[1]]]
                t = F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d)
                k += 1
            return t
        return res

    why = {}
    spawned = set()
    for k in c.calls(F, "spawn", "Builder.spawn", "thread.spawn"):
        for x in exits:
            if x != k and F.nodes[x].body is not F.root and F.nodes[x].body.kind == "closure":
                spawned.add(x)

    want = {"sat": ("SATISFIABLE", {10}), "unsat": ("UNSATISFIABLE", {20}), "err": ("UNKNOWN", None), "loadunsat": ("UNSATISFIABLE", {20}),
            "loaderr": ("UNKNOWN", None)}

    def step(st, n, dm):
        cls, out, sav, fail, told = st
        if n.kind not in ("call", "diverge"):
            return st
        res = resolver(dm)
        f = last(n.data[0][0])
        if f == "_print":
            w = set().union(*[words(F.term(a), res) for a in n.data[1]], set())
            return (cls, out | frozenset(w), sav, fail, told or fail)
        if f in ("_eprint",):
            return (cls, out, sav, fail, told or fail)
        if f in ("write_all", "write_fmt", "write", "push_str"):
            pl = []
            w = set().union(*[words(F.term(a), res, pl) for a in n.data[1]], set())
            for p in pl:
                if p not in (1, True):
                    why["plain"] = n
            return (cls, out, sav | frozenset(w), fail, told)
        return st

    def edge(st, f, env):
        cls, out, sav, fail, told = st
        t, pol = f
        if t[0] != "is":
            return st
        x = strip(t[1])
        v = t[2]
        if B(t[1]) and v in ("Ok", "Err"):
            e = (v == "Err") == pol
            if cls in ("", "built"):
                return ("loaderr?" if e else "built", out, sav, fail, told) if cls == "" or not e else None
            return st if cls not in LOAD or e else None
        if x[0] == "variant" and x[2] == "Err" or has_variant(t[1], "Err"):
            if call_in(F, t[1], build) and v[0].isupper() and v not in ("Ok", "Err", "Some", "None"):
                if cls in LOAD:
                    if pol:
                        new = "loadunsat" if v in ERRV else "loaderr"
                        if cls in ("loadunsat", "loaderr") and cls != new or cls == "not " + v:
                            return None
                        return (new, out, sav, fail, told)
                    if v in ERRV and cls in ("loaderr?", "not " + v):
                        return ("not " + v, out, sav, fail, told)
                    if v in ERRV and cls.startswith("not "):
                        return ("loaderr", out, sav, fail, told)
                return st
        if S(t[1]) and v in ("Ok", "Err"):
            e = (v == "Err") == pol
            if cls in ("sat", "unsat", "ok?"):
                return None if e else st
            if cls == "err":
                return st if e else None
            return ("err" if e else "ok?", out, sav, fail, told)
        if call_in(F, t[1], solve) and has_variant(t[1], "Ok") and v in ("SAT", "UNSAT"):
            sat = (v == "SAT") == pol
            new = "sat" if sat else "unsat"
            if cls in ("sat", "unsat") and cls != new:
                return None
            return (new, out, sav, fail, told)
        if v in ("Ok", "Err") and io_call(F, t[1]):
            if (v == "Err") == pol:
                return (cls, out, sav, True, told)
        return st

    def code(n, dm):
        res = resolver(dm)
        if n.kind == "return":
            t = res(("var", (0, 0), "")) if (0, 0) in dm else None
            if t is None or t[0] == "tuple" or t[0] == "const" and not isinstance(t[1], int):
                return 0
            cs = [s[1] for s in subterms(t) if s and s[0] == "const" and isinstance(s[1], int)]
            if cs:
                return cs[0]
            nm = tstr(t)
            return 0 if "SUCCESS" in nm or t[0] == "adt" else 1 if "FAILURE" in nm else None
        t = res(F.term(n.data[1][0]))
        return constval(t) if t[0] == "const" else None

    def bad(st, n, i, dm):
        cls, out, sav, fail, told = st
        end = n.kind == "return" or n.id in exits
        if not end:
            return False
        k = code(n, dm)
        w = c.where(F, n.id)
        if n.id in spawned:
            if "UNKNOWN" not in out or out - {"UNKNOWN"} or k in (10, 20):
                why["p"] = (f"ends the program from another thread with status {k} after printing {sorted(out) or 'nothing'}", "thread")
                return True
            return False
        if cls == "loaderr?" or cls.startswith("not "):
            if out & {"UNKNOWN"} and (out - {"UNKNOWN"} or k != 20):
                why["p"] = ("a clash found while loading is not reported as unsatisfiable", "load-clash")
                return True
            cls = "loadunsat" if "UNSATISFIABLE" in out else "loaderr"
            if cls == "loadunsat":
                why["p"] = ("prints UNSATISFIABLE for a problem that could not be loaded", "load-error")
                return True
        cls = {"ok?": "sat"}.get(cls, cls)
        if cls in ("", "built"):
            if out & {"SATISFIABLE", "UNSATISFIABLE"} or k in (10, 20):
                why["p"] = (f"reports {sorted(out)} with status {k} before anything was solved", "early")
                return True
            return False
        word, codes = want[cls]
        if codes is not None and k is not None and k not in codes or codes is None and k in (10, 20):
            why["p"] = (f"exits with {k} when the answer is {word}", "status")
            return True
        if "?" not in out and out != {word}:
            why["p"] = (f"prints {', '.join(sorted(out)) or 'no verdict'} when the answer is {word}", "printed")
            return True
        if sav - {word, "?"}:
            why["p"] = (f"saves {', '.join(sorted(sav))} when the answer is {word}", "saved")
            return True
        if not fail and not sav:
            why["p"] = (f"saves no verdict when the answer is {word}", "saved")
            return True
        if fail and not told:
            why["p"] = ("fails to write without saying so", "silent")
            return True
        return False

    p = machine(F, F.pstart, ("", frozenset(), frozenset(), False, False), step, bad, edge, watch)
    m, key = why.get("p", ("", ""))
    w = c.where(F, F.pn[p[-1]]) if p else F.root.where()
    c.ob("outcome", p is None, f"{w}: {m}", key or "paths", w, F.show(p) if p else None)
    if "plain" in why:
        w = c.where(F, why["plain"].id)
        c.ob("outcome", False, f"{w}: the verdict is saved with colour codes", "plain", w)
    # every class is reached
    for k in solve:
        c.always("outcome", F, [k], "solving the problem", "solved", [ERRF, EARLY(F)])
    for k in spawned:
        c.ob("outcome", True, "", "thread", c.where(F, k))
    model(c, F, solve)
    destination(c, F)


def destination(c, F):
    """the result goes to the file and directory the options name, or to the standard output"""
    def widen(t, depth=0):
        out = [t]
        if depth < 3:
            for s in list(subterms(t)):
                if s and s[0] == "var":
                    for d in F.defs.get(s[1], ()):
                        if d.id in F.at:
                            out += widen(F.rv_term(d.data[1], 0, (), d) if d.kind == "assign" else F.call_term(d), depth + 1)
        return out
    ok = used = False
    for n in F.nodes:
        if n.kind != "call" or n.id not in F.at or not n.data[1]:
            continue
        ts = [F.term(a) for a in n.data[1]]
        if any(has_field(t, "io_rfile") for t in ts):
            used = True
            if any(has_field(u, "io_odir") for t in ts for u in widen(t)):
                ok = True
    for n in F.nodes:
        if n.kind == "call" and n.id in F.at and last(n.data[0][0]) == "sink":
            c.ob("destination", False, f"{c.where(F, n.id)}: the result is thrown away", "sink", c.where(F, n.id))
    c.ob("destination", ok or not used, f"{F.root.where()}: the result file is not placed in the directory the options name", "directory",
         F.root.where())
    c.ob("destination", used, f"{F.root.where()}: the name given for the result file is not used", "name", F.root.where())


ERRF = lambda f: f[0][0] == "is" and f[0][2] == "Err" and f[1]


def EARLY(F):
    return lambda f: f[0][0] in ("true", "eq", "is")


def call_in(F, t, nodes):
    return has(t, lambda s: s[0] == "call" and len(s) > 3 and s[3] in nodes)


def has_variant(t, v):
    return has(t, lambda s: s[0] == "variant" and s[2] == v)


def io_call(F, t):
    x = strip(t)
    if has(t, lambda s: s[0] == "call" and last(s[1]) in ("write_all", "write_fmt", "flush", "report", "write", "create", "open")):
        return has(t, lambda s: s[0] == "call" and last(s[1]) in ("write_all", "write_fmt", "flush", "report", "write"))
    return False


def model(c, F, solve):
    """the model is saved literal by literal, then the zero"""
    sat = lambda t: has(t, lambda s: s[0] == "variant" and s[2] == "SAT") and call_in(F, t, solve)
    wr = [k for k in c.calls(F, "Write.write_all", "write_all", "Write.write_fmt", "write_fmt", "push_str", "String.push_str", "fs.write",
                             "write")]
    lits = [k for k in wr if any(sat(a) for a in c.args(F, k)[1:])]
    each = [k for k in c.calls(F, "Iter.try_for_each", "try_for_each", "Iterator.try_for_each", "Iter.for_each", "for_each", "try_fold", "fold")
            if sat(c.args(F, k)[0])]
    for k in each:
        c.ob("model", not has_call(c.args(F, k)[0], "skip", "take", "filter", "step_by", "rev", "skip_while", "take_while", "filter_map"),
             f"{c.where(F, k)}: not every literal of the model is saved", "every", c.where(F, k))
    lits += [k for k in each if k not in lits]
    c.floor("model", 1, len(lits))
    part = lambda t: any(x and x[0] == "call" and last(x[1]) in ("first", "last", "split_at", "split_first", "split_last", "split_off",
                                                                "first_chunk", "last_chunk", "nth") for x in subterms(t)) or \
        has_call(t, "chunks", "rchunks", "windows", "chunks_exact") and has_call(t, "unwrap_or", "unwrap_or_default", "unwrap", "expect")
    for k in lits:
        for a in (c.args(F, k)[:1] if k in each else c.args(F, k)[1:]):
            c.ob("model", not part(a), f"{c.where(F, k)}: only a part of the model is saved", "part", c.where(F, k))
    # the file is open for writing, and the verdict shown is that of the run
    for k in c.calls(F, "BufWriter.new", "BufWriter.with_capacity"):
        c.ob("model", not any(has_call(a, "File.open") for a in c.args(F, k)), f"{c.where(F, k)}: the result file is opened for reading",
             "sink", c.where(F, k))
    for k in c.calls(F, "colored"):
        a = c.args(F, k)[0]
        c.ob("outcome", not has_call(a, "Result.or", "Result.or_else", "Result.and", "Result.xor", "Option.or", "Option.xor"),
             f"{c.where(F, k)}: shows {tstr(a)[:60]}, not the outcome", "shown", c.where(F, k))
    head = [k for k in wr if any("SATISFIABLE" in x and "UNSAT" not in x for a in c.args(F, k) for x in strings(a))]
    zero = [k for k in wr if any(re.search(r"(^|\s)0\n", x) for a in c.args(F, k)[1:] for x in strings(a))]
    io = lambda f: f[1] and f[0][0] == "is" and f[0][2] == "Err"
    for k in lits:
        w = c.where(F, k)
        if loop_around(F, k) is not None:
            c.each_iteration("model", F, [k], "writing the literal", "each")
            c.no_early_exit("model", F, k, "the loop over the model", "all", [io])
            h = loop_around(F, k)
            for m in h[1]:
                n = F.nodes[m]
                if n.kind == "call" and last(n.data[0][0]) == "next" and loop_around(F, m)[0] == h[0]:
                    t = F.term(n.data[1][0])
                    c.ob("model", not has_call(t, "skip", "take", "filter", "step_by", "rev", "skip_while", "take_while", "filter_map"),
                         f"{c.where(F, m)}: not every literal of the model is saved", "every", c.where(F, m))
            txt = [x for a in c.args(F, k)[1:] for x in strings(a)]
            if txt:
                c.ob("model", any(ch in x.replace("\\n", "\n") for x in txt for ch in " \n\t"), f"{w}: literals are written without a separator", "separator", w)
            for a in c.args(F, k)[1:]:
                for s in subterms(a):
                    if s and s[0] == "call" and last(s[1]).startswith("new_") and sat(s):
                        c.ob("model", strip(s[2][0])[0] not in ("un",) and not has_call(s[2][0], "abs", "neg", "not", "unsigned_abs"),
                             f"{w}: writes {tstr(s[2][0])[:60]}", "value", w)
        z = [x for x in zero if c.reaches(F, k, x)]
        fin = lambda i: F.nodes[F.pn[i]].kind == "return" or last((F.nodes[F.pn[i]].data or [[""]])[0][0]) == "exit" \
            if F.nodes[F.pn[i]].kind in ("return", "diverge") else False
        errs = lambda i, j, e: not (e is not None and F.nodes[F.pn[i]].kind == "switch" and
                                    any(f[1] and f[0][0] == "is" and f[0][2] == "Err" for f in F.pfacts(i, e)))
        p = None
        for i in F.at[k]:
            for j, e in F.ps[i]:
                p = p or F._find(j, fin, lambda x: F.pn[x] in z, errs)
        c.ob("model", p is None, f"{w}: the model is not ended by a zero", "zero", w, F.show(p) if p else None)
        for x in z:
            if loop_around(F, x) and loop_around(F, k) and x in loop_around(F, k)[1]:
                c.ob("model", False, f"{c.where(F, x)}: a zero is written between literals", "zero-once", c.where(F, x))
        hd = [x for x in head if c.reaches(F, x, k)]
        c.ob("model", bool(hd) or not head, f"{w}: the verdict is written after the model", "head", w)


def strings(t):
    return [s[1] if isinstance(s[1], str) else s[-1] for s in subterms(t) if s and s[0] == "const" and
            (isinstance(s[1], str) or isinstance(s[-1], str))]
