"""P18 command line: the argument parser is evaluated, option by option, on the words the help text lists."""
import re
from rules import *
from registry import prop
from absint import Interp, key

# (spellings, field, kind); kinds: flag, usize/u16 (whole number), f64, path, local (help and version)
OPTIONS = [
    (("--no-color", "-C"), "no_color", "flag"), (("--quiet", "-q"), "quiet_mode", "flag"),
    (("--certify", "-c"), "use_certification", "flag"), (("--heatmap", "-H"), "show_cdb_heatmap", "flag"),
    (("--journal", "-j"), "show_journal", "flag"), (("--help", "-h"), None, "local"), (("--version", "-V"), None, "local"),
    (("--cl",), "c_cls_lim", "num"), (("--crl",), "cls_rdc_lbd", "num"), (("--cr1",), "cls_rdc_rm1", "num"),
    (("--cr2",), "cls_rdc_rm2", "num"), (("--ecl",), "elm_cls_lim", "num"), (("--evl",), "elm_grw_lim", "num"),
    (("--evo",), "elm_var_occ", "num"), (("--rlt",), "rst_lbd_thr", "num"), (("--vdr",), "vrw_dcy_rat", "num"),
    (("--vds",), "vrw_dcy_stp", "num"), (("--cdr",), "crw_dcy_rat", "num"), (("--dir", "-o"), "io_odir", "path"),
    (("--proof", "-p"), "io_pfile", "path"), (("--result", "-r"), "io_rfile", "path"), (("--timeout", "-t"), "c_timeout", "num"),
]
UNKNOWN = ("--zz-unknown", "-Z", "--", "-")
INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}
SAME = {"deref", "deref_mut", "as_ref", "as_str", "as_mut", "borrow", "clone", "to_string", "to_owned", "into", "from", "as_deref", "cloned",
        "copied", "into_string", "as_mut_str", "into_owned", "unwrap", "expect", "trim", "to_lowercase_", "as_bytes_", "ok", "into_iter",
        "iter", "as_slice", "by_ref", "unwrap_unchecked", "ok_or", "ok_or_else", "map_err", "into_boxed_str", "to_str_", "must_use",
        "black_box"}
CHANGES = {"max", "min", "clamp", "abs", "floor", "ceil", "round", "trunc", "sqrt", "powi", "powf", "fract", "signum", "recip", "neg", "add", "sub",
           "mul", "div", "rem", "saturating_add", "saturating_sub", "saturating_mul", "wrapping_add", "wrapping_sub", "wrapping_mul",
           "unsigned_abs", "rem_euclid", "pow", "isqrt", "next_power_of_two", "leading_zeros", "trailing_zeros", "count_ones", "not"}
KEEPS = ("OPT", "LIST")


class Parser(Interp):
    """values: ("S", word being parsed or a part of it), ("B"/"I"), ("LIST", values), ("V", variant name),
    ("ARG",) the argument, ("NUM", type) the parsed argument, ("PATH",) a path made from it, ("ODD", why) something else made from it,
    ("OPT", what may be missing) an option whose payload is stored below it;
    user: (words handed out, arguments consumed, writes, accepted defects, vague, end)"""
    LIMIT = 90000

    def __init__(self, F, word, main, iters, on=False):
        super().__init__(F)
        self.on = on            # go on after the last word
        self.word, self.main, self.iters = word, main, iters
        self.out = set()
        self.diverged = False

    def val(self, op, env, user):
        if op[0] == "k":
            c = op[1]
            if isinstance(c.get("s"), str):
                return ("S", c["s"])
            if c.get("ty") == "char" and isinstance(c.get("v"), int):
                return ("S", chr(c["v"]))
            if c.get("ty") == "bool" and "v" in c:
                return ("B", bool(c["v"]))
            if "prom" in c:
                return self.of_term(self.F.prom_term(c, op[2]))
            if isinstance(c.get("v"), int):
                return ("I", c["v"])
            return None
        return super().val(op, env, user)

    def of_term(self, t):
        if t[0] == "const":
            if isinstance(t[1], str):
                m = re.fullmatch(r"'?\"?(.*?)\"?'?", t[1])
                return ("S", m.group(1) if m else t[1])
            if isinstance(t[1], int):
                return ("I", t[1])
        if t[0] in ("agg", "array", "tuple") and isinstance(t[-1], tuple):
            vs = [self.of_term(x) for x in t[-1]]
            return ("LIST", tuple(vs)) if all(vs) else None
        if t[0] in ("ref", "cast") and isinstance(t[-1], tuple):
            return self.of_term(t[-1])
        return None

    def compare(self, o, a, b):
        if a and b and a[0] == b[0] == "S" and o in ("Eq", "Ne"):
            return (a[1] == b[1]) == (o == "Eq")
        return super().compare(o, a, b)

    def rv(self, r, env, user):
        if r[0] == "discr":
            k = key(r[1])
            v = env.get(k) if k else None
            if v and v[0] == "V":
                for d, nm in r[3]:
                    if nm == v[1]:
                        return ("I", d)
            if v and v[0] == "OPT":
                return ("DISC", v[1], tuple((d, nm) for d, nm in r[3]))
            return None
        if r[0] == "agg" and r[1].get("k") == "array":
            vs = tuple(self.val(o, env, user) for o in r[2])
            return ("LIST", vs) if all(v and v[0] == "S" for v in vs) else None
        if r[0] == "agg" and r[1].get("k") == "closure":
            vs = [self.val(o, env, user) for o in r[2]]
            return ("CLO", any(v and v[0] == "S" for v in vs))
        if r[0] == "cast":
            v = self.val(r[2], env, user)
            if v and v[0] == "NUM" and r[1] in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                s, t = v[1], r[3]
                if s == t:
                    return v
                if s in INTS and t in INTS and INTS[t] >= INTS[s] and not (s[0] == "i" and t[0] == "u"):
                    return ("NUM", t)
                if s in INTS and t == "f64" or s == "f32":
                    return ("NUM", t)
                return ("ODD", f"the number given, cut down from {s} to {t}")
            return v
        if r[0] in ("bin", "un"):
            vs = [self.val(o, env, user) for o in r[2:] if isinstance(o, tuple) and o and o[0] in ("k", "c", "m")]
            x = super().rv(r, env, user)
            if x is None and r[1] not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and any(v and v[0] in ("NUM", "ARG") for v in vs):
                return ("ODD", "computed from the number given")
            return x
        return super().rv(r, env, user)

    def assign(self, n, env, user):
        r = n.data[1]
        if r[0] == "agg" and r[1].get("k") == "adt" and r[1].get("variant") in ("Some", "None", "Ok", "Err"):
            k = key(n.data[0])
            if k is not None:
                vals = [self.val(o, env, user) for o in r[2]]
                for x in [x for x in env if x[0] == k[0] and x[1][:len(k[1])] == k[1]]:
                    del env[x]
                env[k] = ("V", r[1]["variant"])
                if vals and vals[0] is not None:
                    env[(k[0], k[1] + ("0",))] = vals[0]
                return
        src = r[1][1] if r[0] == "use" and r[1][0] in ("c", "m") else r[2] if r[0] == "ref" else None
        s, k = key(src) if src is not None else None, key(n.data[0])
        if s is not None and k is not None and env.get(s, ("",))[0] in ("V", "OPT"):
            cp = {x[1][len(s[1]):]: v for x, v in env.items() if x[0] == s[0] and x[1][:len(s[1])] == s[1]}
            for x in [x for x in env if x[0] == k[0] and x[1][:len(k[1])] == k[1]]:
                del env[x]
            for f, v in cp.items():
                env[(k[0], k[1] + f)] = v
            return
        super().assign(n, env, user)

    def write(self, n, env, user):
        pl, r = n.data
        f = next((e for e in reversed(pl[1]) if e[0] == "f"), None)
        if f and len(f) > 2 and str(f[2]).endswith("config::Config") and user[0]:
            return self.note(user, f[1], self.rv(r, env, user))
        return user

    @staticmethod
    def note(user, field, v):
        got, took, ws, bad, vague, end = user
        return (got, took, ws | {(field, v)}, bad, vague, end)

    def sub(self, n, i, env, f):
        a = n.data[1][i]
        k = key(a[1]) if a[0] in ("c", "m") else None
        return env.get((k[0], k[1] + f)) if k else None

    def call(self, n, vals, env, user):
        F = self.F
        names, info = n.data[0], n.data[3]
        f = last(names[0])
        got, took, ws, bad, vague, end = user
        if n.id in self.iters:
            if n.id == self.main and not got:
                return {(): ("V", "Some"), ("0",): ("S", self.word)}, (1, took, ws, bad, vague, end)
            if n.id == self.main and self.on:
                return ("V", "None"), user
            if n.id == self.main:
                return None, (got, took, ws, bad, vague, 1)
            if not got:
                return None, user
            return {(): ("OPT", ("no argument",)), ("0",): ("ARG",)}, (got, took + 1, ws, bad, vague, end)
        if f in ("help_string", "_print", "write_all", "write_fmt", "write_str") and got:
            ws = ws | {("@" + ("help" if f == "help_string" else "text"), None)}
            user = (got, took, ws, bad, vague, end)
        v = vals[0] if vals else None
        w = vals[1] if len(vals) > 1 else None
        k0 = key(n.data[1][0][1]) if n.data[1] and n.data[1][0][0] in ("c", "m") else None
        # a field of the configuration overwritten by a call
        pl = n.data[2]
        fld = next((e for e in reversed(pl[1]) if e[0] == "f"), None)
        r, u = self.value(f, names, info, n, vals, v, w, k0, env, user)
        if fld and len(fld) > 2 and str(fld[2]).endswith("config::Config") and got:
            x = r.get(()) if isinstance(r, dict) else r
            u = self.note(u, fld[1], x)
        return r, u

    def value(self, f, names, info, n, vals, v, w, k0, env, user):
        got, took, ws, bad, vague, end = user
        opt = env.get(k0) if k0 else None
        dead = lambda why: (got, took, ws, bad | {why}, vague, end)
        if opt and opt[0] in ("OPT", "V"):
            pay = env.get((k0[0], k0[1] + ("0",)))
            if f in ("unwrap", "expect", "unwrap_unchecked"):
                return pay, user
            if f in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else"):
                if opt[0] == "OPT" and not (f.endswith("else") and self.diverges(n, 1)):
                    return pay, (got, took, ws, bad | set(opt[1]), vague, end)
                return pay, user
            if f in ("is_some", "is_ok", "is_none", "is_err"):
                if opt[0] == "V":
                    return ("B", (opt[1] in ("Some", "Ok")) == (f in ("is_some", "is_ok"))), user
                return ("DISC", opt[1], ((1, "Some"), (0, "None")) if f in ("is_some", "is_ok") else ((0, "Some"), (1, "None"))), user
            if f in SAME or f == "flatten":
                return ({(): opt, ("0",): pay} if pay is not None else opt), user
            if f in ("branch",):
                return ({(): opt, ("0",): pay} if pay is not None else opt), user
            if f in ("map", "and_then", "map_while", "filter"):
                return {(): ("OPT", opt[1] if opt[0] == "OPT" else ())}, (got, took, ws, bad, True, end)
        if v and v[0] in ("ARG", "PATH", "NUM", "ODD"):
            if f == "parse" or f == "from_str":
                ty = self.parsed(info)
                return {(): ("OPT", ("bad argument",)), ("0",): ("NUM", ty) if v[0] == "ARG" else v}, user
            if f in ("try_from", "try_into"):
                ty = self.parsed(info)
                return {(): ("OPT", ("bad argument",)), ("0",): ("NUM", ty) if v[0] == "NUM" else v}, user
            if f in ("from", "into", "to_path_buf", "new") and ("Path" in str(info.get("res")) + str(info.get("ga")) + names[0]):
                return ("PATH",), user
            if f in SAME:
                return v, user
            if v[0] == "NUM" and f in CHANGES:
                return ("ODD", f"the {f} of the number given"), user
            return None, user
        if w and w[0] == "NUM" and f in CHANGES:
            return ("ODD", f"the {f} of the number given"), user
        if w and w[0] in ("ARG",) and f in ("from_str", "push"):
            return None, (got, took, ws, bad, True, end)
        # words
        if v and v[0] == "S":
            x = v[1]
            y = w[1] if w and w[0] == "S" else None
            B = lambda b: (("B", bool(b)), user)
            if f in ("eq", "ne") and w and w[0] == "S":
                return B((x == y) == (f == "eq"))
            if f in ("starts_with", "ends_with") and y is not None:
                return B(x.startswith(y) if f == "starts_with" else x.endswith(y))
            if f == "contains" and y is not None:
                return B(y in x)
            if f == "is_empty":
                return B(not x)
            if f == "len":
                return ("I", len(x)), user
            if f in ("strip_prefix", "strip_suffix") and y is not None:
                if (x.startswith(y) if f == "strip_prefix" else x.endswith(y)):
                    return {(): ("V", "Some"), ("0",): ("S", x[len(y):] if f == "strip_prefix" else x[:len(x) - len(y)])}, user
                return ("V", "None"), user
            if f in ("trim_start_matches", "trim_end_matches") and y:
                while x.startswith(y) if f == "trim_start_matches" else x.endswith(y):
                    x = x[len(y):] if f == "trim_start_matches" else x[:-len(y)]
                return ("S", x), user
            if f in ("split", "splitn", "split_terminator") and "=" not in x:
                return ("LIST", (("S", x),)), user
            if f in ("split_once", "rsplit_once", "find") and y is not None and y not in x:
                return ("V", "None"), user
            if f in ("index", "get", "get_unchecked"):
                a, b = self.sub(n, 1, env, ("start",)), self.sub(n, 1, env, ("end",))
                ga = str(info.get("ga")) + str(info.get("res"))
                if a or b or "RangeFull" in ga:
                    s = ("S", x[(a[1] if a and a[0] == "I" else 0):(b[1] if b and b[0] == "I" else len(x))])
                    return (s if f != "get" else {(): ("V", "Some"), ("0",): s}), user
            if f in SAME:
                return v, user
        if v and v[0] == "LIST":
            if f == "len":
                return ("I", len(v[1])), user
            if f == "contains" and w and w[0] == "S":
                return ("B", w in v[1]), user
            if f == "is_empty":
                return ("B", not v[1]), user
            if f in ("index", "get", "get_unchecked", "nth") and w and w[0] == "I":
                if w[1] < len(v[1]):
                    return (v[1][w[1]] if f == "index" else {(): ("V", "Some"), ("0",): v[1][w[1]]}), user
                return (None if f == "index" else ("V", "None")), user
            if f in ("collect", "iter", "into_iter") or f in SAME:
                return v, user
            if f == "first" and v[1]:
                return {(): ("V", "Some"), ("0",): v[1][0]}, user
        if any(q and (q[0] == "S" and q[1] and q[1] in self.word or q == ("CLO", True)) for q in vals) and got and \
                f not in ("new_display", "new_debug", "panic_fmt", "to_string_lossy", "new", "drop", "_print", "_eprint"):
            return None, (got, took, ws, bad, True, end)
        return None, user

    def diverges(self, n, i):
        """the function handed over never returns"""
        a = n.data[1][i]
        if a[0] == "k" and "fn" in str(a[1]):
            return False
        cd = self.F._closure_of(a)
        cb = self.F.prog.bodies.get(cd[0]) if cd else None
        if cb is None:
            return True
        G = Flat(self.F.prog, cb)
        return not any(x.kind == "return" and x.id in G.at for x in G.nodes)

    def parsed(self, info):
        ts = [str(g) for g in info.get("ga", [])]
        for t in ts:
            if t in INTS or t in ("f64", "f32"):
                return t
        return "?"

    def on_edge(self, n, ed, env, user):
        v = self.val(n.data[0], env, user)
        if v and v[0] == "DISC":
            got, took, ws, bad, vague, end = user
            hit = [nm for d, nm in v[2] if (d == ed[1] if ed[0] == "eq" else d not in ed[1])]
            if hit and all(h in ("None", "Err", "Break") for h in hit):
                return (got, took, ws, bad | set(v[1]), vague, end)
        return user

    def edge(self, v, ed):
        if v[0] in ("DISC", "S", "NUM", "ARG", "LIST", "V", "OPT"):
            return None
        return super().edge(v, ed)

    def halt(self, user):
        return user[5] == 1

    def done(self, user, n, i):
        if n.kind == "diverge":
            if user[0]:
                self.diverged = True
            if self.on and last(n.data[0][0]) == "exit":
                self.out.add(user[:5] + (3,))
        if user[5] == 1 and n.id == self.main:
            self.out.add(user)
        elif n.kind == "return" and user[0] and user[5] != 1:
            self.out.add(user[:5] + (2,))
        return None


def show_value(v):
    if v is None:
        return "?"
    return {"B": lambda: str(v[1]).lower(), "I": lambda: str(v[1]), "S": lambda: "the word " + repr(v[1]), "ODD": lambda: v[1]}.get(
        v[0], lambda: v[0].lower())()


def parser(c):
    for k in ("Config.inject_from_args",):
        F = c.flat(k)
    iters = set()
    for n in F.nodes:
        if n.id in F.at and n.kind == "call" and "next" in n.data[0]:
            t = F.term(n.data[1][0])
            if has_call(t, "args", "args_os"):
                iters.add(n.id)
    main = None
    for i in sorted(iters):
        if loop_around(F, i) and c.reaches(F, i, i):
            if all(c.reaches(F, i, j) for j in iters) and (main is None or not dominated(F, i, main)):
                main = i
    return F, iters, main


def dominated(F, a, b):
    """every path from the start to a passes b"""
    return F._find(F.pstart, lambda i: F.pn[i] == a, lambda i: F.pn[i] == b) is None


@prop("P18", "constant propagation through the option parser, once per option of the help text",
      "For every option of the help text and for unknown ones, the parser is interpreted with that word as the argument at hand and "
      "an unknown argument after it; the settings written and the arguments consumed on every path back to the next word are compared "
      "with the help text. What each setting does afterwards is decided only for the limits and switches listed in the wiring table.")
def p18(c):
    F, iters, main = parser(c)
    c.floor("option", 1, 1 if main is not None else 0)
    if main is None:
        return
    names = help_names(c)
    table = {s: (f, k) for ss, f, k in OPTIONS for s in ss}
    for s in sorted(names | set(table)):
        fld, kind = table.get(s, (None, "any"))
        w = c.where(F, main)
        I = Parser(F, s, main, iters)
        I.run({}, (0, 0, frozenset(), frozenset(), False, 0), stop=lambda n: False)
        outs = {o for o in I.out}
        exact = {o for o in outs if not o[4]}
        if kind == "local":
            c.ob("option", bool(outs) or I.diverged, f"{w}: {s} is not accepted", s, w)
            for o in exact:
                for g, _ in o[2]:
                    if g[0] != "@":
                        c.ob("option", False, f"{w}: {s} changes {g}", s + ":other", w)
            I = Parser(F, s, main, iters, True)
            I.run({}, (0, 0, frozenset(), frozenset(), False, 0))
            tag = "@help" if s in ("--help", "-h") else "@text"
            for o in {o for o in I.out if not o[4]}:
                c.ob("option", tag in {g for g, _ in o[2]}, f"{w}: {s} can end without its text", s + ":text", w)
            continue
        c.ob("option", bool(outs), f"{w}: {s} is not accepted", s, w)
        for o in exact:
            got, took, ws, bad, _, end = o
            if kind == "any":
                continue
            for g, v in ws:
                if g != fld and g[0] != "@":
                    c.ob("option", False, f"{w}: {s} changes {g}", s + ":other", w)
            mine = [v for g, v in ws if g == fld]
            if bad:
                c.ob("argument", False, f"{w}: {s} goes on with {', '.join(sorted(bad))}", s + ":" + sorted(bad)[0], w)
                continue
            c.ob("option", bool(mine), f"{w}: {s} does not change {fld}", s + ":none", w)
            c.ob("option", end == 1, f"{w}: the words after {s} are ignored", s + ":rest", w)
            n = 0 if kind == "flag" else 1
            c.ob("argument", took == n, f"{w}: {s} consumes {took} arguments, {n} documented", s + ":count", w)
            for v in mine:
                ok = v is None or (v == ("B", True) if kind == "flag" else v[0] == "NUM" if kind == "num" else v[0] in ("PATH", "ARG"))
                c.ob("value", ok, f"{w}: {s} sets {fld} to {show_value(v)}", s + ":value", w)
    for s in UNKNOWN:
        I = Parser(F, s, main, iters)
        I.run({}, (0, 0, frozenset(), frozenset(), False, 0))
        exact = {o for o in I.out if not o[4]}
        w = c.where(F, main)
        c.ob("unknown", not exact, f"{w}: the unknown option {s} is accepted", s, w)
    I = Parser(F, "zz.cnf", main, iters)
    I.run({}, (0, 0, frozenset(), frozenset(), False, 0))
    w = c.where(F, main)
    c.ob("unknown", I.diverged or any(o[2] or o[4] for o in I.out), f"{w}: a word that is neither an option nor the formula is ignored",
         "word", w)


    target(c, F, iters, main)
    later(c, F, main)
    wiring(c)
    quiet(c)


def target(c, F, iters, main):
    """the formula is the last word"""
    for i in c.writes(F, "cnf_file"):
        v = c.wval(F, i)
        first = has_call(v, "nth", "first") or any(is_call(s, "next") and len(s) > 3 and s[3] not in iters | {main} for s in subterms(v))
        c.ob("target", not (first and has_call(v, "args", "args_os")), f"{c.where(F, i)}: the formula is not the last word of the command line",
             "first", c.where(F, i))


def later(c, F, main):
    """no setting changes once the options were read"""
    loop = loop_around(F, main)
    known_ = {f for _, f, _ in OPTIONS if f}
    for n in F.nodes:
        if n.id not in F.at or n.kind != "assign" or not loop or n.id in loop[1] or not c.reaches(F, main, n.id):
            continue
        f = next((e for e in reversed(n.data[0][1]) if e[0] == "f"), None)
        if f and len(f) > 2 and str(f[2]).endswith("config::Config") and f[1] in known_:
            t = F.rv_term(n.data[1], 0, (), n)
            c.ob("option", t[0] == "var" or has(t, lambda s: s[0] == "var" and not has_name(s, "self")),
                 f"{c.where(F, n.id)}: {f[1]} changes after the options were read", "later:" + f[1], c.where(F, n.id))


WIRES = {("ClauseDB", "soft_limit"): "c_cls_lim", ("Eliminator", "eliminate_var_occurrence_limit"): "elm_var_occ",
         ("Eliminator", "eliminate_grow_limit"): "elm_grw_lim", ("Eliminator", "subsume_literal_limit"): "elm_cls_lim",
         ("State", "time_limit"): "c_timeout", ("AssignStack", "activity_decay_default"): "vrw_dcy_rat",
         ("AssignStack", "activity_decay_step"): "vrw_dcy_stp", ("ClauseDB", "activity_decay"): "crw_dcy_rat"}
SETTINGS = {f for _, f, _ in OPTIONS if f} | {"c_cbt_thr", "cnf_file"}


def wiring(c):
    """the parts of the solver take each limit from its own setting"""
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or b.kind == "closure" or b.name != "instantiate":
            continue
        F = c.flat(b)
        for x in F.nodes:
            if x.id not in F.at or x.kind != "assign" or x.data[1][0] != "agg" or x.data[1][1].get("k") != "adt":
                continue
            adt = last_seg(x.data[1][1]["adt"])
            for f, o in zip(x.data[1][1].get("fields", ()), x.data[1][2]):
                want = WIRES.get((adt, f))
                if not want:
                    continue
                t = F.term(o)
                got = {s[2] for s in subterms(t) if s and s[0] == "field" and s[2] in SETTINGS}
                w = c.where(F, x.id)
                n += 1
                const = not any(s and s[0] in ("call", "var", "arg") for s in subterms(t))
                c.ob("wiring", want in got or not got and not const, f"{w}: {adt}.{f} is taken from {', '.join(sorted(got)) or 'a constant'}, not {want}",
                     f"{adt}.{f}", w)
                c.ob("wiring", not (got - {want}), f"{w}: {adt}.{f} also depends on {', '.join(sorted(got - {want}))}", f"{adt}.{f}:more", w)
    c.floor("wiring", 3, n)


def last_seg(p):
    return p.split("<")[0].split("::")[-1]


def quiet(c):
    """progress messages are printed only when they are not switched off"""
    n = 0
    for b in c.prog.bodies.values():
        if b.crate != "splr.lib" or not b.file.endswith("src/state.rs") or b.kind == "closure" or not c.is_known(b):
            continue
        F = c.flat(b)
        ps = c.calls(F, "_print")
        if ps and b.name in ("progress", "progress_header", "progress_footer", "flush", "log"):
            n += len(ps)
            c.only_if("quiet", F, ps, (lambda f: f[0][0] == "true" and not f[1] and has_name(f[0][1], "quiet_mode")), "the quiet switch being off", b.key)
    c.floor("quiet", 2, n)


def help_names(c):
    """the options named in the help text"""
    out = set()
    for b in c.prog.bodies.values():
        if b.file.endswith("config.rs"):
            for s in strings(b):
                for m in re.finditer(r"(?m)((?:-\w, )?--[a-z][\w-]*) [ <]", s):
                    out |= set(m.group(1).split(", "))
    return out


def strings(b):
    out = []
    def walk(x):
        if isinstance(x, dict):
            for k in ("s", "bytes"):
                if isinstance(x.get(k), str):
                    out.append(x[k])
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(b.d)
    return out
