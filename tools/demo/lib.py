"""what the demonstrations share: random formulas, running target/debug/splr, checking models and DRAT proofs"""
import os, random, shutil, subprocess, sys, tempfile

SPLR = os.path.join(os.getcwd(), "target", "debug", "splr")


def ksat(seed, n, m, ks):
    r = random.Random(seed)
    out = []
    for _ in range(m):
        vs = r.sample(range(1, n + 1), r.choice(ks))
        out.append([v if r.random() < .5 else -v for v in vs])
    return out


def pigeon(holes):
    p = lambda i, j: i * holes + j + 1
    cs = [[p(i, j) for j in range(holes)] for i in range(holes + 1)]
    for j in range(holes):
        for a in range(holes + 1):
            for b in range(a):
                cs.append([-p(a, j), -p(b, j)])
    return holes * (holes + 1), cs


def write_cnf(path, n, cs):
    with open(path, "w") as f:
        f.write(f"p cnf {n} {len(cs)}\n")
        for c in cs:
            f.write(" ".join(map(str, c)) + " 0\n")


def read_cnf(path):
    n, cs, cur = 0, [], []
    for line in open(path):
        if line.startswith("p"):
            n = int(line.split()[2])
        elif not line.startswith("c"):
            for t in line.split():
                if t == "%":
                    return n, cs
                if t == "0":
                    cs.append(cur)
                    cur = []
                else:
                    cur.append(int(t))
    return n, cs


def run(cnf, d, *opts, timeout=100):
    """returns (return code, stdout, model or None)"""
    r = subprocess.run([SPLR, "-q", "-o", d, "-r", "result.txt", *opts, cnf], cwd=d, capture_output=True, text=True,
                       timeout=timeout)
    model = None
    p = os.path.join(d, "result.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("v "):
                model = [int(x) for x in line[2:].split() if x != "0"]
    return r.returncode, r.stdout + r.stderr, model


def model_ok(cs, model):
    s = set(model)
    return all(any(l in s for l in c) for c in cs)


class Drat:
    """forward check as drat-trim does it: every added clause must be RUP (or RAT on its first literal), every deletion
    must name a present clause; what unit propagation fixes stays fixed (deleting its reason has no effect)"""

    def __init__(self, cs):
        self.cl = []          # literal lists or None
        self.watch = {}
        self.index = {}
        self.val = set()      # true at the root
        self.reason = set()
        self.conflict = False
        for c in cs:
            self.add(c)

    def add(self, c):
        c = list(dict.fromkeys(c))
        k = len(self.cl)
        self.index.setdefault(frozenset(c), []).append(k)
        c.sort(key=lambda l: -l in self.val)
        self.cl.append(c)
        if len(c) >= 2:
            self.watch.setdefault(c[0], []).append(k)
            self.watch.setdefault(c[1], []).append(k)
        free = [l for l in c if -l not in self.val]
        if not free:
            self.conflict = True
        elif len(free) == 1 and free[0] not in self.val and not self.conflict:
            self.reason.add(k)
            if not self.propagate([free[0]], None):
                self.conflict = True

    def delete(self, c):
        ks = self.index.get(frozenset(c))
        if not ks:
            return False
        k = ks.pop()
        if k not in self.reason:
            self.cl[k] = None
        return True

    def propagate(self, lits, undo):
        val, q = self.val, []
        for l in lits:
            if -l in val:
                return False
            if l not in val:
                val.add(l)
                q.append(l)
                if undo is not None:
                    undo.append(l)
        i = 0
        while i < len(q):
            f = -q[i]
            i += 1
            ws = self.watch.get(f, [])
            keep = []
            for n, k in enumerate(ws):
                c = self.cl[k]
                if c is None:
                    continue
                if c[0] == f:
                    c[0], c[1] = c[1], c[0]
                if c[0] in val:
                    keep.append(k)
                    continue
                for j in range(2, len(c)):
                    if -c[j] not in val:
                        c[1], c[j] = c[j], c[1]
                        self.watch.setdefault(c[1], []).append(k)
                        break
                else:
                    keep.append(k)
                    if -c[0] in val:
                        self.watch[f] = keep + ws[n + 1:]
                        return False
                    val.add(c[0])
                    q.append(c[0])
                    if undo is not None:
                        undo.append(c[0])
                    else:
                        self.reason.add(k)
            self.watch[f] = keep
        return True

    def rup(self, c):
        if self.conflict:
            return True
        undo = []
        r = not self.propagate([-l for l in c], undo)
        for l in undo:
            self.val.discard(l)
        return r

    def rat(self, c):
        p = c[0]
        for d in self.cl:
            if d is not None and -p in d:
                r = c + [l for l in d if l != -p]
                if any(-x in r for x in r):
                    continue
                if not self.rup(r):
                    return False
        return True

    def check(self, lines, strict_delete=True):
        """None or a complaint"""
        ended = False
        for no, line in enumerate(lines, 1):
            t = line.split()
            if not t:
                continue
            d = t[0] == "d"
            t = t[1:] if d else t
            if not t or t[-1] != "0":
                return f"line {no}: {line.strip()!r} is not terminated"
            c = [int(x) for x in t[:-1]]
            if 0 in c:
                return f"line {no}: zero inside"
            if d:
                if not self.delete(c) and strict_delete:
                    return f"line {no}: deletes {c}, which is not there"
                continue
            if not self.rup(c) and not (c and self.rat(c)):
                return f"line {no}: {c or 'the empty clause'} does not follow"
            ended = ended or not c
            self.add(c)
        return None if ended else "no empty clause"


def proof_check(n, cs, *opts, strict=True, timeout=100):
    """None if the answer and the model or proof are right, else a complaint"""
    d = tempfile.mkdtemp(prefix="splrdemo.")
    try:
        f = os.path.join(d, "a.cnf")
        write_cnf(f, n, cs)
        try:
            rc, out, model = run(f, d, "-c", *opts, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "no answer in time"
        if rc == 10:
            return None if model is not None and model_ok(cs, model) else "wrong model"
        if rc != 20:
            return f"exit status {rc}: {out[-200:]}"
        return Drat(cs).check(open(os.path.join(d, "proof.drat")), strict)
    finally:
        shutil.rmtree(d, ignore_errors=True)
