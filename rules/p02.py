"""P02  Linear-algebra operations refuse incompatible matrices."""
import json, os, re
from fractions import Fraction
from facts import walk, strip, val, text, AnalysisBroken, VERIF
from flow import Flow
import opclass
from opclass import base_name, close, const

EXPLANATION = """
Precondition extraction of all operation classes: every public method is explored over all its paths (error calls end a path);
at each normal exit the set of relations between sizes, layouts (order), triangles (uplo), symmetry and memory accessibility of
the operands known to hold is collected, closed under equality.
"""
RULE = """
Every relation of the reviewed precondition table (data/preconditions.json) holds at every normal exit of its method
(for relations with a condition: at every exit where the condition holds).
"""
ASSUMPTIONS = ["the table lists the preconditions the operations document by their error reports; it was extracted from the source, reviewed and frozen"]
TABLE = os.path.join(VERIF, "data", "preconditions.json")
PRED = ("is_data_accessible_cpu", "is_data_accessible_gpu", "is_uplo_equal", "is_symmetry_equal", "is_hermitian", "is_uplo")
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}


class SizeClient(opclass.OpClient):
    sizes = True
    max_states = 6000

    def canon(self, n):
        n = strip(n)
        if n is None:
            return None
        c = const(n)
        if c is not None:
            return "#%s" % c
        p = self.path(n)
        if p is not None:
            return p
        if n["k"] == "Bin" and n["op"] in ("+", "-", "*"):
            a, b = self.canon(n["x"]), self.canon(n["y"])
            if a is None or b is None:
                return None
            if n["op"] in ("+", "*"):
                a, b = sorted((a, b))
            return "(%s%s%s)" % (a, n["op"], b)
        if n["k"] == "Call" and n.get("o") is not None and not n["a"]:
            o = self.path(n["o"])
            return None if o is None else "%s.%s()" % (o, n["n"])
        if n["k"] == "Call" and n.get("o") is None and n.get("n") and len(n["a"]) <= 2:
            a = [self.canon(x) for x in n["a"]]
            if None in a:
                return None
            if n["n"] in ("is_uplo_equal", "is_symmetry_equal"):
                a.sort()
            return "%s(%s)" % (n["n"], ",".join(a))
        return None

    def sizeish(self, a):
        return a is not None and ("." in a or a in self.fld)

    def sizefact(self, x, y, same, s):
        a, b = self.canon(x), self.canon(y)
        if a is None or b is None or not (self.sizeish(a) or self.sizeish(b)):
            return None
        if self.tracked(a) or self.tracked(b):
            return None
        a, b = sorted((a, b))
        if a == b:
            return s if same else None
        if same:
            if ("ne", a, b) in s:
                return None
            if a.startswith("#") and any(e[0] == "eq" and e[2] == b and e[1].startswith("#") and e[1] != a for e in s):
                return None
            return s | {("eq", a, b)}
        if ("eq", a, b) in s:
            return None
        if b.split(".")[-1] in ("uplo", "order", "symm", "dfnt", "diag"):
            return s | {("ne", a, b)}
        return s

    def cond(self, n, s, truth):
        m = strip(n)
        if m["k"] == "Bin" and m["op"] in FLIP:
            a, b = self.canon(m["x"]), self.canon(m["y"])
            if a is not None and b is not None and (self.sizeish(a) or self.sizeish(b)):
                op = m["op"] if truth else NEG[m["op"]]
                if op in (">", ">="):
                    a, b, op = b, a, FLIP[op]
                return s | {("rel", a, op, b)}
            return s
        if m["k"] == "Call" and m.get("n") in PRED:
            c = self.canon(m)
            if c is not None:
                if ("t", c, not truth) in s:
                    return None
                return s | {("t", c, truth)} if truth or m["n"] == "is_hermitian" else s
        return super().cond(n, s, truth)


def eqclosure(s):
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    for e in s:
        if e[0] == "eq":
            par[find(e[1])] = find(e[2])
    return find


def linear(c):
    """canonical text -> {atom: coefficient} (sums and differences only)"""
    if c.startswith("#"):
        try:
            return {"1": Fraction(int(c[1:]))}
        except ValueError:
            return {c: Fraction(1)}
    if c.startswith("(") and c.endswith(")"):
        d = 0
        for i, ch in enumerate(c[1:-1], 1):
            d += (ch == "(") - (ch == ")")
            if d == 0 and ch in "+-" and i > 1:
                a, b = linear(c[1:i]), linear(c[i + 1:-1])
                out = dict(a)
                for k, v in b.items():
                    out[k] = out.get(k, 0) + (v if ch == "+" else -v)
                return out
    return {c: Fraction(1)}


def difference(a, b):
    out = linear(a)
    for k, v in linear(b).items():
        out[k] = out.get(k, 0) - v
    return {k: v for k, v in out.items() if v}


def spanned(fact, s):
    """fact follows linearly from the equalities in s"""
    rows = []

    def reduce(v):
        for p, r in rows:
            if p in v:
                m = v[p] / r[p]
                for k, x in r.items():
                    v[k] = v.get(k, 0) - m * x
                v = {k: x for k, x in v.items() if x}
        return v
    for e in s:
        if e[0] == "eq":
            v = reduce(difference(e[1], e[2]))
            if v:
                rows.append((sorted(v)[0], v))
    return not reduce(difference(fact[1], fact[2]))


def holds(fact, s):
    if fact[0] == "eq":
        f = eqclosure(s)
        return f(fact[1]) == f(fact[2]) or spanned(fact, s)
    if fact[0] == "in":
        f = eqclosure(s)
        r = f(fact[1])
        if any(f("#%s" % v) == r for v in fact[2]):
            return True
        return False
    if fact[0] == "rel":
        f = eqclosure(s)
        a, op, b = f(fact[1]), fact[2], f(fact[3])
        if op == "<=" and a == b:
            return True
        return any(e[0] == "rel" and f(e[1]) == a and f(e[3]) == b and (e[2] == op or e[2] == "<") for e in s)
    if fact[0] == "t":
        if tuple(fact) in s:
            return True
        # predicate with a constant false/true argument replaced by equal ones
        f = eqclosure(s)
        return any(e[0] == "t" and e[2] == fact[2] and norm(e[1], f) == norm(fact[1], f) for e in s)
    return tuple(fact) in s


def norm(c, f):
    if "(" not in c:
        return f(c)
    h, a = c.split("(", 1)
    return h + "(" + ",".join(sorted(f(x) for x in a.rstrip(")").split(","))) + ")"


def extract(ctx):
    """(class, method, arity) -> list of exit fact sets"""
    P = ctx.program(*opclass.PATTERNS)
    C = opclass.Classes(P)
    out, where, fields, broken = {}, {}, {}, 0
    for q in C.concrete():
        cl = SizeClient(C, q)
        for f in C.all_methods(q):
            if f.raw.get("acc", 0) != 0 or f.n.startswith("~") or f.n == base_name(q) or f.n == "do_all":
                continue
            cl.pidx = {p["id"]: i for i, p in enumerate(f.p)}
            try:
                ex = Flow(cl).run(f, {frozenset()})
            except AnalysisBroken:
                broken += 1
                continue
            sig = ",".join(base_name(f.T[p["t"]]) for p in f.p)
            key = "%s::%s(%s)" % (base_name(q), f.n, sig)
            out[key] = ex
            where[key] = f
            fields[key] = set(cl.fld)
    return out, where, fields, broken


def run(ctx):
    table = json.load(open(TABLE))
    ex, where, fields, broken = extract(ctx)
    ctx.counts["methods_undecided"] = broken
    for key, reqs in sorted(table.items()):
        if key not in ex:
            ctx.count("methods_absent")
            continue
        ctx.count("methods")
        for r in reqs:
            roots = set(re.findall(r"(?<![.\w#$])[A-Za-z_]\w*(?!\w*\()", " ".join(map(str, r["fact"][1:]))))
            if (roots - {"True", "False"}) - fields[key]:
                ctx.count("members_absent")
                continue
            fact, cond = r["fact"], [tuple(c) for c in r.get("when", [])]
            ctx.oblige("preconditions")
            for s in ex[key]:
                if cond and not all(c in s for c in cond):
                    continue
                if not holds(fact, s):
                    f = where[key]
                    ctx.violate("%s:%s" % (key, "|".join(map(str, fact))), f.where(),
                                "%s can complete without %s%s" % (key, show(fact), (" when " + " and ".join(show(c) for c in cond)) if cond else ""))
                    break
    ctx.floor("preconditions", 200)


def show(f):
    if f[0] == "eq":
        return "%s == %s" % (f[1], f[2])
    if f[0] == "in":
        return "%s in %s" % (f[1], "/".join(map(str, f[2])))
    if f[0] == "rel":
        return "%s %s %s" % (f[1], f[2], f[3])
    if f[0] == "t":
        return "%s%s" % ("" if f[2] else "not ", f[1])
    return " ".join(map(str, f))
