"""Constant propagation in the domain of multivariate polynomials with rational coefficients.

Straight-line numeric code, loops with constant bounds and calls of known
helpers are folded over the syntax tree; unknown inputs are indeterminates.
"""
from fractions import Fraction
from decimal import Decimal, getcontext
import math, re
from facts import walk, strip, val, text, AnalysisBroken

getcontext().prec = 60


class Poly:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m or {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(x):
        return Poly({((x, 1),): Fraction(1)})

    def isconst(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def c(self):
        return self.m.get((), Fraction(0)) if self.isconst() else None

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            s = m.get(k, 0) + v
            if s: m[k] = s
            else: m.pop(k, None)
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                d = dict(a)
                for v, e in b:
                    d[v] = d.get(v, 0) + e
                k = tuple(sorted(d.items()))
                s = m.get(k, 0) + x * y
                if s: m[k] = s
                else: m.pop(k, None)
        return Poly(m)

    def __eq__(self, o):
        return self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def diff(self, v):
        m = {}
        for k, c in self.m.items():
            d = dict(k)
            e = d.get(v, 0)
            if e:
                if e == 1: d.pop(v)
                else: d[v] = e - 1
                kk = tuple(sorted(d.items()))
                m[kk] = m.get(kk, 0) + c * e
        return Poly({k: c for k, c in m.items() if c})

    def __repr__(self):
        return " + ".join("%s*%s" % (c, "*".join("%s^%d" % x for x in k)) for k, c in sorted(self.m.items(), key=str)) or "0"


class Arr:
    def __init__(self):
        self.d = {}

    def get(self, i):
        return self.d.get(i)


class Obj:
    def __init__(self):
        self.f = {}


class Stop(Exception):
    pass


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


def rsqrt(c):
    if c < 0:
        raise AnalysisBroken("sqrt of a negative constant")
    d = (Decimal(c.numerator) / Decimal(c.denominator)).sqrt()
    f = Fraction(d)
    return f.limit_denominator(10 ** 40)


class Interp:
    MAXSTEPS = 400000

    def __init__(self, P):
        self.P = P
        self.steps = 0
        self.defs = {}
        for f in P.functions:
            if f.tm != "pat":
                self.defs.setdefault(f.q, []).append(f)
        self.glob = {}

    def unsupported(self, what, n=None):
        raise AnalysisBroken("polynomial propagation: unsupported %s (line %s)" % (what, n.get("l") if n else "?"))

    # ---- values
    def call(self, f, args, this=None):
        env = {}
        for p, a in zip(f.p, args):
            env[p["id"]] = a
        if this is not None:
            env["this"] = this
        try:
            self.st(f.b, env, f)
        except Ret as r:
            return r.v
        return None

    def lval(self, n, env, f):
        """(container, key) of an assignable expression"""
        n = strip(n)
        k = n["k"]
        if k == "Ref":
            if n.get("d") in ("v", "p"):
                return env, n["id"]
            return self.glob, n.get("q")
        if k == "Idx" or (k == "OpCall" and n["op"] == "[]"):
            b, i = (n["b"], n["i"]) if k == "Idx" else (n["a"][0], n["a"][1])
            o = self.ev(b, env, f, create=Arr)
            i = self.num(i, env, f)
            if isinstance(o, Arr):
                return o.d, i
            if isinstance(o, list):
                return o, i
            self.unsupported("subscript of " + type(o).__name__, n)
        if k == "Mem":
            o = self.ev(n["b"], env, f)
            if isinstance(o, Obj):
                return o.f, n["n"]
            self.unsupported("member access", n)
        if k == "Un" and n["op"] == "*":
            o = self.ev(n["e"], env, f)
            if isinstance(o, Arr):
                return o.d, 0
        self.unsupported("assignment target " + k, n)

    def get(self, c, key):
        if isinstance(c, dict):
            return c.get(key)
        return c[key]

    def num(self, n, env, f):
        v = self.ev(n, env, f)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Poly) and v.isconst() and v.c().denominator == 1:
            return int(v.c())
        self.unsupported("non-constant index/bound", n)

    def isint(self, n, f):
        return f.t(n) in ("int", "unsigned long", "unsigned int", "long", "size_t", "esint", "unsigned long long", "long long", "short", "bool", "const int", "const unsigned long")

    def ev(self, n, env, f, create=None):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisBroken("polynomial propagation: too many steps")
        k = n["k"]
        if k in ("Cast", "DefArg"):
            return self.ev(n["e"], env, f, create)
        if k in ("Int", "Bool", "Chr"):
            return Poly.const(int(n["v"]))
        if k == "Flt":
            return Poly.const(Fraction(str(n["v"])))
        if k == "Ref":
            if n.get("d") in ("v", "p"):
                r = env.get(n["id"])
                if r is None and create:
                    r = env[n["id"]] = create()
                if r is None:
                    if val(n) is not None:
                        return Poly.const(val(n))
                    self.unsupported("read of unassigned %s" % n["n"], n)
                return r
            if val(n) is not None:
                return Poly.const(val(n))
            q = n.get("q")
            if q not in self.glob:
                g = self.P.globals.get(q)
                if g is None or not g["var"].get("i"):
                    self.unsupported("global %s" % q, n)

                class F:  # types of the defining unit
                    T = g["T"]
                    @staticmethod
                    def t(x, T=g["T"]): return T[x.get("t", 0)]
                self.glob[q] = self.ev(g["var"]["i"], {}, F)
            return self.glob[q]
        if k == "This":
            return env.get("this")
        if k == "Init":
            c = n["c"]
            if len(c) == 1 and c[0]["k"] == "Init" and "array" in f.t(n):
                return self.ev(c[0], env, f)
            a = Arr()
            for i, x in enumerate(c):
                a.d[i] = self.ev(x, env, f)
            return a
        if k == "Ctor":
            if len(n["a"]) == 1:
                return self.ev(n["a"][0], env, f)
            self.unsupported("constructor", n)
        if k in ("Idx", "Mem") or (k == "OpCall" and n["op"] == "[]"):
            c, key = self.lval(n, env, f)
            r = self.get(c, key)
            if r is None:
                t = f.t(n)
                if create or "[" in t or "array" in t:
                    r = Arr()
                    c[key] = r
                    return r
                self.unsupported("read of unassigned %s" % text(n), n)
            return r
        if k == "Cond":
            return self.ev(n["x"] if self.truth(n["e"], env, f) else n["y"], env, f)
        if k == "Un":
            op = n["op"]
            if op in ("++", "--"):
                c, key = self.lval(n["e"], env, f)
                old = self.get(c, key)
                new = old + Poly.const(1 if op == "++" else -1)
                c[key] = new
                return old if n.get("post") else new
            if op == "&":
                x = strip(n["e"])
                return self.ev(n["e"], env, f, create=Arr)
            v = self.ev(n["e"], env, f)
            if op == "-":
                return -v
            if op == "+":
                return v
            if op == "!":
                return Poly.const(0 if v.c() else 1)
            if op == "*" and isinstance(v, Arr):
                return v.d[0]
            self.unsupported("operator " + op, n)
        if k == "Bin":
            op = n["op"]
            if op == ",":
                self.ev(n["x"], env, f)
                return self.ev(n["y"], env, f)
            if op == "=":
                v = self.ev(n["y"], env, f)
                c, key = self.lval(n["x"], env, f)
                c[key] = v
                return v
            if op in ("+=", "-=", "*=", "/="):
                v = self.ev(n["y"], env, f)
                c, key = self.lval(n["x"], env, f)
                old = self.get(c, key)
                if old is None:
                    self.unsupported("update of unassigned %s" % text(n["x"]), n)
                c[key] = self.arith(op[0], old, v, n, f)
                return c[key]
            if op in ("&&", "||"):
                t = self.truth(n["x"], env, f)
                if op == "&&":
                    return Poly.const(1 if t and self.truth(n["y"], env, f) else 0)
                return Poly.const(1 if t or self.truth(n["y"], env, f) else 0)
            x, y = self.ev(n["x"], env, f), self.ev(n["y"], env, f)
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if isinstance(x, Poly) and isinstance(y, Poly) and x.isconst() and y.isconst():
                    a, b = x.c(), y.c()
                    return Poly.const(int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]))
                self.unsupported("comparison of indeterminates", n)
            if isinstance(x, Arr) or isinstance(y, Arr):
                self.unsupported("pointer arithmetic", n)
            if op == "/" and self.isint(n["x"], f) and self.isint(n["y"], f) and self.isint(n, f):
                a, b = int(x.c()), int(y.c())
                return Poly.const(int(math.trunc(Fraction(a, b))))
            if op == "%":
                return Poly.const(int(x.c()) % int(y.c()))
            return self.arith(op, x, y, n, f)
        if k == "Call":
            a = [x for x in n["a"]]
            if n.get("n") in ("sqrt",) and len(a) == 1:
                v = self.ev(a[0], env, f)
                if v.isconst():
                    return Poly.const(rsqrt(v.c()))
                self.unsupported("sqrt of indeterminate", n)
            if n.get("n") == "pow" and len(a) == 2:
                v, e = self.ev(a[0], env, f), self.ev(a[1], env, f)
                if e.isconst() and e.c().denominator == 1 and 0 <= e.c() < 12:
                    r = Poly.const(1)
                    for _ in range(int(e.c())):
                        r = r * v
                    return r
            if n.get("n") == "size" and n.get("o") is not None:
                o = self.ev(n["o"], env, f)
                if isinstance(o, Arr):
                    return Poly.const(len(o.d))
            ds = [d for d in self.defs.get(n.get("q"), []) if len(d.p) == len(a)]
            if len(ds) > 1:
                ds2 = [d for d in ds if "%s:%d" % (d.f, d.l) in (n.get("pl"), n.get("dl"))] or ds
                ta = n.get("ta")
                ds3 = [d for d in ds2 if ta is not None and d.raw.get("ta") == ta] or ds2
                ds = ds3
            if ds:
                args = [self.ev(x, env, f, create=Arr) for x in a]
                this = self.ev(n["o"], env, f) if n.get("o") is not None and n["o"]["k"] != "This" else env.get("this")
                return self.call(ds[0], args, this)
            self.unsupported("call of %s" % n.get("q"), n)
        self.unsupported("expression " + k, n)

    def arith(self, op, x, y, n, f):
        if op == "+": return x + y
        if op == "-": return x - y
        if op == "*": return x * y
        if op == "/":
            if y.isconst() and y.c() != 0:
                return x * Poly.const(1 / y.c())
            self.unsupported("division by indeterminate", n)
        self.unsupported("operator " + op, n)

    def truth(self, n, env, f):
        v = self.ev(n, env, f)
        if isinstance(v, Poly) and v.isconst():
            return v.c() != 0
        self.unsupported("condition on indeterminate", n)

    def st(self, n, env, f):
        k = n["k"]
        if k == "Block":
            for c in n["c"]:
                self.st(c, env, f)
        elif k == "Decl":
            for v in n["c"]:
                if v["k"] != "Var":
                    continue
                if v.get("i"):
                    i = v["i"]
                    if i["k"] == "Ctor" and not i["a"]:
                        env[v["id"]] = Arr()
                    else:
                        r = self.ev(i, env, f, create=Arr)
                        t = f.t(v)
                        if isinstance(r, Arr) and i["k"] == "Init" and ("[" in t):
                            m = re.search(r"\[(\d+)\]", t)
                            if m:
                                for j in range(int(m.group(1))):
                                    r.d.setdefault(j, Poly.const(0))
                        env[v["id"]] = r
                elif "[" in f.t(v) or "array" in f.t(v):
                    env[v["id"]] = Arr()
                else:
                    env.pop(v["id"], None)
        elif k == "For":
            if n.get("init"):
                self.st(n["init"], env, f)
            while n.get("e") is None or self.truth(n["e"], env, f):
                try:
                    self.st(n["b"], env, f)
                except Brk:
                    break
                except Cnt:
                    pass
                if n.get("inc"):
                    self.ev(n["inc"], env, f)
        elif k == "While":
            while self.truth(n["e"], env, f):
                try:
                    self.st(n["b"], env, f)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == "Range":
            a = self.ev(n["e"], env, f)
            for i in sorted(a.d):
                env[n["var"]["id"]] = a.d[i]
                try:
                    self.st(n["b"], env, f)
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == "If":
            if n.get("init"):
                self.st(n["init"], env, f)
            b = n.get("th") if self.truth(n["e"], env, f) else n.get("el")
            if b:
                self.st(b, env, f)
        elif k == "Return":
            raise Ret(self.ev(n["e"], env, f) if n.get("e") else None)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cnt()
        elif k in ("Null", "Static_assert"):
            pass
        else:
            self.ev(n, env, f)
