"""Abstract interpretation of the solver drivers over linear combinations.

The abstract value of a vector (matrix) is a linear combination of symbolic base vectors (matrices): each assembly
and each solution of a linear system yields a fresh one.  Coefficients are rational functions of the parameters of
the scheme; as in random interpretation [Gulwani, Necula] each parameter is represented by a random rational number
and coefficients are compared by value.  No code of the application is run and no floating point number is involved.
"""
import random
from fractions import Fraction as Fr
from facts import strip, val

from symx import Undecided

ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=")
NUM = (int, Fr)


class Refused(Exception):
    """the driver rejects the scenario"""


class Broken(Exception):
    """the driver breaks down in the scenario"""


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def lit(v):
    try:
        return Fr(str(v))
    except ValueError:
        raise Undecided("literal %s" % v)


class Table:
    """interned contents of vectors: equal contents have an equal number"""

    def __init__(self):
        self.t, self.back = {}, []

    def id(self, content):
        k = frozenset((b, c) for b, c in content.items() if c)
        if k not in self.t:
            self.t[k] = len(self.back)
            self.back.append(dict(k))
        return self.t[k]


class Drive:
    """one run of a driver in one scenario"""

    def __init__(self, P, f, scenario, table):
        self.P, self.f, self.sc, self.tab = P, f, scenario, table
        self.rnd = scenario["random"]              # dotted name -> random rational
        self.store = dict(scenario.get("store", {}))
        self.content, self.flag = {}, {}
        self.sol = "initial"
        self.eff = {}
        self.events = []
        self.stored = {}
        self.nsolve = 0
        self.steps = 0
        self.assembled = set()
        self.frames = 0
        self.restarts = dict(scenario.get("restart", {}))
        self.saved = {}

    # ------------------------------------------------------------------ run
    def run(self):
        self.frames = 1
        env = {}
        for i, p in enumerate(self.f.p):
            loc = ("L", 1, p["id"])
            env[p["id"]] = loc
            t = p.get("t") or ""
            if p["n"] == "prev" or i == 1:
                self.store[loc] = ("obj", ("prev",)) if self.sc.get("prev") else None
            else:
                self.store[loc] = ("obj", ("step",))
        self.T = self.f.T
        try:
            self.block(self.f.b, env)
            return None
        except Ret as r:
            return r.args[0]

    # ------------------------------------------------------------------ statements
    def block(self, b, env):
        if b is None:
            return
        self.steps += 1
        if self.steps > 200000:
            raise Undecided("no end")
        k = b["k"]
        if k == "Block":
            for c in b["c"]:
                self.block(c, env)
        elif k == "Decl":
            for v in b["c"]:
                if v.get("k") == "Var":
                    self.decl(v, env)
        elif k == "Var":
            self.decl(b, env)
        elif k == "If":
            if b.get("init"):
                self.block(b["init"], env)
            if b.get("cv"):
                self.decl(b["cv"], env) if b["cv"].get("k") == "Var" else self.block(b["cv"], env)
            c = self.truth(self.ev(b["e"], env), b["e"])
            if c:
                self.block(b.get("th"), env)
            else:
                self.block(b.get("el"), env)
        elif k in ("While", "For", "Do"):
            if b.get("init"):
                self.block(b["init"], env)
            first = k == "Do"
            n = 0
            while first or b.get("e") is None or self.truth(self.ev(b["e"], env), b["e"]):
                first = False
                n += 1
                if n > 400:
                    raise Undecided("no end of a loop")
                try:
                    self.block(b.get("b"), env)
                except Brk:
                    break
                except Cont:
                    pass
                if b.get("inc"):
                    self.ev(b["inc"], env)
        elif k == "Switch":
            self.switch(b, env)
        elif k == "Return":
            raise Ret(self.ev(b["e"], env) if b.get("e") else None)
        elif k == "Break":
            raise Brk()
        elif k == "Continue":
            raise Cont()
        elif k == "Try":
            self.block(b.get("b"), env)
        elif k in ("Null", "Label"):
            if b.get("c"):
                self.block(b["c"], env)
        elif k == "OMP":
            raise Undecided("parallel region")
        elif k in ("Case", "Default"):
            if b.get("c"):
                self.block(b["c"], env)
        else:
            self.ev(b, env)

    def switch(self, n, env):
        v = self.ev(n["e"], env)
        body = []

        def flat(x):
            if x["k"] == "Block":
                for c in x["c"]:
                    flat(c)
            elif x["k"] in ("Case", "Default"):
                body.append(("label", x))
                if x.get("c"):
                    flat(x["c"])
            else:
                body.append(("stm", x))
        flat(n["b"])
        start = None
        for i, (kind, x) in enumerate(body):
            if kind == "label" and x["k"] == "Case":
                c = x.get("v")
                if c is None:
                    c = self.ev(x["e"], env)
                if c == v:
                    start = i
                    break
        if start is None:
            start = next((i for i, (kind, x) in enumerate(body) if kind == "label" and x["k"] == "Default"), None)
        if start is None:
            return
        try:
            for kind, x in body[start:]:
                if kind == "stm":
                    self.block(x, env)
        except Brk:
            pass

    def decl(self, v, env):
        loc = ("L", self.frames, v["id"], self.steps if v.get("static") else 0)
        env[v["id"]] = loc
        for k in [k for k in self.store if k[:len(loc)] == loc]:
            del self.store[k]
        if not v.get("i"):
            return
        t = self.type(v.get("t"))
        i = strip(v["i"])
        if i["k"] in ("Init", "ILE"):
            for j, x in enumerate(i.get("c", i.get("a", []))):
                self.store[loc + (j,)] = self.ev(x, env)
            self.store[loc] = ("obj", loc)
            return
        if i["k"] == "Ctor" and not (len(i["a"]) == 1 and self.scalar(t)):
            q = (i.get("q") or i.get("cls") or "")
            args = tuple(self.ev(a, env) for a in i["a"])
            self.store[loc] = ("sel",) + args if "Selection" in q or "Selection" in t else ("obj", loc)
            return
        if t.rstrip().endswith("&") and i["k"] in ("Ref", "Mem", "Idx"):
            l = self.lv(i, env)
            self.store[loc] = ("ref", l)
            return
        self.store[loc] = self.conv(self.ev(v["i"], env), t)

    def type(self, t):
        if isinstance(t, int):
            try:
                return self.T[t]
            except (IndexError, KeyError, TypeError):
                return ""
        return t or ""

    def scalar(self, t):
        return t.replace("const ", "").strip() in ("double", "float", "int", "bool", "long", "unsigned int", "unsigned long", "size_t", "esint")

    def conv(self, v, t):
        t = t.replace("const ", "").strip()
        if isinstance(v, Fr) and t in ("int", "long", "esint", "size_t", "unsigned int", "unsigned long"):
            return int(v)
        if isinstance(v, int) and not isinstance(v, bool) and t in ("double", "float"):
            return Fr(v)
        return v

    # ------------------------------------------------------------------ locations
    def lv(self, n, env):
        n = strip(n)
        k = n["k"]
        if k == "This":
            return self.this
        if k == "Ref":
            if n.get("id") in env:
                loc = env[n["id"]]
                v = self.store.get(loc)
                if isinstance(v, tuple) and v[:1] == ("ref",):
                    return v[1]
                return loc
            return ("g", (n.get("q") or n["n"]).replace("espreso::", ""))
        if k == "Mem":
            b = self.obj(n["b"], env)
            return b + (n["n"],)
        if k == "Idx":
            b = self.obj(n["b"], env)
            i = self.ev(n["i"], env)
            if not isinstance(i, int):
                raise Undecided("index")
            return b + (i,)
        if k == "OpCall" and n["op"] == "[]":
            b = self.obj(n["a"][0], env)
            i = self.ev(n["a"][1], env)
            if not isinstance(i, (int, str)):
                raise Undecided("index")
            return b + (i,)
        if k == "Un" and n["op"] == "*":
            return self.obj(n["e"], env)
        if k == "OpCall" and n["op"] in ("*", "->"):
            return self.obj(n["a"][0], env)
        if k == "Cond":
            return self.lv(n["x" if self.truth(self.ev(n["e"], env), n["e"]) else "y"], env)
        v = self.ev(n, env)
        if isinstance(v, tuple) and v[0] == "obj":
            return v[1]
        raise Undecided("location %s at line %s" % (k, n.get("l")))

    this = ("this",)

    def obj(self, n, env):
        """path of the object denoted by an expression (an object or a pointer to it)"""
        s = strip(n)
        if n.get("k") == "Cast" and "Dynamic" in n.get("ck", ""):
            v = self.ev(n, env)
        elif s["k"] == "This":
            return self.this
        elif s["k"] in ("Ref", "Mem", "Idx"):
            l = self.lv(s, env)
            v = self.store.get(l)
            if v is None and l not in self.store:
                return l
        else:
            v = self.ev(n, env)
        if isinstance(v, tuple) and v[0] == "obj":
            return v[1]
        if isinstance(v, tuple) and v[0] == "ref":
            return v[1]
        if v is None:
            raise Undecided("access through a null pointer at line %s" % n.get("l"))
        raise Undecided("object at line %s" % n.get("l"))

    def read(self, loc, t):
        if loc in self.store:
            v = self.store[loc]
            if isinstance(v, tuple) and v[0] == "ref":
                return self.read(v[1], t)
            return v
        if loc[-1] == "updated":
            return self.flag.get(loc[:-1], False)
        name = ".".join(str(x) for x in loc)
        if name in self.sc["values"]:
            return self.sc["values"][name]
        t = t.replace("const ", "").strip()
        if t in ("double", "float", "double &"):
            return self.rnd(name)
        if t in ("int", "long", "bool", "esint", "size_t", "unsigned int", "unsigned long", "int &", "bool &", "int64_t", "unsigned char", "char"):
            return ("?", name)
        if t.startswith("enum ") or t in self.P.enums:
            return ("?", name)
        return ("obj", loc)

    def write(self, loc, v, t):
        if loc[-1] == "updated":
            self.flag[loc[:-1]] = bool(v) if isinstance(v, NUM) else v
            return
        self.store[loc] = self.conv(v, t)

    def truth(self, v, n=None):
        if v is None:
            return False
        if isinstance(v, NUM):
            return v != 0
        if v[0] in ("obj", "sel"):
            return True
        raise Undecided("condition %s at line %s" % (v, (n or {}).get("l")))

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env):
        n0, n = n, strip(n)
        c = n0
        while c is not None and c.get("k") in ("Cast", "DefArg"):
            if c["k"] == "Cast" and "Dynamic" in c.get("ck", ""):
                v = self.ev(c["e"], env)
                if v is None:
                    return None
                if v == ("obj", ("prev",)):
                    t = self.type(c.get("t")).replace("espreso::", "").replace("const ", "").rstrip(" *&")
                    return v if t == self.sc["prev"] else None
                raise Undecided("dynamic cast")
            c = c.get("e")
        casts = []
        c = n0
        while c is not n and c.get("k") in ("Cast", "DefArg"):
            if c["k"] == "Cast":
                casts.append(self.type(c.get("t")))
            c = c["e"]
        v = self.ev1(n, env)
        for t in reversed(casts):
            v = self.conv(v, t)
        return v

    def ev1(self, n, env):
        k = n["k"]
        if k in ("Int", "Bool", "Chr", "Sizeof"):
            v = n.get("v")
            return int(v) if v is not None else ("?", k)
        if k == "Flt":
            return lit(n["v"])
        if k == "Str":
            return ("?", "string")
        if k in ("Nul", "Zero"):
            return None if k == "Nul" else 0
        if k == "This":
            return ("obj", self.this)
        if k == "Ref" and n.get("d") == "e":
            return n["v"]
        if k == "Ref" and n.get("d") == "f":
            return ("?", n.get("q"))
        if k in ("Ref", "Mem", "Idx"):
            return self.read(self.lv(n, env), self.type(n.get("t")))
        if k == "Un":
            o = n["op"]
            if o == "*":
                return self.read(self.lv(n, env), self.type(n.get("t")))
            if o == "&":
                return ("obj", self.lv(n["e"], env))
            if o in ("++", "--", "post++", "post--"):
                loc = self.lv(n["e"], env)
                old = self.read(loc, self.type(n["e"].get("t")))
                if not isinstance(old, NUM):
                    raise Undecided("increment of %s" % (old,))
                new = old + (1 if "++" in o else -1)
                self.write(loc, new, "")
                post = n.get("post") or o.startswith("post")
                return old if post else new
            v = self.ev(n["e"], env)
            if o == "!":
                return int(not self.truth(v, n))
            if isinstance(v, NUM):
                return -v if o == "-" else v if o == "+" else ("?", o)
            return ("?", o)
        if k == "Bin" or (k == "OpCall" and len(n["a"]) == 2 and n["op"] not in ("[]", "()")):
            x, y = (n["x"], n["y"]) if k == "Bin" else n["a"]
            return self.binary(n["op"], x, y, n, env)
        if k == "Cond":
            a = ("x", "y") if "x" in n else ("th", "el")
            return self.ev(n[a[0] if self.truth(self.ev(n["e"], env), n["e"]) else a[1]], env)
        if k == "OpCall":
            if n["op"] == "()":
                fv = self.ev(n["a"][0], env)
                if isinstance(fv, tuple) and fv[0] == "lambda":
                    return self.closure(fv, n["a"][1:], env)
                return ("?", "call")
            if n["op"] in ("[]", "*", "->"):
                return self.read(self.lv(n, env), self.type(n.get("t")))
            for a in n["a"]:
                self.ev(a, env)
            return ("?", "operator" + n["op"])
        if k == "Lambda":
            return ("lambda", id(n), n, env)
        if k == "Ctor":
            a = [self.ev(x, env) for x in n["a"]]
            q = n.get("q") or n.get("cls") or ""
            if "Selection" in q:
                return ("sel",) + tuple(a)
            return a[0] if len(a) == 1 else ("?", q)
        if k == "Call":
            return self.call(n, env)
        return ("?", k)

    def binary(self, o, x, y, n, env):
        if o in ASSIGN:
            t = self.type(n.get("t"))
            v = self.ev(y, env)
            xs = strip(x)
            if xs["k"] == "Ref" and isinstance(v, tuple) and v[0] in ("obj", "lambda") and xs.get("id") in env and not isinstance(self.store.get(env[xs["id"]]), tuple):
                loc = env[xs["id"]]
            else:
                loc = self.lv(x, env)
            if o != "=":
                old = self.read(loc, self.type(x.get("t")))
                v = self.arith(o[:-1], old, v, t)
            self.write(loc, v, self.type(x.get("t")))
            return v
        if o == ",":
            self.ev(x, env)
            return self.ev(y, env)
        a = self.ev(x, env)
        if o == "&&":
            if isinstance(a, tuple) and a[0] == "?":
                b = self.ev(y, env)
                if isinstance(b, NUM) and not b:
                    return 0
                raise Undecided("condition at line %s" % n.get("l"))
            return int(self.truth(a, x) and self.truth(self.ev(y, env), y))
        if o == "||":
            if isinstance(a, tuple) and a[0] == "?":
                b = self.ev(y, env)
                if isinstance(b, NUM) and b:
                    return 1
                raise Undecided("condition at line %s" % n.get("l"))
            return int(self.truth(a, x) or self.truth(self.ev(y, env), y))
        return self.arith(o, a, self.ev(y, env), self.type(n.get("t")))

    def arith(self, o, a, b, t):
        if isinstance(a, NUM) and isinstance(b, NUM):
            if o == "+":
                return a + b
            if o == "-":
                return a - b
            if o == "*":
                return a * b
            if o == "/":
                if b == 0:
                    raise Broken("a division by zero")
                if isinstance(a, int) and isinstance(b, int):
                    return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return Fr(a) / Fr(b)
            if o == "%" and isinstance(a, int) and isinstance(b, int) and b:
                return a % b
            if o in ("<", "<=", ">", ">=", "==", "!="):
                return int({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[o])
            if o in ("&", "|", "^") and isinstance(a, int) and isinstance(b, int):
                return {"&": a & b, "|": a | b, "^": a ^ b}[o]
        if o in ("==", "!=") and (a is None or b is None or (isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "obj")):
            if isinstance(a, tuple) and a[0] == "?" or isinstance(b, tuple) and b[0] == "?":
                return ("?", o)
            z = lambda v: None if isinstance(v, NUM) and v == 0 else v
            return int((z(a) == z(b)) == (o == "=="))
        return ("?", o)

    # ------------------------------------------------------------------ vectors
    def get(self, p):
        if p not in self.content:
            self.content[p] = {("undefined", ".".join(str(x) for x in p)): Fr(1)}
        return self.content[p]

    def num(self, v, what):
        if isinstance(v, NUM):
            return Fr(v)
        raise Undecided("%s is not known" % what)

    def tagged(self, content, sel):
        return {("sel", sel, b): c for b, c in content.items()}

    def linear(self, o, n, env):
        nm = n["n"]
        a = n["a"]
        p = o
        self.get(p)
        if nm == "set":
            v = self.num(self.ev(a[0], env), "set")
            self.content[p] = {} if v == 0 else {("ones",): v}
            return ("obj", p)
        if nm == "scale":
            v = self.num(self.ev(a[0], env), "scale")
            self.content[p] = {b: c * v for b, c in self.get(p).items()}
            return ("obj", p)
        if nm in ("copy", "add"):
            src = self.obj(a[0 if nm == "copy" else 1], env)
            alpha = Fr(1) if nm == "copy" else self.num(self.ev(a[0], env), "add")
            sels = tuple(x for x in (self.ev(x, env) for x in a[(1 if nm == "copy" else 2):] if x["k"] != "DefArg") if isinstance(x, tuple) and x[0] == "sel" and len(x) > 1)
            s = dict(self.get(src))
            if sels:
                part = any(x in ("solver", "postSolver") for x in src) and not any(x in ("solver", "postSolver") for x in p)
                if part:
                    s = {("part", sels, b): c for b, c in s.items()}
                    if nm == "copy":
                        self.content[p] = {}
                else:
                    s = self.tagged(s, sels)
                    if nm == "copy":
                        self.content[p] = {b: c for b, c in self.get(p).items() if b[0] != "undefined" and not (b[0] == "sel" and b[1] == sels)}
            elif nm == "copy":
                self.content[p] = {}
            r = dict(self.get(p))
            for b, c in s.items():
                r[b] = r.get(b, 0) + alpha * c
            self.content[p] = {b: c for b, c in r.items() if c}
            return ("obj", p)
        if nm == "apply":
            alpha = self.num(self.ev(a[0], env), "apply")
            x = self.get(self.obj(a[1], env))
            beta = self.num(self.ev(a[2], env), "apply")
            y = self.obj(a[3], env)
            r = {b: c * beta for b, c in self.get(y).items()} if beta else {}
            for m, cm in self.get(p).items():
                for b, c in x.items():
                    k = ("mul", m, b)
                    r[k] = r.get(k, 0) + alpha * cm * c
            self.content[y] = {b: c for b, c in r.items() if c}
            return None
        if nm in ("norm", "max", "absmax", "dot"):
            args = tuple(self.tab.id(self.get(self.obj(x, env))) for x in a)
            return self.sc["norm"](self, nm, self.tab.id(self.get(p)), args)
        if nm == "storeTo":
            d = self.obj(a[0], env)
            self.stored[".".join(str(x) for x in d)] = dict(self.get(p))
            return None
        if nm == "setFrom":
            d = self.obj(a[0], env)
            self.content[p] = {("from", ".".join(str(x) for x in d)): Fr(1)}
            return None
        if nm in ("store", "synchronize", "print", "printEigenValues", "size", "printNorm"):
            return ("?", nm)
        raise Undecided("operation %s at line %s" % (nm, n.get("l")))

    # ------------------------------------------------------------------ calls
    def call(self, n, env):
        nm, q = n.get("n") or "", n.get("q") or ""
        cls = (n.get("cls") or "").replace("espreso::", "").split("<")[0]
        a = n["a"]
        if q.startswith("espreso::eslog::"):
            if nm in ("globalerror", "error", "failure", "internalFailure"):
                raise Refused(n.get("l"))
            return ("?", nm)
        if nm in ("exit", "abort", "terminate"):
            raise Refused(n.get("l"))
        if nm in ("max", "min", "fabs", "abs", "pow", "isnan", "isinf") and (q.startswith("std::") or not n.get("o")):
            v = [self.ev(x, env) for x in a]
            if all(isinstance(x, NUM) for x in v):
                if nm in ("isnan", "isinf"):
                    return 0
                if nm == "pow":
                    return Fr(v[0]) ** v[1] if isinstance(v[1], int) or v[1].denominator == 1 else ("?", nm)
                return {"max": max, "min": min}[nm](v) if nm in ("max", "min") else abs(v[0])
            return ("?", nm)
        if cls.startswith(("Vector_", "Matrix_")) and n.get("o"):
            if nm == "copyPattern" and not a:
                self.fresh = getattr(self, "fresh", 0) + 1
                return ("obj", ("new", self.fresh))
            return self.linear(self.obj(n["o"], env), n, env)
        if cls in ("HeatTransfer", "StructuralMechanics", "Assembler", "Acoustic"):
            return self.assembler(n, env)
        if cls == "Precice":
            return self.precice(n, env)
        if n.get("o") and nm in ("set", "update", "solve", "postSolve", "rhs_without_dirichlet_norm", "rhs_norm", "storeSystem") and ("olver" in cls or "System" in cls):
            return self.solver(self.obj(n["o"], env), n, env)
        if nm == "updateSolution" and n.get("o"):
            return self.output(n, env)
        t = self.target(n)
        if t is not None:
            return self.enter(t, n, env)
        if nm == "evaluate" and n.get("o"):
            return self.rnd(".".join(str(x) for x in self.obj(n["o"], env)) + "()")
        for x in a:
            if x["k"] == "Lambda":
                raise Undecided("function object")
        return ("?", q or nm)

    def target(self, n):
        c = [f for f in self.P.byq.get(n.get("q") or "", []) if f.b and f.tm != "pat" and len(f.p) == len(n["a"])]
        c = [f for f in c if f.f.startswith("src/analysis/physics/")]
        return c[0] if len(c) == 1 else None

    def enter(self, f, n, env):
        new = {}
        self.frames += 1
        me = self.frames
        vals = []
        for p, x in zip(f.p, n["a"]):
            t = self.typeof(f, p.get("t"))
            loc = ("L", me, p["id"])
            if t.rstrip().endswith("&") and strip(x)["k"] in ("Ref", "Mem", "Idx") and not t.startswith("const "):
                l = self.lv(x, env)
                vals.append((p["id"], loc, ("ref", l)))
            else:
                v = self.ev(x, env)
                vals.append((p["id"], loc, self.conv(v, t.rstrip(" &"))))
        o = self.this
        if n.get("o"):
            o = self.obj(n["o"], env)
        for i, loc, v in vals:
            new[i] = loc
            self.store[loc] = v
        old, oldT, self.this, self.T = self.this, self.T, o, f.T
        if self.frames > 4000:
            raise Undecided("recursion")
        try:
            self.block(f.b, new)
            r = None
        except Ret as e:
            r = e.args[0]
        finally:
            self.this, self.T = old, oldT
        return r

    def typeof(self, f, t):
        if isinstance(t, int):
            try:
                return f.T[t]
            except (IndexError, KeyError):
                return ""
        return t or ""

    def closure(self, fv, args, env):
        n, denv = fv[2], fv[3]
        new = dict(denv)
        self.frames += 1
        for p, x in zip(n.get("p", []), args):
            loc = ("L", self.frames, p["id"])
            t = self.type(p.get("t"))
            v = ("ref", self.lv(x, env)) if t.rstrip().endswith("&") and strip(x)["k"] in ("Ref", "Mem", "Idx") else self.ev(x, env)
            new[p["id"]] = loc
            self.store[loc] = v
        try:
            self.block(n["b"], new)
        except Ret as e:
            return e.args[0]
        return None

    # ------------------------------------------------------------------ the environment of a driver
    def now(self):
        for m in ("time", "frequency"):
            v = self.store.get(("this", m, "current"))
            if v is not None and (m == self.sc.get("clock", "time")):
                return v
        raise Undecided("time of an assembly")

    POS = {7: ("step", "time", "K", "M", "f", "R", "dirichlet"),
           11: ("step", "frequency", "K", "M", "C", "ref", "imf", "reR", "imR", "re.dirichlet", "im.dirichlet")}

    def parts(self, n):
        """arguments of evaluate by their role"""
        if len(n["a"]) not in self.POS:
            raise Undecided("arguments of %s" % n["q"])
        return list(zip(self.POS[len(n["a"])], n["a"]))

    def assembler(self, n, env):
        nm = n["n"]
        if nm == "postProcessSolverSize":
            return 0
        if nm == "evaluate":
            t = self.now()
            vol = self.sc["depends"]
            done = []
            for p, x in self.parts(n):
                if p in ("step", "time", "frequency"):
                    continue
                v = self.ev(x, env)
                if v is None:
                    continue
                if not (isinstance(v, tuple) and v[0] == "obj"):
                    raise Undecided("argument %s of evaluate" % p)
                role = p
                o = v[1]
                if role in self.sc.get("constant", ()):
                    if role in self.assembled:
                        self.flag[o] = False
                        continue
                    self.content[o] = {(role,): Fr(1)}
                else:
                    self.content[o] = {self.base(role, t): Fr(1)}
                self.assembled.add(role)
                self.flag[o] = True
                done.append(role)
            self.events.append(("assemble", n.get("l"), t, tuple(done)))
            return None
        if nm in ("updateSolution", "nextIteration"):
            x = [self.obj(y, env) for y in n["a"][1:] if strip(y)["k"] != "Nul" and not isinstance(self.ev(y, env), NUM)]
            x = [y for y in x if y[-1] not in ("postM", "postB", "postX")]
            c = [self.get(y) for y in x]
            self.sol = tuple(self.tab.id(y) for y in c)
            self.events.append(("solution", n.get("l"), self.sol))
            return None
        if nm in ("getInitialTemperature", "getInitialVelocity"):
            o = self.obj(n["a"][0], env)
            self.content[o] = {(nm[3:],): Fr(1)}
            return None
        if nm in ("connect", "updateStress", "analyze", "printVolume"):
            return ("?", nm)
        t = self.target(n)
        return self.enter(t, n, env) if t is not None else ("?", nm)

    def base(self, role, t):
        d = self.sc["depends"].get(role, "ts")
        return (role,) + ((t,) if "t" in d else ()) + ((self.sol,) if "s" in d else ())

    def precice(self, n, env):
        nm = n["n"]
        if nm == "timeStep":
            return self.ev(n["a"][0], env)
        if nm == "requiresReadingCheckpoint":
            return int(self.restarts.pop(self.nsolve, False))
        if nm == "requiresWritingCheckpoint":
            return int(self.sc.get("checkpoint", False))
        return ("?", nm)

    def solver(self, o, n, env):
        nm = n["n"]
        A, b, d, x = (o + (m,) for m in ("A", "b", "dirichlet", "x"))
        if nm == "update":
            if self.flag.get(A) or self.flag.get(b) or self.flag.get(d):
                if self.flag.get(A):
                    self.eff[A] = dict(self.get(A))
                self.eff[b], self.eff[d] = dict(self.get(b)), dict(self.get(d))
            self.stale = self.flag.get(A) is not True and self.eff.get(A) != self.get(A)
            for m in (A, b, d):
                self.flag[m] = False
            self.events.append(("update", n.get("l")))
            return None
        if nm == "solve":
            k = self.nsolve
            self.nsolve += 1
            if k > 60:
                raise Broken("systems are solved without end")
            self.content[x] = {("x", k): Fr(1)}
            self.events.append(("solve", n.get("l"), dict(self.eff.get(A, {})), dict(self.eff.get(b, {})), dict(self.eff.get(d, {})), self.now()))
            return int(k not in self.sc.get("fails", ()))
        if nm.startswith("rhs"):
            return self.sc["norm"](self, "rhs", self.tab.id(self.eff.get(b, {})), ())
        return ("?", nm)

    def output(self, n, env):
        s = self.store.get(("step", "substep"))
        self.events.append(("output", n.get("l"), self.now(), s, self.sol, dict(self.stored)))
        return None
