"""Model of the linear-algebra operation classes (math::operations, gpu::operations).

For every concrete class (with inherited methods, virtual calls on `this` resolved to the override of
that class and inlined) every public method is run through the path engine.  Facts on a path:

  ("nn", p)        pointer/unique_ptr member p (or parameter) is not null
  ("is", p, v)     member p has the constant value v  (flags: bool, char)
  ("not", p, v)    member p differs from the constant v
  ("eq", a, b)     the two size/order expressions are equal (error branches excluded)
"""
from facts import walk, kids, strip, val, text, AnalysisBroken
from flow import FactClient, Flow

PATTERNS = ["src/math/operations/*", "src/gpu/operations/*", "src/wrappers/*/operations/*"]
NS = ("espreso::math::operations::", "espreso::gpu::operations::")


def base_name(s):
    return s.split("<")[0].split("::")[-1].strip()


class Classes:
    """concrete operation classes and their methods"""

    def __init__(self, P):
        self.P = P
        self.rec = {}
        for q, rs in P.records.items():
            if not q.startswith(NS):
                continue
            pats = [r for r in rs if r.get("tp")] or rs
            self.rec[q] = pats[0]
        self.byname = {}
        for q in self.rec:
            self.byname.setdefault((q.split("::")[1], base_name(q)), q)
        self.methods = {}
        best = {}
        for f in P.functions:
            if f.cls in self.rec and f.b is not None and f.tm in ("inst", ""):
                if "complex" in f.cta:
                    continue
                key = (f.cls, f.n, tuple(f.T[p["t"]] if isinstance(p["t"], int) else p["t"] for p in f.p))
                best.setdefault(key, f)
        for (c, n, sig), f in sorted(best.items(), key=lambda x: str(x[0])):
            self.methods.setdefault(c, []).append(f)

    def bases(self, q):
        out = []
        ns = q.split("::")[1]
        for b in self.rec[q]["bases"]:
            bq = self.byname.get((ns, base_name(b)))
            if bq:
                out.append(bq)
        return out

    def chain(self, q):
        out, todo = [], [q]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo += self.bases(c)
        return out

    def all_methods(self, q):
        """methods of the concrete class: overrides hide base versions (by name and arity)"""
        out, seen = [], set()
        for c in self.chain(q):
            add = []
            for f in self.methods.get(c, []):
                k = (f.n, len(f.p), tuple(base_name(f.T[p["t"]]) for p in f.p if isinstance(p["t"], int)))
                if k not in seen:
                    add.append((k, f))
            for k, f in add:
                seen.add(k)
                out.append(f)
        return out

    def fields(self, q):
        out = {}
        for c in self.chain(q):
            for fl in self.rec[c]["fields"]:
                out.setdefault(fl["n"], fl)
        return out

    def concrete(self):
        """classes that can be instantiated (nothing derives from them) and have method bodies"""
        derived = set()
        for q in self.rec:
            for b in self.bases(q):
                if any(self.methods.get(c) for c in [q]):
                    derived.add(b)
        return [q for q in sorted(self.rec) if q not in derived and self.all_methods(q)]


def const(n):
    """constant of an expression incl. T{0}, floating literals, characters"""
    n = strip(n)
    if n is None:
        return None
    v = val(n)
    if v is not None:
        return v
    if n["k"] in ("Flt", "Chr", "Bool"):
        return n["v"]
    if n["k"] in ("Init",) and len(n["c"]) == 1:
        return const(n["c"][0])
    if n["k"] == "Init" and not n["c"]:
        return 0
    if n["k"] == "Ctor" and len(n["a"]) >= 1 and "complex" in (n.get("q") or ""):
        return const(n["a"][0])
    if n["k"] == "Un" and n["op"] == "-":
        v = const(n["e"])
        return None if v is None else -v
    return None


SIZES = ("nrows", "ncols", "size", "order", "nnz", "uplo", "ld", "symm", "diag")


class OpClient(FactClient):
    max_states = 3000
    max_inline = 5
    sizes = False
    inline_lambdas = True
    resolve_aliases = True
    pidx = {}           # parameter id -> position (of the analysed method)

    def sizefact(self, x, y, same, s):
        return None

    def __init__(self, C, q):
        super().__init__(C.P)
        self.C, self.q = C, q
        self.meth = {}
        for f in C.all_methods(q):
            self.meth.setdefault(f.n, []).append(f)
        self.fld = C.fields(q)
        self.log = None         # callback(kind, node, name, state)
        # inputs: raw pointer members assigned from a parameter in some method; flags: bool/char members
        self.inputs, self.flags, self.coefs = set(), set(), set()
        for n, fl in self.fld.items():
            t = fl["t"].replace("const ", "").strip()
            if t in ("bool", "char"):
                self.flags.add(n)
            elif n in ("alpha", "beta", "mode") or t.startswith(("type-parameter", "Treal", "typename", "utils::")):
                self.coefs.add(n)
        for f in C.all_methods(q):
            for x in walk(f.b):
                if x["k"] == "Bin" and x["op"] == "=" and x["x"]["k"] == "Mem" and x["x"]["b"]["k"] == "This":
                    fl = self.fld.get(x["x"]["n"])
                    y = strip(x["y"])
                    if fl and fl["t"].endswith("*") and y["k"] == "Ref" and y.get("d") == "p":
                        self.inputs.add(x["x"]["n"])

    # -- names
    def path(self, n):
        """member path rooted at this / a parameter, or None"""
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "Mem":
            b = n["b"]
            if b["k"] == "This":
                return n["n"]
            p = self.path(b)
            return None if p is None else p + "." + n["n"]
        if n["k"] == "OpCall" and n["op"] in ("->", "*") and len(n["a"]) == 1:
            return self.path(n["a"][0])
        if n["k"] == "Un" and n["op"] in ("*", "&"):
            return self.path(n["e"])
        if n["k"] == "Call" and n.get("n") == "get" and n.get("o") is not None and not n["a"]:
            return self.path(n["o"])
        if n["k"] == "Ref" and n.get("d") == "p":
            return "$%s" % self.pidx.get(n.get("id"), n["n"])
        return None

    def definition(self, call):
        o = call.get("o")
        if o is not None and strip(o)["k"] == "This":
            c = [f for f in self.meth.get(call.get("n"), []) if len(f.p) == len(call["a"])]
            if len(c) > 1:
                # overloads: same declared location or same parameter types
                m = [f for f in c if "%s:%d" % (f.f, f.l) in (call.get("dl"), call.get("pl"))]
                if not m:
                    at = [base_name(self.ty(a)) for a in call["a"]]
                    m = [f for f in c if [base_name(f.T[p["t"]]) for p in f.p] == at]
                c = m or c
            return c[0] if c else None
        return super().definition(call)

    def ty(self, n):
        t = n.get("t", 0)
        return t if isinstance(t, str) else self.func.T[t]

    def inline(self, call, f):
        if f.cls in self.C.chain(self.q):
            return True
        if f.cls is None and f.q.startswith(NS):
            return True
        # any helper that only refuses its arguments
        return f.q.startswith("espreso::") and f.b is not None and not f.q.startswith(("espreso::eslog", "espreso::stacktimer")) \
            and self.guard(f)

    def guard(self, f):
        """helper function whose body reports an error about its arguments (cached)"""
        g = self.__dict__.setdefault("_guard", {})
        k = (f.f, f.l)
        if k not in g:
            g[k] = bool(f.p) and len(list(walk(f.b))) < 200 and any(x["k"] == "Call" and self.noreturn(x) for x in walk(f.b)) \
                and not any(x["k"] in ("For", "While", "Do", "Range") for x in walk(f.b))
        return g[k]

    # -- facts
    def ptr(self, n):
        """name if n denotes a tracked pointer"""
        p = self.path(n)
        if p is None:
            return None
        t = self.ty(strip(n))
        if t.endswith("*") or "unique_ptr<" in t or "shared_ptr<" in t:
            return p
        return None

    def nullness(self, n):
        """(name, truth when nonnull) if n tests a pointer"""
        n = strip(n)
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                if strip(b)["k"] == "Nul" or (val(b) == 0 and self.ptr(a)):
                    p = self.ptr(a)
                    if p:
                        return p, n["op"] == "!="
        if n["k"] == "OpCall" and n["op"] in ("==", "!=") and len(n["a"]) == 2:
            for a, b in ((n["a"][0], n["a"][1]), (n["a"][1], n["a"][0])):
                if strip(b)["k"] == "Nul":
                    p = self.ptr(a)
                    if p:
                        return p, n["op"] == "!="
        p = self.ptr(n)
        if p:
            return p, True
        if n["k"] == "Call" and n.get("n") == "operator bool" and n.get("o") is not None:
            p = self.ptr(n["o"])
            if p:
                return p, True
        return None

    def cond(self, n, s, truth):
        m = strip(n)
        z = self.nullness(m)
        if z:
            p, nonnull = z
            if not self.tracked(p):
                return s
            if truth == nonnull:
                return s | {("nn", p)} if ("null", p) not in s else None
            return s | {("null", p)} if ("nn", p) not in s else None
        if m["k"] in ("Bin", "OpCall") and m["op"] in ("==", "!=") and (m["k"] == "Bin" or len(m["a"]) == 2):
            if m["k"] == "OpCall":
                m = {"k": "Bin", "op": m["op"], "x": m["a"][0], "y": m["a"][1], "t": m.get("t")}
            same = (m["op"] == "==") == truth
            a, b = const(m["x"]), const(m["y"])
            if a is not None and b is not None:
                return s if (a == b) == same else None
            if self.sizes:
                r = self.sizefact(m["x"], m["y"], same, s)
                if r is not None:
                    return r
            for a, b in ((m["x"], m["y"]), (m["y"], m["x"])):
                p, v = self.path(a), const(b)
                if p is not None and v is not None and self.path(b) is None and self.tracked(p):
                    if same:
                        if ("not", p, v) in s or any(x[0] == "is" and x[1] == p and x[2] != v for x in s):
                            return None
                        return s | {("is", p, v)}
                    if ("is", p, v) in s:
                        return None
                    return s | {("not", p, v)}
        p = self.path(m)
        if p is not None and self.ty(m) in ("bool", "_Bool") and self.tracked(p):
            if ("is", p, int(not truth)) in s:
                return None
            return s | {("is", p, int(truth))}
        return s

    def tracked(self, p):
        return p in self.inputs or p in self.flags or p in self.coefs

    def kill(self, s, p):
        """p (and everything below it) gets a new value"""
        return frozenset(x for x in s if not (x[0] in ("nn", "null", "is", "not") and (x[1] == p or x[1].startswith(p + "."))))

    def expr(self, n, s):
        k = n["k"]
        # dereference
        if k == "Mem" and n["b"]["k"] != "This":
            self.deref(n, n["b"] if n.get("ar") else None, s)
        elif k == "Un" and n["op"] == "*":
            self.deref(n, n["e"], s)
        elif k == "OpCall" and n["op"] in ("->", "*") and len(n["a"]) == 1:
            self.deref(n, n["a"][0], s)
        elif k == "Call" and n.get("o") is not None and n.get("ar"):
            self.deref(n, n["o"], s)
        if k == "Mem" and n["b"]["k"] == "This" and self.log:
            self.log("read", n, n["n"], s)
        if (k == "Bin" and n["op"] == "=") or (k == "OpCall" and n["op"] == "=" and len(n["a"]) == 2):
            x, y = (n["x"], n["y"]) if k == "Bin" else n["a"]
            p = self.path(x)
            if p is not None:
                if self.log:
                    self.log("assign", n, p, s)
                s = self.kill(s, p)
                v = const(y)
                v = int(v) if isinstance(v, bool) else v
                ys = strip(y)
                if not self.tracked(p):
                    pass
                elif v is not None and not self.ty(strip(x)).endswith("*"):
                    s = s | {("is", p, v)}
                elif self.ptr(x):
                    if ys["k"] == "Un" and ys["op"] == "&" or ys["k"] == "New" or self.fresh(ys):
                        s = s | {("nn", p)}
                    elif ys["k"] == "Nul":
                        s = s | {("null", p)}
                    else:
                        r = self.path(ys)
                        if r is not None and (("nn", r) in s or r.startswith("$") and "." not in r):
                            s = s | {("nn", p)}
                if self.log:
                    self.log("write", n, p, s)
                    if v is not None:
                        self.log("set", n, (p, v), s)
        elif k == "Call" and n.get("o") is not None and n.get("n") in ("reset", "set", "alloc", "resize", "push_back", "emplace_back"):
            p = self.path(n["o"])
            if p is not None:
                if n["n"] == "reset":
                    s = self.kill(s, p)
                if self.log and self.ptr(n["o"]) is None:
                    self.log("write", n, p, s)
        return (s,)

    def fresh(self, y):
        y = strip(y)
        while y and y["k"] == "Ctor" and len(y["a"]) == 1:
            y = strip(y["a"][0])
        if y and y["k"] == "Call":
            q = y.get("q") or ""
            n = y.get("n") or ""
            if n in ("make_unique", "make_shared", "make", "get_singleton") or "make_unique" in q or "make_shared" in q:
                return True
        return False

    def deref(self, n, b, s):
        if b is None or not self.log:
            return
        p = self.ptr(b)
        if p in self.inputs:
            self.log("deref", n, p, s)


def analyse(C, q):
    """run all public methods; returns dict with derefs, sets, reads, writes"""
    cl = OpClient(C, q)
    out = {"deref": [], "set": [], "read": [], "write": [], "assign": [], "exit": {}}
    for f in C.all_methods(q):
        if f.raw.get("acc", 0) != 0 or f.n.startswith("~") or f.n == base_name(q):
            continue
        if any(f.n == x.n and False for x in ()):
            continue
        def log(kind, node, name, s, f=f):
            out[kind].append((f, node, name, s))
        cl.log = log
        try:
            ex = Flow(cl).run(f, {frozenset()})
        except AnalysisBroken as e:
            out.setdefault("broken", []).append((f, str(e)))
            continue
        out["exit"][(f.n, len(f.p), f.l)] = (f, ex)
    cl.log = None
    imp = {}
    while True:
        new = {}
        for (f, n, (p, v), s) in out["set"]:
            if p in cl.flags:
                k = ("is", p, v)
                c = frozenset(close(s, imp))
                new[k] = new[k] & c if k in new else c
        if new == imp:
            break
        imp = new
    out["imp"] = imp
    out["client"] = cl
    return out


def close(s, imp):
    """facts implied by the flags that hold in s"""
    s = set(s)
    while True:
        add = set()
        for x in list(s):
            if x[0] == "is" and x in imp:
                add |= imp[x]
            if x[0] == "not":
                c = [imp[k] for k in imp if k[1] == x[1] and k[2] != x[2]]
                if c:
                    add |= frozenset.intersection(*[frozenset(y) for y in c])
        if add <= s:
            return s
        s |= add
