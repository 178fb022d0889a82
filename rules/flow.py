"""Path-sensitive dataflow over the structured syntax tree.

A client supplies transfer functions on hashable abstract states; the engine
propagates *sets* of states through if/switch/loops/jumps to a fixpoint.
Calls to functions whose definition is known can be inlined (the client
decides), with parameters substituted by the argument expressions, so that a
rule sees through extracted helpers.
"""
from facts import walk, kids, strip, val, text, AnalysisBroken

NORETURN = {"espreso::eslog::error", "espreso::eslog::globalerror", "espreso::eslog::internalFailure", "espreso::eslog::failure",
            "exit", "std::exit", "abort", "std::abort", "_exit", "quick_exit", "std::terminate", "MPI_Abort", "__assert_fail"}


class Out:
    __slots__ = ("fall", "brk", "cont", "ret", "goto")

    def __init__(self):
        self.fall, self.brk, self.cont, self.ret = set(), set(), set(), set()


def subst(node, env, this=None, T=None):
    """copy of `node` with parameter references replaced (env: decl id -> node)"""
    if isinstance(node, list):
        return [subst(x, env, this, T) for x in node]
    if not isinstance(node, dict):
        return node
    k = node.get("k")
    if k == "Ref" and node.get("id") in env and node.get("d") in ("p", "v"):
        r = dict(env[node["id"]])
        if "l" in node:
            r["l"] = node["l"]
        return r
    if k == "This" and this is not None:
        return dict(this)
    out = {}
    for key, v in node.items():
        if isinstance(v, (dict, list)):
            out[key] = subst(v, env, this, T)
        elif T is not None and key == "t" and isinstance(v, int):
            out[key] = T[v]
        else:
            out[key] = v
    return out


WRITES = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


def pure(n):
    """expression without effects built from names, members, dereferences and arithmetic"""
    n = strip(n)
    if n is None:
        return False
    k = n["k"]
    if k in ("Int", "Flt", "Chr", "Bool", "Nul", "This", "Ref", "Sizeof"):
        return True
    if k == "Mem":
        return pure(n["b"])
    if k == "Un":
        return n["op"] in ("*", "&", "-", "+", "!", "~") and pure(n["e"])
    if k == "Bin":
        return n["op"] not in WRITES and n["op"] != "," and pure(n["x"]) and pure(n["y"])
    if k == "OpCall":
        return n["op"] in ("->", "*") and len(n["a"]) == 1 and pure(n["a"][0])
    if k == "Call":
        return n.get("o") is not None and not n["a"] and (n.get("n") in ("get", "size") or n.get("n", "").startswith(("get_", "is_"))) and pure(n["o"])
    if k == "Cast":
        return pure(n["e"])
    return False


def aliases(body, typ):
    """id -> initialiser of the locals that only name a pure expression (never modified, address not taken)"""
    init, bad = {}, set()
    for x in walk(body):
        k = x["k"]
        if k == "Var" and x.get("i") is not None:
            t = typ(x)
            if t in ("bool", "_Bool", "double", "float") or t.startswith("std::"):
                continue
            if pure(x["i"]):
                init[x["id"]] = x["i"]
        elif k == "Bin" and x["op"] in WRITES:
            r = strip(x["x"])
            if r["k"] == "Ref":
                bad.add(r.get("id"))
        elif k == "Un" and x["op"] in ("++", "--", "&"):
            r = strip(x["e"])
            if r["k"] == "Ref":
                bad.add(r.get("id"))
        elif k in ("Call", "Ctor"):
            for a in x["a"]:
                if a["k"] == "Ref":      # no lvalue-to-rvalue conversion: passed by reference
                    bad.add(a.get("id"))
        elif k in ("For", "Range", "While", "Do"):
            for y in walk(x.get("init") or x.get("var") or {"k": "Null"}):
                if y["k"] == "Var":
                    bad.add(y["id"])
    return {i: e for i, e in init.items() if i not in bad}


def unalias(body, typ):
    al = aliases(body, typ)
    if not al:
        return body
    for _ in range(4):
        al = {i: subst(e, {j: f for j, f in al.items() if j != i}) for i, e in al.items()}
    return subst(body, al)


def plain(q):
    """qualified name without template arguments"""
    out, depth = [], 0
    for ch in q:
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif not depth:
            out.append(ch)
    return "".join(out)


class Client:
    inline_lambdas = False
    resolve_aliases = False
    across = False          # resolve definitions in other translation units
    max_states = 4000
    max_inline = 4
    func = None

    def __init__(self, prog):
        self.P = prog
        self._defs = None
        self._byname = None

    # ---- client interface
    def expr(self, n, s):
        """visit an evaluated (sub)expression/declaration, post-order; return iterable of states"""
        return (s,)

    def cond(self, n, s, truth):
        """refine s assuming atomic condition n has the given truth; None = infeasible"""
        return s

    def switch(self, n, s, values):
        """values: list of case constants taken, or None for default (then `excl` are excluded)"""
        return s

    def nodefault(self, n, s, vals):
        return s

    def inline(self, call, func):
        return False

    def noreturn(self, call):
        return bool(call.get("nr")) or call.get("q") in NORETURN

    split_return = False

    def on_return(self, n, s):
        return (s,)

    def on_inline_return(self, n, s):
        return (s,)

    def on_bool_return(self, n, s, truth):
        return s

    def omp(self, n, s):
        return None

    # bool locals: remember the truth of a condition stored in a variable
    def track(self, ref):
        """key of a boolean variable to track or None"""
        return None

    def setbool(self, s, key, truth):
        return s

    def getbool(self, s, key):
        return None

    # ---- definitions by location
    def defs(self):
        if self._defs is None:
            d = {}
            for f in self.P.functions:
                key = "%s:%d" % (f.f, f.l)
                cur = d.get(key)
                # prefer non-pattern definitions
                if cur is None or (cur.tm == "pat" and f.tm != "pat"):
                    d[key] = f
            self._defs = d
        return self._defs

    def byname(self):
        """definitions in source files of functions declared in headers"""
        if self._byname is None:
            d = {}
            for f in self.P.functions:
                if f.tm != "pat" and f.b:
                    d.setdefault((f.q, len(f.p)), []).append(f)
                    if f.tm == "inst":      # one instance stands for the others
                        d.setdefault((plain(f.q), len(f.p)), []).append(f)
            self._byname = d
        return self._byname

    def definition(self, call, f=None):
        """the body behind a (statically bound) call or None; f: the caller, needed to separate overloads"""
        for k in (call.get("pl"), call.get("dl")):
            if k:
                g = self.defs().get(k)
                if g is not None and g.n == call.get("q", "").split("::")[-1].split("<")[0]:
                    return g
        if not self.across or "a" not in call:
            return None
        c = self.byname().get((call.get("q"), len(call["a"])), ())
        if c and f is not None and isinstance(call.get("sig"), int):
            sig = f.T[call["sig"]]
            c = [g for g in c if g.T[g.raw["sig"]] == sig]
        if not c and "<" in call.get("q", ""):
            c = self.byname().get((plain(call["q"]), len(call["a"])), ())
        if c and all((g.f, g.l) == (c[0].f, c[0].l) for g in c):
            return c[0]
        return None


class Flow:
    def __init__(self, client):
        self.c = client
        self.stack = []
        self.frames = []
        self.lam = {}

    def lambda_of(self, n):
        """the local lambda called by n, or None"""
        if not self.c.inline_lambdas or n["k"] != "OpCall" or n["op"] != "()" or not n["a"]:
            return None
        r = strip(n["a"][0])
        while r is not None and r["k"] in ("Ctor", "Temp", "Bind") and len(r.get("a", [])) == 1:      # std::function made of a lambda
            r = strip(r["a"][0])
        if r is not None and r["k"] == "Lambda" and len(self.stack) < self.c.max_inline:
            return r if not any(x is r for x in self.stack) else None
        if r is not None and r["k"] == "Ref" and r.get("id") in self.lam and len(self.stack) < self.c.max_inline:
            m = self.lam[r["id"]]
            return m if not any(x is m for x in self.stack) else None
        return None

    def body(self, f, env, this):
        b = f.b
        if self.c.resolve_aliases:
            b = unalias(b, lambda v: f.t(v))
        return subst(b, env, this, self.tt(f))

    def tt(self, f):
        return f.T if self.c.func is not None and f.T is not self.c.func.T else None

    def isbool(self, f):
        return f.ret in ("bool", "_Bool")

    # ------------------------------------------------------------ expressions
    def many(self, f, states):
        out = set()
        for s in states:
            for r in f(s):
                if r is not None:
                    out.add(r)
        if len(out) > self.c.max_states:
            raise AnalysisBroken("state explosion")
        return out

    def ev(self, n, states):
        """evaluate an expression; returns states after it"""
        if n is None or not states:
            return states
        k = n["k"]
        if k == "Bin" and n["op"] in ("&&", "||"):
            t = self.branch(n, states, True)
            f = self.branch(n, states, False)
            return t | f
        if k == "Cond":
            t = self.ev(n["x"], self.branch(n["e"], states, True))
            f = self.ev(n["y"], self.branch(n["e"], states, False))
            r = t | f
            return self.many(lambda s: self.c.expr(n, s), r)
        if k == "Lambda":
            return self.many(lambda s: self.c.expr(n, s), states)
        if k == "Bin" and n["op"] == "=" and self.c.track(n["x"]) is not None:
            key = self.c.track(n["x"])
            t = self.branch(n["y"], states, True)
            f = self.branch(n["y"], states, False)
            return self.many(lambda s: self.c.expr(n, s), {self.c.setbool(s, key, True) for s in t} | {self.c.setbool(s, key, False) for s in f})
        if k == "Bin" and n["op"] in ("&=", "|=") and self.c.track(n["x"]) is not None:
            key = self.c.track(n["x"])
            x = n["x"]
            if n["op"] == "&=":
                st = self.ev(n["y"], states) if False else states
                t = self.branch(x, self.branch(n["y"], states, True), True)
                f = self.branch(n["y"], states, False) | self.branch(x, self.branch(n["y"], states, True), False)
            else:
                t = self.branch(n["y"], states, True) | self.branch(x, self.branch(n["y"], states, False), True)
                f = self.branch(x, self.branch(n["y"], states, False), False)
            return self.many(lambda s: self.c.expr(n, s), {self.c.setbool(s, key, True) for s in t} | {self.c.setbool(s, key, False) for s in f})
        if k == "Bin" and n["op"] == "=":
            order = [n["y"], n["x"]]
        else:
            order = list(kids(n))
        for c in order:
            states = self.ev(c, states)
        if k in ("Call", "Ctor", "OpCall"):
            if self.c.noreturn(n):
                self.many(lambda s: self.c.expr(n, s), states)
                return set()
            if k == "Call" and len(self.stack) < self.c.max_inline:
                f = self.c.definition(n)
                if f is not None and f.b is not None and f not in self.stack and self.c.inline(n, f):
                    env = {}
                    for p, a in zip(f.p, n["a"]):
                        env[p["id"]] = a
                    this = n.get("o")
                    body = self.body(f, env, this)
                    self.stack.append(f)
                    self.frames.append(())
                    o = self.st(body, states)
                    self.frames.pop()
                    self.stack.pop()
                    return self.many(lambda s: self.c.expr(n, s), o.fall | o.ret)
            m = self.lambda_of(n)
            if m is not None:
                body = subst(m["b"], {p["id"]: a for p, a in zip(m["p"], n["a"][1:])})
                self.stack.append(m)
                self.frames.append(())
                o = self.st(body, states)
                self.frames.pop()
                self.stack.pop()
                return self.many(lambda s: self.c.expr(n, s), o.fall | o.ret)
        return self.many(lambda s: self.c.expr(n, s), states)

    def branch(self, n, states, truth):
        """states in which condition n evaluates to `truth`"""
        if n is None:
            return set(states) if truth else set()
        if not states:
            return set()
        k = n["k"]
        if k == "Bin" and n["op"] == "&&":
            t = self.branch(n["x"], states, True)
            if truth:
                return self.branch(n["y"], t, True)
            return self.branch(n["x"], states, False) | self.branch(n["y"], t, False)
        if k == "Bin" and n["op"] == "||":
            f = self.branch(n["x"], states, False)
            if not truth:
                return self.branch(n["y"], f, False)
            return self.branch(n["x"], states, True) | self.branch(n["y"], f, True)
        if k == "Un" and n["op"] == "!":
            return self.branch(n["e"], states, not truth)
        if k == "Cast" and self.c.track(n["e"]) is not None:
            return self.branch(n["e"], states, truth)
        key = self.c.track(n)
        if key is not None:
            out = set()
            for s in states:
                b = self.c.getbool(s, key)
                if b is None:
                    out.add(self.c.setbool(s, key, truth))
                elif b == truth:
                    out.add(s)
            return out
        if k == "Bin" and n["op"] in ("==", "!=") and val(n["y"]) in (0, 1) and strip(n["y"])["k"] == "Bool":
            return self.branch(n["x"], states, truth == ((n["op"] == "==") == bool(val(n["y"]))))
        if k == "Cond":
            t = self.branch(n["e"], states, True)
            f = self.branch(n["e"], states, False)
            return self.branch(n["x"], t, truth) | self.branch(n["y"], f, truth)
        if k == "Call" and len(self.stack) < self.c.max_inline:
            f = self.c.definition(n)
            if f is not None and f.b is not None and f not in self.stack and self.c.inline(n, f) and f.t({"t": f.raw.get("ret", 0)}) in ("bool", "_Bool", "") and self.isbool(f):
                st = states
                for c in kids(n):
                    st = self.ev(c, st)
                env = {p["id"]: a for p, a in zip(f.p, n["a"])}
                body = self.body(f, env, n.get("o"))
                self.stack.append(f)
                self.frames.append([set(), set()])
                self.st(body, st)
                t, e = self.frames.pop()
                self.stack.pop()
                return t if truth else e
        m = self.lambda_of(n)
        if m is not None:
            st = states
            for c in n["a"][1:]:
                st = self.ev(c, st)
            body = subst(m["b"], {p["id"]: a for p, a in zip(m["p"], n["a"][1:])})
            self.stack.append(m)
            self.frames.append([set(), set()])
            self.st(body, st)
            t, e = self.frames.pop()
            self.stack.pop()
            return t if truth else e
        v = val(n)
        if v is not None and k in ("Int", "Bool", "Bin", "Un", "Cast", "Sizeof"):
            return set(states) if bool(v) == truth else set()
        st = self.ev(n, states)
        out = set()
        for s in st:
            r = self.c.cond(n, s, truth)
            if r is not None:
                out.add(r)
        return out

    # ------------------------------------------------------------- statements
    def st(self, n, states):
        o = Out()
        if n is None or not states:
            o.fall = set(states)
            return o
        k = n["k"]
        if k == "Block":
            cur = set(states)
            for c in n["c"]:
                r = self.st(c, cur)
                o.brk |= r.brk; o.cont |= r.cont; o.ret |= r.ret
                cur = r.fall
            o.fall = cur
        elif k == "Decl":
            cur = set(states)
            for v in n["c"]:
                if v.get("i") and strip(v["i"]) is not None and strip(v["i"])["k"] == "Lambda":
                    self.lam[v["id"]] = strip(v["i"])
                key = self.c.track(v)
                if v.get("i") and key is not None:
                    t = self.branch(v["i"], cur, True)
                    f = self.branch(v["i"], cur, False)
                    cur = {self.c.setbool(s, key, True) for s in t} | {self.c.setbool(s, key, False) for s in f}
                elif v.get("i"):
                    cur = self.ev(v["i"], cur)
                cur = self.many(lambda s: self.c.expr(v, s), cur)
            o.fall = cur
        elif k == "If":
            cur = states
            if n.get("init"):
                cur = self.st(n["init"], cur).fall
            if n.get("cv"):
                v = n["cv"]
                cur = self.ev(v.get("i"), cur)
                cur = self.many(lambda s: self.c.expr(v, s), cur)
            t = self.branch(n["e"], cur, True)
            f = self.branch(n["e"], cur, False)
            a = self.st(n["th"], t) if n.get("th") else None
            b = self.st(n["el"], f) if n.get("el") else None
            o.fall = (a.fall if a else set(t)) | (b.fall if b else set(f))
            for x in (a, b):
                if x:
                    o.brk |= x.brk; o.cont |= x.cont; o.ret |= x.ret
        elif k in ("For", "While", "Do", "Range"):
            cur = set(states)
            if k == "For" and n.get("init"):
                cur = self.st(n["init"], cur).fall
            if k == "Range":
                cur = self.ev(n["e"], cur)
            head = set(cur)
            exits = set()
            work = set(cur)
            first = True
            while work:
                if k in ("For", "While"):
                    body_in = self.branch(n.get("e"), work, True)
                    exits |= self.branch(n.get("e"), work, False) if n.get("e") else set()
                elif k == "Range":
                    v = n.get("var")
                    body_in = self.many(lambda s: self.c.expr(v, s), work) if v else set(work)
                    exits |= work
                else:
                    body_in = work
                r = self.st(n["b"], body_in)
                o.ret |= r.ret
                exits |= r.brk
                nxt = r.fall | r.cont
                if k == "For" and n.get("inc"):
                    nxt = self.ev(n["inc"], nxt)
                if k == "Do":
                    exits |= self.branch(n["e"], nxt, False)
                    nxt = self.branch(n["e"], nxt, True)
                work = nxt - head
                head |= nxt
                if len(head) > self.c.max_states:
                    raise AnalysisBroken("state explosion in loop")
            o.fall = exits
        elif k == "Switch":
            cur = self.ev(n["e"], set(states))
            body = n["b"]
            items = body["c"] if body["k"] == "Block" else [body]
            flat = []   # (labels, stmt)
            for it in items:
                labels = []
                while it is not None and it["k"] in ("Case", "Default"):
                    labels.append(it)
                    it = it.get("c")
                flat.append((labels, it))
            allv = [val(l) if val(l) is not None else text(l["e"]) for ls, _ in flat for l in ls if l["k"] == "Case"]
            has_def = any(l["k"] == "Default" for ls, _ in flat for l in ls)
            fall = set()
            for labels, stmt in flat:
                ins = set(fall)
                for l in labels:
                    for s in cur:
                        if l["k"] == "Case":
                            v = val(l) if val(l) is not None else text(l["e"])
                            r = self.c.switch(n, s, [v])
                        else:
                            r = self.c.nodefault(n, s, allv)
                        if r is not None:
                            ins.add(r)
                if stmt is None:
                    fall = ins
                    continue
                if not ins:
                    fall = set()
                    continue
                r = self.st(stmt, ins)
                o.ret |= r.ret; o.cont |= r.cont
                o.fall |= r.brk
                fall = r.fall
            o.fall |= fall
            if not has_def:
                for s in cur:
                    r = self.c.nodefault(n, s, allv)
                    if r is not None:
                        o.fall.add(r)
        elif k == "Return" and self.frames and len(self.frames[-1]) == 2 and n.get("e"):
            t = self.branch(n["e"], set(states), True)
            f = self.branch(n["e"], set(states), False)
            self.frames[-1][0] |= t
            self.frames[-1][1] |= f
            o.ret = t | f
        elif k == "Return" and not self.stack and n.get("e") and self.c.split_return:
            for truth in (True, False):
                for s in self.branch(n["e"], set(states), truth):
                    r = self.c.on_bool_return(n, s, truth)
                    if r is not None:
                        o.ret.add(r)
        elif k == "Return":
            cur = self.ev(n.get("e"), set(states))
            o.ret = self.many(lambda s: self.c.on_return(n, s), cur) if not self.stack else self.many(lambda s: self.c.on_inline_return(n, s), cur)
        elif k == "Break":
            o.brk = set(states)
        elif k == "Continue":
            o.cont = set(states)
        elif k in ("Case", "Default", "Label"):
            o = self.st(n.get("c"), states) if n.get("c") else o
            if not n.get("c"):
                o.fall = set(states)
        elif k == "Try":
            r = self.st(n["b"], states)
            o.fall, o.brk, o.cont, o.ret = set(r.fall), set(r.brk), set(r.cont), set(r.ret)
            for h in n["h"]:
                x = self.st(h, set(states) | r.fall)
                o.fall |= x.fall; o.brk |= x.brk; o.cont |= x.cont; o.ret |= x.ret
        elif k == "OMP":
            o = self.st(n["b"], states)
        elif k == "Null":
            o.fall = set(states)
        elif k == "Goto":
            raise AnalysisBroken("goto")
        else:
            o.fall = self.ev(n, set(states))
        return o

    def run(self, func, init):
        self.c.func = func
        states = set(init)
        for i in func.init:
            states = self.ev(i.get("e"), states)
        o = self.st(unalias(func.b, func.t) if self.c.resolve_aliases else func.b, states)
        out = set(o.ret)
        for s in o.fall:
            out.update(self.c.on_return(None, s))
        return out


class FactClient(Client):
    """states are frozensets of tuples; bool locals are tracked"""

    def track(self, n):
        n = n if n["k"] == "Var" else strip(n)
        if n["k"] == "Var" and self.func.t(n) == "bool":
            return n["id"]
        if n["k"] == "Ref" and n.get("d") == "v" and self.func.t(n) == "bool":
            return n["id"]
        return None

    def setbool(self, s, key, truth):
        return frozenset(x for x in s if not (x[0] == "b" and x[1] == key)) | {("b", key, truth)}

    def getbool(self, s, key):
        for x in s:
            if x[0] == "b" and x[1] == key:
                return x[2]
        return None
