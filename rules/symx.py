"""Symbolic execution of driver code on the typed syntax tree, without running it.

Terms are nested tuples: ("c", v) constants, ("this",), ("g", q) globals, ("p", name) parameters,
("m", base, field), ("idx", base, i), ("iter", lo, hi, op, depth), ("call", name, args), ("op", o, args...).
Every loop body is executed once with a symbolic index; conditions that the scenario leaves open are
enumerated (one run for each combination of their values).  Helpers with a known body are entered.
"""
from facts import walk, strip, val

Z, ONE = ("c", 0), ("c", 1)
ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")
LIM = 4096
FLAGS = ("isactive", "needCoordinates", "needTemperature", "rotated", "isconst")


class Undecided(Exception):
    pass


class Fork(Exception):
    pass


def show(t):
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "s":
        return '"%s"' % t[1]
    if k == "this":
        return "this"
    if k in ("g", "p"):
        return t[1].replace("espreso::", "")
    if k == "m":
        return t[2] if t[1] == ("this",) else "%s.%s" % (show(t[1]), t[2])
    if k == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "each":
        return "each(%s)" % show(t[1])
    if k == "iter":
        return "%s..%s" % (show(t[1]), show(t[2]))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if k == "op":
        return "(%s %s)" % (t[1], " ".join(show(x) for x in t[2:])) if len(t) != 4 else "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    return "<%s>" % "_".join(str(x) for x in t)


def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subterms(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from subterms(y)


def fold(o, a, b=None):
    """operators on constants, neutral and absorbing elements"""
    if b is None:
        if a[0] == "c" and isinstance(a[1], (int, float)):
            if o == "!":
                return ("c", 0 if a[1] else 1)
            if o == "-":
                return ("c", -a[1])
            if o == "~":
                return ("c", ~a[1])
        if o == "!" and a[0] == "op" and a[1] == "!":
            return a[2]
        return ("op", o, a)
    if o in ("&&", "||"):
        for x, y in ((a, b), (b, a)):
            if x[0] == "c":
                return (y if x[1] else Z) if o == "&&" else (ONE if x[1] else y)
        return a if a == b else ("op", o, a, b)
    if a[0] == b[0] == "c" and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        x, y = a[1], b[1]
        try:
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                 ">": lambda: x > y, ">=": lambda: x >= y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y,
                 "/": lambda: x // y if isinstance(x, int) and isinstance(y, int) else x / y, "%": lambda: x % y}[o]()
            return ("c", int(r) if isinstance(r, bool) else r)
        except (KeyError, ZeroDivisionError, TypeError):
            return ("op", o, a, b)
    if o in ("|", "&"):
        for x, y in ((a, b), (b, a)):
            if x == Z:
                return y if o == "|" else Z
        if a == b:
            return a
    if o in ("==", "!="):
        for x, y in ((a, b), (b, a)):
            if x[0] == "call" and x[1] == "find" and y == ("call", "end", (x[2][0],)):
                h = ("call", "has", x[2])
                return h if o == "!=" else fold("!", h)
        if a == b:
            return ("c", 1 if o == "==" else 0)
    return ("op", o, a, b)


class Path:
    """one run: the decisions taken and the events seen"""

    def __init__(self):
        self.events, self.decisions, self.final = [], {}, {}


class Exec:
    def __init__(self, P, values=None, events=(), leaves=(), noise=(), inline=lambda f: False, handler=None):
        self.P, self.values, self.names, self.leaves, self.noise = P, values or {}, set(events), set(leaves), tuple(noise)
        self.caninline, self.handler = inline, handler
        self.byfid, self.ownlambda = {}, {}
        self.relmemo = {}

    # ------------------------------------------------------------------ paths
    def paths(self, f, this=("this",), args=None):
        """all paths of a function"""
        todo, out, n = [()], [], 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > LIM:
                raise Undecided("too many paths in %s" % f.q)
            self.pre, self.taken = list(pre), []
            self.once(f, this, args)
            out.append(self.path)
            for i in range(len(pre), len(self.taken)):
                todo.append(tuple(self.taken[:i]) + (False,))
        return out

    choose = None

    def sample(self, f, choose, this=("this",), args=None):
        """one path: open conditions are answered by `choose`"""
        self.choose = choose
        self.once(f, this, args)
        return self.path

    def once(self, f, this, args):
        self.memo, self.mem, self.count, self.depth, self.level = {}, {}, 0, 0, 0
        self.path = Path()
        self.path.flags = []
        self.ever = {}
        env = {}
        for i, p in enumerate(f.p):
            env[p["id"]] = (args[i] if args else ("p", p.get("n") or str(i)))
        self.dead = set(self.unread(f))
        self.relmemo = {}
        self.frame = [f]
        self.ret = None
        self.this = this
        self.block(f.b, env)
        self.path.decisions, self.path.final, self.path.ret = self.memo, self.mem, self.ret

    def unread(self, f):
        """locals that are only accumulated and returned"""
        reads, writes = set(), set()
        def go(n, ret):
            if n is None:
                return
            if n["k"] == "Return":
                ret = True
            if n["k"] == "Bin" and n["op"] in ASSIGN and strip(n["x"])["k"] == "Ref":
                writes.add(strip(n["x"])["id"])
                go(n["y"], ret)
                return
            if n["k"] == "Ref" and not ret:
                reads.add(n.get("id"))
            from facts import kids
            for x in kids(n):
                go(x, ret)
        go(f.b, False)
        return writes - reads

    def value(self, t):
        """a term with the values of the scenario substituted"""
        k = t[0]
        if k in ("m", "g", "p", "call") and self.values:
            s = self.values.get(show(t)) if isinstance(self.values, dict) else self.values(show(t))
            if s is not None:
                return ("c", s)
        if k == "op":
            if len(t) == 3:
                return fold(t[1], self.value(t[2]))
            return fold(t[1], self.value(t[2]), self.value(t[3]))
        return t

    def decide(self, t):
        if self.choose is not None:
            return bool(self.choose(t))
        i = len(self.taken)
        r = self.pre[i] if i < len(self.pre) else True
        self.taken.append(r)
        return r

    def truth(self, t):
        t = self.value(t)
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "s":
            return True
        if t[0] == "op":
            if t[1] == "!":
                return not self.truth(t[2])
            if t[1] == "&&":
                return self.truth(t[2]) and self.truth(t[3])
            if t[1] == "||":
                return self.truth(t[2]) or self.truth(t[3])
            if t[1] in ("!=", "==") and Z in t[2:]:
                r = self.truth(t[2] if t[3] == Z else t[3])
                return r if t[1] == "!=" else not r
            if t[1] == "!=":
                return not self.truth(("op", "==") + t[2:])
        if t[0] == "call" and t[1] in ("size", "count") :
            t = ("call", "nonempty" if t[1] == "size" else "has", t[2])
        if t[0] == "call" and t[1] == "empty":
            return not self.truth(("call", "nonempty", t[2]))
        if t in self.memo:
            return self.memo[t]
        r = self.decide(t)
        self.memo[t] = r
        return r

    # ------------------------------------------------------------------ memory
    def read(self, loc):
        v = self.mem.get(loc)
        if v is not None:
            return v
        if loc[0] == "m" and loc[2] in FLAGS:
            self.path.flags.append((loc, len(self.path.events), self.frame[-1]))
        return loc

    def write(self, loc, v, line):
        if loc[0] == "g" and v[0] == "call" and v[1] == "appendData":
            self.memo[loc] = True
        else:
            self.mem[loc] = v
        if loc[0] != "loc":
            self.emit("set", loc, (v,), line)

    def emit(self, kind, what, args, line):
        self.path.events.append((kind, what, args, line, self.frame[-1]))

    # ------------------------------------------------------------------ statements (0 next, 1 break, 2 continue, 3 return)
    def relevant(self, n):
        """does the statement do anything a rule looks at?"""
        if n is None:
            return False
        k = id(n)
        if k not in self.relmemo:
            self.relmemo[k] = False
            self.relmemo[k] = self._relevant(n)
        return self.relmemo[k]

    def _relevant(self, n):
        for x in walk(n):
            k = x["k"]
            if k in ("Return", "Break", "Continue", "Goto", "Throw", "New", "Delete"):
                if k == "Break" or k == "Return" and x is not n and False:
                    continue
                if k in ("Return", "Continue", "Goto", "Throw"):
                    return True
            if k == "Bin" and x["op"] in ASSIGN:
                l = strip(x["x"])
                if l["k"] == "Ref" and l.get("id") in self.dead:
                    continue
                return True
            if k == "OpCall" and x["op"] in ASSIGN:
                l = strip(x["a"][0])
                if l["k"] == "Ref" and l.get("id") in self.dead:
                    continue
                return True
            if k == "Un" and x["op"] in ("++", "--", "post++", "post--"):
                l = strip(x["e"])
                return l["k"] != "Ref"
            if k == "Call":
                if x.get("n") in self.names:
                    return True
                if not self.isnoise(x):
                    f = self.target(x)
                    if f and self.relevant(f.b):
                        return True
        return False

    def isnoise(self, x):
        q = x.get("q") or ""
        return q.startswith(self.noise)

    def block(self, n, env):
        k = n["k"]
        if k == "Block":
            for c in n["c"]:
                r = self.block(c, env)
                if r:
                    return r
            return 0
        if k == "Null":
            return 0
        if k == "Decl":
            for v in n["c"]:
                self.decl(v, env)
            return 0
        if k == "If":
            if n.get("init"):
                self.block(n["init"], env)
            if n.get("cv"):
                self.decl(n["cv"], env)
            if not self.relevant(n["th"]) and not self.relevant(n.get("el")):
                if self.relevant(n["e"]):
                    self.ev(n["e"], env)
                return 0
            if self.test(n["e"], env):
                return self.block(n["th"], env)
            return self.block(n["el"], env) if n.get("el") else 0
        if k == "For":
            if n.get("init"):
                self.block(n["init"], env)
            self.loopvars(n, env)
            self.widen(n["b"], env)
            return self.body(n["b"], env)
        if k == "Range":
            c = self.ev(n["e"], env)
            self.level += 1
            env[n["var"]["id"]] = ("each", c, self.level)
            self.widen(n["b"], env)
            r = self.body(n["b"], env, False)
            self.level -= 1
            return r
        if k in ("While", "Do"):
            if self.handler:
                r = self.handler(self, "loop", n, env)
                if r is not NotImplemented:
                    return r
            b = [x for x in n["b"]["c"] if x] if n["b"]["k"] == "Block" else [n["b"]]
            if k == "While" and b and strip(b[-1])["k"] in ("Un", "OpCall", "Bin") and not self.has_continue(n["b"]):
                # while (i < n) { ...; ++i; }
                inc = dict(n, inc=b[-1])
                refs = [strip(y) for y in ([strip(b[-1]).get("e")] if strip(b[-1])["k"] == "Un" else [strip(b[-1]).get("x")] if strip(b[-1])["k"] == "Bin" else strip(b[-1])["a"][:1]) if y]
                if refs and refs[0]["k"] == "Ref" and any(y.get("id") == refs[0].get("id") for y in walk(n["e"]) if y["k"] == "Ref"):
                    self.loopvars(inc, env)
                    rest = dict(n["b"], c=b[:-1]) if n["b"]["k"] == "Block" else {"k": "Block", "c": [], "l": n.get("l")}
                    self.widen(rest, env)
                    return self.body(rest, env)
            self.widen(n["b"], env)
            return self.body(n["b"], env)
        if k == "Switch":
            if not self.relevant(n["b"]):
                return 0
            return self.switch(n, env)
        if k == "Return":
            self.ret = self.ev(n["e"], env) if n.get("e") else None
            return 3
        if k == "Break":
            return 1
        if k == "Continue":
            return 2
        if k == "OMP":
            return self.block(n["b"], env) if n.get("b") else 0
        if k in ("Case", "Default", "Label"):
            return self.block(n["c"], env) if n.get("c") else 0
        if k == "Try":
            return self.block(n["b"], env)
        if k in ("Goto", "Throw"):
            raise Undecided("jump at line %s" % n["l"])
        if not self.relevant(n) and n["k"] == "Call" and self.isnoise(n):
            return 0
        self.ev(n, env)
        return 0

    def body(self, b, env, level=True):
        if level:
            self.level += 1
        r = self.block(b, env)
        if level:
            self.level -= 1
        return 3 if r == 3 else 0

    def switch(self, n, env):
        v = self.ev(n["e"], env)
        items, labels, default = [], [], None
        def flat(x):
            nonlocal default
            while x and x["k"] in ("Case", "Default"):
                if x["k"] == "Case":
                    labels.append((val(x) if val(x) is not None else val(x["e"]), len(items)))
                else:
                    default = len(items)
                x = x["c"]
            if x:
                items.append(x)
        for x in (n["b"]["c"] if n["b"]["k"] == "Block" else [n["b"]]):
            flat(x)
        at = default
        for c, i in labels:
            if self.truth(fold("==", v, ("c", c))):
                at = i
                break
        if at is None:
            return 0
        for x in items[at:]:
            r = self.block(x, env)
            if r == 1:
                return 0
            if r:
                return r
        return 0

    def has_continue(self, b):
        return any(y["k"] == "Continue" for y in walk(b))

    def widen(self, b, env):
        """counters that change in the body of a loop"""
        for y in walk(b):
            if y["k"] == "Un" and y.get("op") in ("++", "--", "post++", "post--"):
                t = y["e"]
            elif y["k"] == "Bin" and y["op"] in ("+=", "-="):
                t = y["x"]
            else:
                continue
            t = strip(t)
            loc = env.get(t.get("id")) if t["k"] == "Ref" else None
            if loc is not None and loc in self.mem and self.mem[loc][0] == "c":
                self.mem[loc] = ("iter", self.mem[loc], ("c", "?"), "?", self.level)

    def loopvars(self, n, env):
        """variables of a counting or iterator loop become symbolic indices"""
        e = strip(n["e"]) if n.get("e") else None
        while e and e["k"] == "Bin" and e["op"] == "&&":
            e = strip(e["x"])
        inc = [strip(x["e"]) for x in walk(n["inc"]) if x["k"] == "Un"] + [strip(x["x"]) for x in walk(n["inc"]) if x["k"] == "Bin" and x["op"] in ASSIGN] \
            + [strip(x["a"][0]) for x in walk(n["inc"]) if x["k"] == "OpCall"] if n.get("inc") else []
        for x in inc:
            if x["k"] != "Ref":
                continue
            loc = env.get(x["id"])
            if loc is None:
                continue
            lo = self.read(loc)
            hi, op = ("c", "?"), "?"
            if e is not None and e["k"] in ("Bin", "OpCall"):
                a, b = (e["x"], e["y"]) if e["k"] == "Bin" else (e["a"] + [None])[:2]
                for u, w in ((a, b), (b, a)):
                    if u is not None and w is not None and strip(u)["k"] == "Ref" and strip(u).get("id") == x["id"]:
                        hi, op = self.ev(w, env), e["op"] if u is a else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(e["op"], e["op"])
                    elif u is not None and w is not None and strip(u)["k"] == "Bin" and strip(u)["op"] in ("+", "-"):
                        p, q = strip(strip(u)["x"]), strip(u)["y"]
                        if p["k"] == "Ref" and p.get("id") == x["id"]:
                            c = self.ev(q, env)
                            if c[0] == "c":         # i + 1 < n
                                hi, op = ("op", "-" if strip(u)["op"] == "+" else "+", self.ev(w, env), c), e["op"] if u is a else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(e["op"], e["op"])
            self.mem[loc] = ("iter", lo, hi, op if op != "!=" else "<", self.level)

    def decl(self, v, env):
        if v.get("k") != "Var" or "id" not in v:
            return
        i = v.get("i")
        if v.get("st") and False:
            pass
        if v.get("ref"):
            env[v["id"]] = self.lv(i, env) if i else ("u", v["n"])
            return
        self.count += 1
        loc = ("loc", self.count, v["n"])
        env[v["id"]] = loc
        if i is not None:
            s = strip(i)
            if s["k"] == "Ctor" and not s["a"] or s["k"] in ("Zero",):
                if s["k"] == "Zero":
                    self.mem[loc] = Z
                return
            if s["k"] == "Ctor" and "std::vector" in (s.get("q") or "") and len(s["a"]) != 1:
                return
            if s["k"] == "Lambda":
                self.mem[loc] = ("lambda", self.closure(s, env))
                return
            self.mem[loc] = self.ev(i, env)

    def closure(self, n, env):
        self.ownlambda[id(n)] = (n, env)
        return id(n)

    # ------------------------------------------------------------------ expressions
    def test(self, n, env):
        s = strip(n)
        if s["k"] == "Bin" and s["op"] == "&&":
            return self.test(s["x"], env) and self.test(s["y"], env)
        if s["k"] == "Bin" and s["op"] == "||":
            return self.test(s["x"], env) or self.test(s["y"], env)
        if s["k"] == "Un" and s["op"] == "!":
            return not self.test(s["e"], env)
        return self.truth(self.ev(n, env))

    def lv(self, n, env):
        n0 = n
        n = strip(n)
        k = n["k"]
        if k == "Ref":
            if n.get("d") in ("v", "p") and n.get("id") in env:
                return env[n["id"]]
            return ("g", n.get("q") or n["n"])
        if k == "Mem":
            b = self.ev(n["b"], env)
            return ("m", b, n["n"])
        if k == "Idx":
            return ("idx", self.ev(n["x"], env), self.ev(n["y"], env)) if "x" in n else ("idx", self.ev(n["b"], env), self.ev(n["i"], env))
        if k == "OpCall" and n["op"] == "[]":
            b, i = self.ev(n["a"][0], env), self.ev(n["a"][1], env)
            return self.index(b, i, n)
        if k == "OpCall" and n["op"] in ("*", "->") and len(n["a"]) == 1:
            return self.deref(self.ev(n["a"][0], env))
        if k == "Un" and n["op"] == "*":
            return self.deref(self.ev(n["e"], env))
        if k == "This":
            return ("this",)
        return self.ev(n0, env)

    def index(self, b, i, n):
        t = ("idx", b, i)
        if "map" in (n.get("cls") or ""):
            return ("m", t, "second")
        return t

    def deref(self, t):
        if t[0] == "iter" and t[1][0] == "call" and t[1][1] == "begin":
            return ("each", t[1][2][0], t[4])
        if t[0] == "call" and t[1] == "find":
            return ("idx",) + t[2]
        if t[0] == "call" and t[1] == "begin":
            return ("idx", t[2][0], Z)
        return t

    def ev(self, n, env):
        n0, n = n, strip(n)
        k = n["k"]
        if k in ("Int", "Bool", "Chr", "Sizeof", "Flt"):
            v = n.get("v")
            if isinstance(v, bool):
                v = int(v)
            if k == "Flt":
                try:
                    v = float(v)
                except (TypeError, ValueError):
                    pass
            return ("c", v)
        if k == "Str":
            return ("s", n.get("v"))
        if k == "Nul":
            return Z
        if k == "This":
            return ("this",)
        if k == "Ref" and n.get("d") == "e":
            return ("c", n["v"])
        if k == "Ref" and n.get("d") == "f":
            return ("g", n.get("q") or n["n"])
        if k in ("Ref", "Mem", "Idx"):
            return self.read(self.lv(n, env))
        if k == "Un":
            if n["op"] == "*":
                return self.read(self.lv(n, env))
            if n["op"] == "&":
                return self.lv(n["e"], env)
            if n["op"] in ("++", "--", "post++", "post--"):
                loc = self.lv(n["e"], env)
                old = self.read(loc)
                new = fold(n["op"][-1], old, ONE)
                self.write(loc, new, n["l"])
                return new if n["op"] in ("++", "--") else old
            return fold(n["op"], self.ev(n["e"], env))
        if k == "Bin":
            return self.binary(n["op"], n["x"], n["y"], n, env)
        if k == "Cond":
            return self.ev(n["x" if self.test(n["e"], env) else "y"], env) if "x" in n else self.ev(n["th" if self.test(n["e"], env) else "el"], env)
        if k == "OpCall":
            o, a = n["op"], n["a"]
            if o in ("[]",):
                return self.read(self.lv(n, env))
            if o in ("*", "->") and len(a) == 1:
                return self.read(self.lv(n, env))
            if o == "()":
                c = self.ev(a[0], env)
                if c[0] == "lambda":
                    return self.enterlambda(c[1], a[1:], env)
                return ("call", "()", (c,) + tuple(self.ev(x, env) for x in a[1:]))
            if len(a) == 2:
                return self.binary(o, a[0], a[1], n, env)
            if len(a) == 1 and o in ("++", "--"):
                loc = self.lv(a[0], env)
                v = fold("+" if o == "++" else "-", self.read(loc), ONE)
                self.mem[loc] = v
                return v
            return ("call", "operator" + o, tuple(self.ev(x, env) for x in a))
        if k == "Ctor":
            a = tuple(self.ev(x, env) for x in n["a"])
            if len(a) == 1:
                return a[0]
            return ("call", (n.get("q") or n.get("cls") or "").split("<")[0].split("::")[-1], a)
        if k in ("Init", "ILE"):
            return ("call", "{}", tuple(self.ev(x, env) for x in n.get("a", n.get("c", []))))
        if k == "Lambda":
            return ("lambda", self.closure(n, env))
        if k == "Call":
            return self.call(n, env)
        if k == "New":
            self.count += 1
            return ("new", self.count, n.get("l"))
        if k == "Zero":
            return Z
        return ("u", k, n.get("l"))

    def binary(self, o, x, y, n, env):
        if o in ASSIGN:
            loc = self.lv(x, env)
            v = self.ev(y, env)
            if o != "=":
                old = self.read(loc)
                if o[:-1] in "&|" and old[0] == "op" and old[1] == o[:-1] and v in old[2:]:
                    return old
                v = fold(o[:-1], old, v)
            self.write(loc, v, n["l"])
            return v
        if o == ",":
            self.ev(x, env)
            return self.ev(y, env)
        a = self.ev(x, env)
        if o in ("&&", "||") and a[0] == "c":
            return self.ev(y, env) if bool(a[1]) == (o == "&&") else ("c", int(bool(a[1])))
        return fold(o, a, self.ev(y, env))

    # ------------------------------------------------------------------ calls
    def target(self, n):
        """the definition of a called helper that is to be entered"""
        if n.get("n") in self.leaves or n.get("n") in self.names or self.isnoise(n):
            return None
        c = [f for f in self.P.byq.get(n.get("q") or "", []) if f.b and f.tm != "pat" and len(f.p) >= len([a for a in n["a"] if a["k"] != "DefArg"])]
        if n.get("dl"):
            e = [f for f in c if "%s:%s" % (f.f, f.l) in (n.get("dl"), n.get("pl"))]
            sig = None
            c = e or c
        c = [f for f in c if len(f.p) == len(n["a"])]
        if len(c) > 1:
            return None
        return c[0] if c and self.caninline(c[0]) else None

    def call(self, n, env):
        nm = n.get("n") or ""
        if self.isnoise(n):
            return ("call", nm, ())
        o = self.ev(n["o"], env) if n.get("o") else None
        if n.get("o") and n["o"]["k"] != "This" and not n.get("ar"):
            l = self.lv(n["o"], env)
            if self.handler or l[0] == "m":
                o = o if o[0] not in ("c",) else l
        if self.handler:
            r = self.handler(self, "call", n, env)
            if r is not NotImplemented:
                return r
        if nm in self.names:
            a = tuple(self.ev(x, env) for x in n["a"])
            what = o if o is not None else ("g", n.get("q"))
            if nm == "activate":
                self.ever[what] = self.ever.get(what, 0) + 1
            self.emit(nm, what, a, n["l"])
            return ("call", nm, (what,) + a)
        f = self.target(n)
        if f and self.depth < 8 and f not in self.frame:
            e2 = {}
            for p, x in zip(f.p, n["a"]):
                t = f.T[p["t"]] if isinstance(p.get("t"), int) else ""
                if t.rstrip().endswith("&"):
                    e2[p["id"]] = self.lv(x, env)
                else:
                    self.count += 1
                    loc = ("loc", self.count, p.get("n"))
                    self.mem[loc] = self.ev(x, env)
                    e2[p["id"]] = loc
            self.dead |= self.unread(f)
            self.depth += 1
            self.frame.append(f)
            save, self.ret = self.ret, None
            self.block(f.b, e2)
            r, self.ret = self.ret, save
            self.frame.pop()
            self.depth -= 1
            return r if r is not None else ("u", "void")
        a = tuple(self.ev(x, env) for x in n["a"])
        if n.get("fe") is not None and o is None:
            c = self.ev(n["fe"], env)
            if c[0] == "lambda":
                return self.enterlambda(c[1], n["a"], env)
        if o is not None:
            if nm in ("cbegin", "begin") and not a:
                return ("call", "begin", (o,))
            if nm in ("cend", "end") and not a:
                return ("call", "end", (o,))
            if nm == "at" and len(a) == 1:
                return self.index(o, a[0], n)
            if nm in ("front",) and not a:
                return ("idx", o, Z)
            if nm == "get" and "unique_ptr" in (n.get("cls") or ""):
                return o
            return ("call", nm, (o,) + a)
        if nm in ("move", "forward", "ref", "cref") and len(a) == 1:
            return a[0]
        return ("call", nm, a)

    def enterlambda(self, i, args, env):
        n, cenv = self.ownlambda[i]
        e2 = dict(cenv)
        ps = n.get("p", [])
        for p, x in zip(ps, args):
            e2[p["id"]] = self.lv(x, env)
        save, self.ret = self.ret, None
        self.block(n["b"], e2)
        r, self.ret = self.ret, save
        return r if r is not None else ("u", "void")
