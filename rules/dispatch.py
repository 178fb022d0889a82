"""Which implementation / internal setting does each combination of configuration options lead to?

The function is sliced to the statements that matter for one outcome (objects created, worker functions called,
or one assigned target), then explored over all its paths; branches on enumerated configuration settings split
the state by option.  The result maps option combinations to the possible outcomes."""
from facts import walk, kids, strip, val, text, AnalysisBroken
from flow import FactClient, Flow, unalias, subst, WRITES

SKIP = ("espreso::eslog", "espreso::profiler", "espreso::stacktimer", "std::")


def base_name(s):
    return s.split("<")[0].split("::")[-1].strip()


class F:
    """function with another body"""

    def __init__(self, f, b):
        self._f, self.b = f, b

    def __getattr__(self, n):
        return getattr(self._f, n)


def mempath(n):
    """names of a member access chain (outermost first), or None"""
    n = strip(n)
    if n is None:
        return None
    k = n["k"]
    if k == "Mem":
        b = mempath(n["b"])
        return None if b is None else b + [n["n"]]
    if k == "This":
        return []
    if k == "Ref":
        return [n["n"]]
    if k == "OpCall" and n["op"] in ("->", "*") and len(n["a"]) == 1:
        return mempath(n["a"][0])
    if k == "Un" and n["op"] in ("*", "&"):
        return mempath(n["e"])
    if k == "Call" and n.get("o") is not None and n.get("n") in ("get", "at") and len(n["a"]) <= 1:
        return mempath(n["o"])
    if k in ("Sub", "Idx") or (k == "OpCall" and n["op"] == "[]"):
        x = n.get("b") or n["a"][0]
        i = n.get("i") or n["a"][1]
        b = mempath(x)
        i = strip(i)
        if b is None:
            return None
        if i is not None and i["k"] == "Ref" and i.get("d") == "e":
            return b + ["[%s]" % i["n"]]
        return b + ["[]"]
    return None


class Dispatch(FactClient):
    inline_lambdas = True
    resolve_aliases = True
    max_states = 1500
    max_inline = 4

    def __init__(self, prog, enums, workers=()):
        super().__init__(prog)
        self.enums = enums          # qualified enum name -> [(name, value)]
        self.workers = workers
        self.target = None          # path text of the tracked assignment target, None: events of creation
        self.errors = []

    # ---- selectors
    def ty(self, n):
        t = n.get("t", 0)
        t = t if isinstance(t, str) else self.func.T[t]
        return t.replace("const ", "").replace("&", "").strip()

    def sel(self, n):
        """(key, enum) if n reads an enumerated setting"""
        n = strip(n)
        if n is None or n["k"] not in ("Mem", "Ref", "OpCall", "Call"):
            return None
        if n["k"] == "Ref" and n.get("d") not in ("p", "v"):
            return None
        if n["k"] == "Call" and n.get("n") not in ("at", "get"):
            return None
        e = self.enums.get(self.ty(n))
        if e is None:
            return None
        p = mempath(n)
        if p is None:
            return None
        if n["k"] == "Ref":
            return "%s:%s" % (base_name(self.ty(n)), n.get("d")), e
        if self.target is None:
            return p[-1], e
        return ".".join(p[-2:]), e

    def choose(self, s, key, e, names):
        """restrict key to the given option names"""
        cur = [x[2] for x in s if x[0] == "s" and x[1] == key]
        cur = set(cur[0]) if cur else {c for c, _ in e}
        new = cur & set(names)
        if not new:
            return None
        return frozenset(x for x in s if not (x[0] == "s" and x[1] == key)) | {("s", key, tuple(sorted(new)))}

    def cond(self, n, s, truth):
        m = strip(n)
        if m["k"] in ("Bin", "OpCall") and m.get("op") in ("==", "!=", "&"):
            a, b = (m["x"], m["y"]) if m["k"] == "Bin" else (m["a"] + [None, None])[:2]
            for x, y in ((a, b), (b, a)):
                k = self.sel(x) if x is not None else None
                y = strip(y)
                if k and y is not None and y["k"] == "Ref" and y.get("d") == "e":
                    key, e = k
                    if m["op"] == "&":
                        return self.choose(s, key + "&" + y["n"], [("1", 1), ("0", 0)], ["1" if truth else "0"])
                    same = (m["op"] == "==") == truth
                    return self.choose(s, key, e, [c for c, _ in e if (c == y["n"]) == same])
            # constants of tracked locals: strategy == 'S'
            for x, y in ((a, b), (b, a)):
                x, c = strip(x), self.cst(y)
                if x is not None and x["k"] == "Ref" and c is not None and m["op"] in ("==", "!="):
                    v = [z[2] for z in s if z[0] == "lv" and z[1] == x.get("id")]
                    if v and v[0] != "?":
                        return s if ((v[0] == c) == (m["op"] == "==")) == truth else None
        z = self.nullness(m)
        if z:
            i, nonnull = z
            want = "nn" if truth == nonnull else "null"
            other = "null" if want == "nn" else "nn"
            if (other, i) in s:
                return None
            return s | {(want, i)}
        if m["k"] == "Ref" and m.get("d") == "v":
            pass
        return s

    def nullness(self, n):
        n = strip(n)
        if n["k"] == "Bin" and n["op"] in ("==", "!="):
            for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                if strip(b)["k"] == "Nul" and strip(a)["k"] == "Ref":
                    return strip(a).get("id"), n["op"] == "!="
        if n["k"] == "Ref" and n.get("d") == "v" and self.ty(n).endswith("*"):
            return n.get("id"), True
        return None

    def switch(self, n, s, values):
        k = self.sel(n["e"])
        if not k:
            return s
        key, e = k
        return self.choose(s, key, e, [c for c, v in e if v in values or c in values])

    def nodefault(self, n, s, vals):
        k = self.sel(n["e"])
        if not k:
            return s
        key, e = k
        rest = [c for c, v in e if v not in vals and c not in vals]
        return self.choose(s, key, e, rest) if rest else None

    # ---- values
    def cst(self, n):
        n = strip(n)
        if n is None:
            return None
        if n["k"] == "Ref" and n.get("d") == "e":
            return n["n"]
        if n["k"] == "Bool":
            return "true" if n["v"] else "false"
        if n["k"] == "Chr":
            v = n["v"]
            return repr(chr(v)) if isinstance(v, int) else repr(v)
        if n["k"] == "Un" and n["op"] == "-":
            v = self.cst(n["e"])
            return None if v is None else "-" + v
        if n["k"] in ("Int", "Flt"):
            return str(n["v"])
        v = val(n)
        if v is not None and n["k"] not in ("Ref",):
            return str(v)
        return None

    def value(self, n, s):
        """possible value of an expression"""
        n = strip(n)
        c = self.cst(n)
        if c is not None:
            return c
        if n["k"] == "Ref":
            for x in s:
                if x[0] == "lv" and x[1] == n.get("id"):
                    return x[2]
        if n["k"] == "Bin" and n["op"] == "=":
            return self.value(n["y"], s)
        if n["k"] in ("Call", "OpCall", "Ctor"):
            for x in s:
                if x[0] == "rv":
                    return x[1]
        if n["k"] == "Mem":
            p = mempath(n)
            if p:
                return "=" + p[-1]
        if n["k"] == "Cond":
            return "?"
        return "?"

    def on_inline_return(self, n, s):
        s = frozenset(x for x in s if x[0] != "rv")
        if n.get("e") is not None and self.target is not None:
            s = s | {("rv", self.value(n["e"], s))}
        return (s,)

    def on_return(self, n, s):
        if n is not None and n.get("e") is not None and self.target == "return":
            v = self.value(n["e"], s)
            return (frozenset(x for x in s if x[0] != "e") | {("e", v)},)
        return (s,)

    def expr(self, n, s):
        k = n["k"]
        if k in ("Call", "Ctor", "OpCall") and self.noreturn(n):
            self.errors.append(frozenset(x for x in s if x[0] in ("s",)))
            return (s,)
        if self.target is None:
            if k == "New":
                args = []
                i = n.get("i")
                for a in (i or {}).get("a", []):
                    c = self.cst(a)
                    if c is not None:
                        args.append(c)
                s = s | {("e", "%s(%s)" % (base_name(self.ty(n)), ",".join(args)))}
            elif k == "Call" and n.get("n") in ("make_unique", "make_shared"):
                s = s | {("e", "%s()" % base_name((n.get("ta") or "<?>")[1:]))}
            elif k == "Call" and (n.get("q") or "").split("<")[0] in self.workers:
                c = [self.cst(a) for a in n["a"]]
                c = [x for x in c if x and x[0].isalpha()]
                s = s | {("e", "%s(%s)" % ("::".join(n["q"].split("::")[-2:]), ",".join(c)))}
        if k == "Var" and n.get("i") is not None:
            s = self.local(n["id"], n["i"], s)
        elif (k == "Bin" and n["op"] == "=") or (k == "OpCall" and n["op"] == "=" and len(n["a"]) == 2):
            x, y = (n["x"], n["y"]) if k == "Bin" else n["a"]
            xs = strip(x)
            if xs is not None and xs["k"] == "Ref":
                s = self.local(xs.get("id"), y, s)
            p = mempath(x)
            if p and self.target is not None and ".".join(p) == self.target:
                v = self.value(y, s)
                s = frozenset(z for z in s if z[0] != "e") | {("e", v)}
                s = frozenset(z for z in s if z[0] != "rv")
        elif k == "Un" and n["op"] in ("++", "--") and strip(n["e"])["k"] == "Ref":
            i = strip(n["e"]).get("id")
            s = frozenset(x for x in s if not (x[0] == "lv" and x[1] == i))
        return (s,)

    def local(self, i, y, s):
        s = frozenset(x for x in s if not (x[0] in ("lv", "null", "nn") and x[1] == i))
        ys = strip(y)
        if ys["k"] == "Nul":
            return s | {("null", i)}
        if ys["k"] == "New":
            return s | {("nn", i)}
        v = self.value(y, s)
        return s | {("lv", i, v)} if v != "?" and not v.startswith("=") else s

    def inline(self, call, f):
        if f.q.startswith(SKIP) or f.b is None:
            return False
        if self.target is not None:
            return len(list(walk(f.b))) < 400
        return any(x["k"] == "New" or (x["k"] == "Call" and (x.get("n") in ("make_unique",) or (x.get("q") or "") in self.workers)) for x in walk(f.b)) \
            and any(self.issel(x, f) for x in walk(f.b))

    def issel(self, x, f):
        return x["k"] in ("Switch",) or (x["k"] == "Ref" and x.get("d") == "e")

    # ---- slicing
    def prune(self, n, keep):
        if n is None:
            return None
        if n["k"] == "Block":
            c = [self.prune(x, keep) for x in n["c"]]
            return dict(n, c=[x for x in c if x is not None])
        if n["k"] in ("Return", "Break", "Continue", "Decl", "Case", "Default", "Label"):
            if n["k"] in ("Case", "Default", "Label") and n.get("c") is not None:
                return dict(n, c=self.prune(n["c"], keep) or {"k": "Null"})
            return n
        if n["k"] in ("If", "Switch", "For", "While", "Do", "Range", "Try", "OMP") or True:
            if not any(keep(x) for x in walk(n)):
                return None
            out = dict(n)
            for key in ("th", "el", "b"):
                if isinstance(n.get(key), dict) and n["k"] in ("If", "Switch", "For", "While", "Do", "Range", "OMP"):
                    out[key] = self.prune(n[key], keep) or {"k": "Block", "c": []}
            return out
        return n

    def explore(self, f, target=None):
        """list of (selector facts, outcomes); error states in self.errors"""
        self.target, self.errors, self.func = target, [], f
        body = unalias(f.b, f.t)
        if target is None:
            keep = lambda x: x["k"] in ("New", "Return") or (x["k"] == "Call" and (self.noreturn(x) or x.get("n") in ("make_unique", "make_shared") or (x.get("q") or "") in self.workers or self.calls_tracked(x))) \
                or (x["k"] == "OpCall" and x["op"] == "()") or (x["k"] == "Bin" and x["op"] == "=" and self.ty(x["x"]).endswith("*")) \
                or (x["k"] == "Bin" and x["op"] == "=" and self.ty(x["x"]) == "bool")
        elif target == "return":
            keep = lambda x: x["k"] == "Return" or (x["k"] == "Call" and self.noreturn(x)) or (x["k"] == "Bin" and x["op"] == "=" and strip(x["x"])["k"] == "Ref")
        else:
            def keep(x):
                if x["k"] == "Bin" and x["op"] == "=" or x["k"] == "OpCall" and x["op"] == "=" and len(x["a"]) == 2:
                    y = x["x"] if x["k"] == "Bin" else x["a"][0]
                    p = mempath(y)
                    return bool(p) and (".".join(p) == target)
                return x["k"] == "Call" and self.passes(x, target)
        b = self.prune(body, keep)
        g = F(f, b)
        self.resolve_aliases = False
        try:
            outs = Flow(self).run(g, {frozenset()})
        finally:
            self.resolve_aliases = True
        res = set()
        for s in outs:
            res.add((frozenset((x[1], x[2]) for x in s if x[0] == "s"), frozenset(x[1] for x in s if x[0] == "e")))
        for s in self.errors:
            res.add((frozenset((x[1], x[2]) for x in s), frozenset(["error"])))
        return res

    def calls_tracked(self, x):
        d = self.definition(x)
        return d is not None and self.inline(x, d)

    def passes(self, call, target):
        """the target (or the object holding it) is handed to a function"""
        for a in call["a"] + ([call["o"]] if call.get("o") is not None else []):
            p = mempath(a)
            if p and (".".join(p) == target or target.startswith(".".join(p) + ".")):
                return True
        return False
