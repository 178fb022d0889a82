"""Which memory do the iterations of a parallel loop write, and is it disjoint?

Abstract interpretation of every OpenMP parallel region: each value carries how it depends on the iteration
(0 not at all, 1 through data such as an index map, 2 directly), each location the same plus whether it is
shared by the threads.  Calls to functions of the program (also virtual ones and local lambdas) are interpreted with
the abstract arguments; results are memoised."""
from facts import walk, kids, strip, val, text
from flow import Client, WRITES

NONE, DATA, DIRECT = 0, 1, 2
MUTATORS = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "erase", "clear", "resize", "reserve", "assign", "swap",
            "pop_back", "pop_front", "append", "shrink_to_fit", "push", "pop", "reset"}
FIRSTARG = {"std::sort", "std::fill", "std::fill_n", "std::iota", "std::stable_sort", "std::reverse", "std::unique", "std::swap", "std::rotate", "std::remove", "std::remove_if",
            "memset", "std::memset", "memcpy", "std::memcpy", "memmove", "std::memmove", "std::exchange"}
OUTARG = {"std::copy": 2, "std::copy_n": 2, "std::merge": 4, "std::partial_sum": 2, "std::exclusive_scan": 2, "std::inclusive_scan": 2, "std::set_union": 4, "std::set_intersection": 4, "std::set_difference": 4}
PASS = ("std::min", "std::max", "std::abs", "std::move", "std::forward", "std::get", "std::ref", "std::addressof", "std::begin", "std::end", "std::next", "std::prev", "std::advance")
SKIPQ = ("espreso::eslog", "espreso::profiler", "espreso::stacktimer", "espreso::info::", "espreso::utils::stack")
GUARD = ("atomic", "critical", "single", "master", "masked", "ordered")
ARITHMETIC = ("int", "esint", "long", "unsigned int", "unsigned long", "size_t", "bool", "double", "float")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
BINOPS = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}


SHARED_MAPS = {"D2C", "D2C0", "permutationF0", "enodes"}     # several domains (elements) contribute to one entry
E = frozenset()


class V:
    """abstract value: dependence of the value (dep) and the arrays it was read from (src); the location it denotes or
    points to: shared by threads (sh), dependence (ld), arrays that determine it (via), name; callable (lam)"""
    __slots__ = ("dep", "sh", "ld", "name", "lam", "src", "via")

    def __init__(self, dep=0, sh=False, ld=2, name="", lam=None, src=E, via=E):
        self.dep, self.sh, self.ld, self.name, self.lam, self.src, self.via = dep, sh, ld, name, lam, src, via

    def key(self):
        return (self.dep, self.sh, self.ld, self.name, (id(self.lam[0]), id(self.lam[1])) if self.lam else 0, self.src, self.via)

    def but(self, **kw):
        v = V(self.dep, self.sh, self.ld, self.name, self.lam, self.src, self.via)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def value(self):
        """the value alone"""
        return V(self.dep, src=self.src)

    def join(self, o):
        if o is None:
            return self
        if self.lam or o.lam:
            return self if self.lam else o
        # locations: the worse one (shared, less dependent) wins; values: the more dependent one
        a, b = self, o
        if (b.sh, -b.ld) > (a.sh, -a.ld):
            a, b = b, a
        return a.but(dep=max(self.dep, o.dep), src=self.src | o.src, via=a.via | (b.via if b.sh else E))

    def __repr__(self):
        return "V(%d,%s,%d,%s,%s,%s)" % (self.dep, self.sh, self.ld, self.name, set(self.src), set(self.via))


def vals(vs, cap=DIRECT):
    d, s = 0, E
    for v in vs:
        d = max(d, v.dep)
        s = s | v.src
    return V(min(d, cap), src=s)


PRIV = V()


class Race(Client):
    depth = 7
    across = True

    def __init__(self, prog):
        super().__init__(prog)
        self.memo = {}
        self.crit = 0
        self.sites = set()
        self.ranges = 0
        self.wr = {}
        self.opfield = {}
        self.active = None
        self.P = prog
        self.over = {}
        for f in prog.functions:
            if f.tm != "pat":
                for o in f.ov:
                    self.over.setdefault(o, []).append(f)

    def bases(self, c):
        """class c and its bases"""
        todo, seen = [c], set()
        while todo:
            x = todo.pop().split("<")[0]
            if x not in seen:
                seen.add(x)
                for r in self.P.records.get(x, []):
                    todo += r["bases"]
        return seen

    def written(self, f):
        """variables of f that are assigned, incremented, or whose address or reference is taken"""
        r = self.wr.get(f.uid)
        if r is None:
            r = self.wr[f.uid] = set()
            for x in walk(f.b):
                es = []
                if x["k"] == "Bin" and x["op"] in WRITES:
                    es = [x["x"]]
                elif x["k"] == "Un" and x["op"] in ("++", "--", "&"):
                    es = [x["e"]]
                elif x["k"] == "OMP":
                    es = [z for c in x["cl"] for y in c["c"] for z in walk(y)]
                elif x["k"] == "Call":
                    d = self.definition(x)
                    es = [a for i, a in enumerate(x["a"]) if d is None or i >= len(d.p) or d.p[i].get("ref")]
                for e in es:
                    e = strip(e)
                    if e is not None and e["k"] == "Ref":
                        r.add(e.get("id"))
        return r

    def inactive(self, f, c):
        """the condition asks for an operator that is never activated"""
        c = strip(c)
        if self.active is None or c is None or c["k"] != "Mem" or c["n"] != "isactive" or "t" not in strip(c["b"]):
            return False
        q = f.t(strip(c["b"])).replace("const ", "").split("<")[0].strip(" &*")
        b = self.bases(q)
        own = b - self.bases("espreso::SubKernel")
        return "espreso::SubKernel" in b and len(own) > 1 and not own & self.active

    def operator(self, n):
        """a pointer or an iterator that is a member of an operator of the assembler"""
        q = n.get("q") or ""
        if q not in self.opfield:
            self.opfield[q] = "espreso::SubKernel" in self.bases(q.rsplit("::", 1)[0].split("<")[0])
        return self.opfield[q]

    # ------------------------------------------------------------------ regions
    def regions(self, f):
        for x in walk(f.b):
            if x["k"] == "OMP" and "parallel" in x["n"]:
                yield x

    def neighbours(self, f, region):
        """array elements written for one iteration and touched by the next one"""
        b = region["b"]
        while b is not None and b["k"] == "Block" and len(b["c"]) == 1:
            b = b["c"][0]
        if b is None or b["k"] != "For" or not b.get("init") or "for" not in region["n"]:
            return
        lv = {x["id"] for x in walk(b["init"]) if x["k"] == "Var"}
        if len(lv) != 1:
            return
        inside = {x["id"] for x in walk(b["b"]) if x["k"] == "Var"}

        def affine(i):
            i = strip(i)
            if i["k"] == "Ref" and i.get("id") in lv:
                return 0
            if i["k"] == "Bin" and i["op"] in ("+", "-"):
                x, y = strip(i["x"]), strip(i["y"])
                if x["k"] == "Ref" and x.get("id") in lv and val(y) is not None:
                    return val(y) if i["op"] == "+" else -val(y)
                if i["op"] == "+" and y["k"] == "Ref" and y.get("id") in lv and val(x) is not None:
                    return val(x)
            return None

        def elem(n):
            """(array, offset) of an access array[t + c]"""
            n = strip(n)
            if n["k"] == "Idx":
                a, i = n["b"], n["i"]
            elif n["k"] == "OpCall" and n["op"] == "[]" and len(n["a"]) == 2:
                a, i = n["a"]
            else:
                return None
            c = affine(i)
            if c is None or any(x["k"] == "Ref" and x.get("id") in inside for x in walk(a)):
                return None
            return text(a), c

        wr, rd = {}, {}

        def scan(n, guarded):
            if n["k"] == "OMP" and any(w in GUARD for w in n["n"].split()):
                guarded = True
            t = None
            if n["k"] == "Bin" and n["op"] in WRITES:
                t = n["x"]
            elif n["k"] == "OpCall" and n["op"] in WRITES and len(n["a"]) == 2:
                t = n["a"][0]
            elif n["k"] == "Un" and n["op"] in ("++", "--"):
                t = n["e"]
            elif n["k"] == "Call" and n.get("o") is not None and n.get("n") in MUTATORS:
                t = n["o"]
            if t is not None and not guarded:
                e = elem(t)
                if e:
                    wr.setdefault(e[0], {}).setdefault(e[1], n.get("l"))
            e = elem(n) if n["k"] in ("Idx", "OpCall") else None
            if e:
                rd.setdefault(e[0], {}).setdefault(e[1], n.get("l"))
            for x in kids(n):
                scan(x, guarded)
        scan(b["b"], False)
        for a, w in wr.items():
            for c, l in w.items():
                for c2, l2 in rd.get(a, {}).items():
                    if c2 != c:
                        yield (f.f, l, "next", "%s[%s%+d] and %s[%s%+d]" % (a, "i", c, a, "i", c2), a, f.q, [])

    def overlap(self, f, region):
        """ranges D[t] .. D[t + 1] of neighbouring threads must not overlap where they are written"""
        def elem(n):
            n = strip(n)
            if n is None:
                return None
            if n["k"] == "Idx":
                a, i = n["b"], strip(n["i"])
            elif n["k"] == "OpCall" and n["op"] == "[]" and len(n["a"]) == 2:
                a, i = n["a"][0], strip(n["a"][1])
            else:
                return None
            c = 0
            if i["k"] == "Bin" and i["op"] in ("+", "-") and val(i["y"]) is not None:
                c, i = val(i["y"]) * (1 if i["op"] == "+" else -1), strip(i["x"])
            return (text(a), i.get("id"), c) if i["k"] == "Ref" else None

        def bound(n):
            """D[t + c] + m"""
            n = strip(n)
            if n is not None and n["k"] == "Bin" and n["op"] in ("+", "-") and val(n["y"]) is not None:
                e = elem(n["x"])
                return e and e + (val(n["y"]) * (1 if n["op"] == "+" else -1),)
            e = elem(n)
            return e and e + (0,)

        tv = {x["id"] for y in walk(region["b"]) if y["k"] == "For" and y.get("init") for x in walk(y["init"]) if x["k"] == "Var"}
        for y in walk(region["b"]):
            if y["k"] != "For" or not y.get("init") or not y.get("e") or not y.get("b"):
                continue
            c = strip(y["e"])
            if c["k"] != "Bin" or c["op"] not in ("<", "!=", "<="):
                continue
            for z in walk(y["init"]):
                if z["k"] != "Var" or z.get("i") is None or strip(c["x"]).get("id") != z["id"]:
                    continue
                lo, hi = bound(z["i"]), bound(c["y"])
                if not lo or not hi or lo[:2] != hi[:2] or lo[1] not in tv:
                    continue
                self.ranges += 1
                top = hi[3] + (c["op"] == "<=")
                if hi[2] - lo[2] < 1 or hi[2] - lo[2] == 1 and top <= lo[3]:
                    continue
                run = {z["id"]} | {strip(v["e"]).get("id") for v in walk(y.get("inc") or z) if v["k"] == "Un" and v["op"] in ("++", "--") and strip(v["e"])["k"] == "Ref"}
                mine = {v["id"] for v in walk(region["b"]) if v["k"] == "Var"}
                for w in walk(y["b"]):
                    t = None
                    if w["k"] == "Bin" and w["op"] in WRITES:
                        t = w["x"]
                    elif w["k"] == "OpCall" and w["op"] in WRITES and len(w["a"]) == 2:
                        t = w["a"][0]
                    elif w["k"] == "Un" and w["op"] in ("++", "--"):
                        t = w["e"]
                    if t is None or strip(t)["k"] == "Ref":
                        continue
                    refs = [v for v in walk(t) if v["k"] == "Ref"]
                    if any(v.get("id") in run for v in refs) and not (refs and refs[0].get("id") in mine and refs[0].get("id") not in run):
                        yield (f.f, w.get("l"), "range", text(t)[:80], text(c)[:60], f.q, [])

    def run_function(self, f, args):
        """f called by all threads, args: abstract values of the arguments"""
        self.out = {}
        self.ndata = 0
        self.ncalls = set()
        fr = Frame(self, f, {p["id"]: v for p, v in zip(f.p, args)}, V(0, False, 2, "this"), [f.uid], 0)
        fr.stmt(f.b)
        return self.conflicts()

    def conflicts(self):
        """unprotected writes; accesses without the protection that other accesses to the same location have"""
        guarded = {w[4]: w for w in self.out.values() if w[2] == "guarded"}
        r = [w for w in self.out.values() if w[2] not in ("guarded", "read")]
        for w in self.out.values():
            if w[2] == "read" and w[4] in guarded:
                r.append(w)
        return r

    def run(self, f, region):
        """list of (node-line, file, kind, name, detail) of unprotected conflicting writes"""
        self.out = {}
        self.ndata = 0
        self.ncalls = set()
        env = {}
        inside = set()
        for x in walk(region["b"]):
            if x["k"] == "Var":
                inside.add(x["id"])
        fr = Frame(self, f, env, V(0, True, 0, "this"), [], 0)
        fr.shared_default = True
        priv = set()
        for c in region["cl"]:
            if c["n"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                for y in c["c"]:
                    for z in walk(y):
                        if z["k"] == "Ref":
                            env[z.get("id")] = V(0, False, 2, z["n"])
        b = region["b"]
        # lambdas of the enclosing function
        for x in walk(f.b):
            if x["k"] == "Var" and x.get("i") is not None and strip(x["i"])["k"] == "Lambda" and x["id"] not in inside:
                env[x["id"]] = V(0, False, 2, x["n"], (strip(x["i"]), fr))
        # pointers/references declared before the region: what they point to is shared
        for _ in range(2):
            if "for" in region["n"].split() or region["n"].endswith("for"):
                fr.loop(b, True)
            else:
                fr.stmt(b)
        for w in self.neighbours(f, region):
            self.out.setdefault(w[:4], w)
        for w in self.overlap(f, region):
            self.out.setdefault(w[:4], w)
        return self.conflicts()


class Frame:
    def __init__(self, R, f, env, this, stack, guard):
        self.R, self.f, self.env, self.this, self.stack, self.guard = R, f, env, this, stack, guard
        self.ret = None
        self.shared_default = False

    # ------------------------------------------------------------------ statements
    def loop(self, n, worksharing):
        while n is not None and n["k"] == "Block" and len(n["c"]) == 1:
            n = n["c"][0]
        if n is None:
            return
        if n["k"] == "For":
            ids = []
            if n.get("init"):
                self.stmt(n["init"])
                for x in walk(n["init"]):
                    if x["k"] == "Var":
                        ids.append(x)
                    elif x["k"] == "Bin" and x["op"] == "=" and strip(x["x"])["k"] == "Ref":
                        ids.append(strip(x["x"]))
            for x in ids:
                v = self.env.get(x["id"])
                if worksharing:
                    if v is None or not (v.sh and v.name != x["n"]):
                        self.env[x["id"]] = V(DIRECT, False, 2, x["n"])
                    else:
                        self.env[x["id"]] = V(DIRECT, v.sh, DIRECT, v.name)
                elif v is not None and (v.dep or v.ld == DATA):
                    self.env[x["id"]] = V(DIRECT if v.dep else 0, v.sh, DIRECT if v.ld else 0, v.name)
            self.ev(n.get("e"))
            self.stmt(n.get("b"))
            self.ev(n.get("inc"))
            if worksharing:
                pass
        elif n["k"] == "Range":
            v = self.ev(n["e"])
            var = n["var"]
            if worksharing:
                self.env[var["id"]] = V(DIRECT, v.sh, DIRECT, v.name)
            elif var.get("ref"):
                self.env[var["id"]] = self.at(v)
            else:
                t = self.f.t(var)
                e = self.at(v)
                self.env[var["id"]] = e if t.endswith("*") else V(e.dep, False, 2, var["n"], src=e.src)
            self.stmt(n["b"])
        else:
            self.stmt(n)

    def stmt(self, n):
        if n is None:
            return
        k = n["k"]
        if k == "Block":
            g, c = self.guard, self.R.crit
            for x in n["c"]:
                self.stmt(x)
            self.guard, self.R.crit = g, c      # locks are released at the end of their block
        elif k in ("For", "Range"):
            self.loop(n, False)
            self.loop(n, False)
        elif k == "If":
            self.stmt(n.get("init"))
            if n.get("cv"):
                self.var(n["cv"])
            self.ev(n.get("e"))
            eq = self.single(n["e"])
            self.guard += eq
            if not self.R.inactive(self.f, n.get("e")):
                self.stmt(n.get("th"))
            self.guard -= eq
            self.stmt(n.get("el"))
        elif k in ("While", "Do"):
            for _ in range(2):
                self.ev(n.get("e"))
                self.stmt(n["b"])
        elif k == "Switch":
            self.ev(n["e"])
            self.stmt(n["b"])
        elif k in ("Case", "Default", "Label"):
            self.stmt(n.get("c"))
        elif k == "Return":
            v = self.ev(n.get("e"))
            if v is not None:
                self.ret = v.join(self.ret)
        elif k == "Decl":
            for x in n["c"]:
                self.var(x)
            for x in n.get("bind") or []:
                v = self.env.get(n["c"][0]["id"], PRIV) if n["c"] else PRIV
                self.env[x["id"]] = v if v.sh else V(v.dep, False, 2, x["n"], src=v.src)
        elif k == "Try":
            self.stmt(n["b"])
            for h in n.get("h", []):
                self.stmt(h)
        elif k == "OMP":
            g = 1 if any(w in GUARD for w in n["n"].split()) else 0
            c = g and any(w in ("critical", "atomic") for w in n["n"].split())
            self.guard += g
            self.R.crit += c
            if n["n"].endswith("for") and not self.stack:
                self.loop(n["b"], True)
            else:
                self.stmt(n.get("b"))
            self.guard -= g
            self.R.crit -= c
        elif k in ("Break", "Continue", "Null", "Goto"):
            pass
        else:
            self.ev(n)

    def single(self, c):
        """the condition selects one iteration"""
        c = strip(c)
        if c is None:
            return 0
        if c["k"] == "Bin" and c["op"] == "&&":
            return max(self.single(c["x"]), self.single(c["y"]))
        if c["k"] == "Bin" and c["op"] == "==":
            a, b = self.ev(c["x"]), self.ev(c["y"])
            return 1 if max(a.dep, b.dep) == DIRECT and min(a.dep, b.dep) == 0 else 0
        if c["k"] == "Un" and c["op"] == "!":
            v = self.ev(c["e"])
            return 1 if v.dep == DIRECT and self.f.t(c["e"]) not in ("bool",) else 0
        return 0

    def isref(self, t):
        return t.endswith("*") or t.endswith("&") or "iterator" in t or "Iterator" in t or t.endswith("*const") or "unique_ptr" in t or "shared_ptr" in t or "reference_wrapper" in t

    def var(self, x):
        i = x.get("i")
        t = self.f.t(x)
        if x.get("d") == "s":      # static local
            self.env[x["id"]] = V(0, True, 0, "static " + x["n"])
            return
        if i is not None and strip(i)["k"] == "Lambda":
            self.env[x["id"]] = V(0, False, 2, x["n"], (strip(i), self))
            return
        v = self.ev(i) if i is not None else None
        if t.split("<")[0] in LOCKS:
            self.guard += 1
            self.R.crit += 1
        if v is None:
            self.env[x["id"]] = V(0, False, 2, x["n"])
        elif x.get("ref") or self.isref(t):
            self.env[x["id"]] = v.but()
        else:
            self.env[x["id"]] = V(v.dep, False, 2, x["n"], src=v.src)
            if t.replace("const ", "") in ARITHMETIC and not v.dep and self.constant(i) and x["id"] not in self.R.written(self.f):
                self.env[x["id"]].name = "=" + x["n"]

    # ------------------------------------------------------------------ expressions
    def at(self, b, *idx):
        """location reached from b by indices / offsets, and the value stored there"""
        nm = b.name.split(".")[-1]
        if not b.sh:
            d = max([b.dep] + [i.dep for i in idx]) and DATA
            return V(d, False, b.ld, b.name, src=b.src)
        ld, via = b.ld, b.via
        for i in idx:
            ld = max(ld, i.dep)
            via = via | i.src
        return V(DATA if ld else 0, True, ld, b.name, src=frozenset((nm,)) | (b.src & SHARED_MAPS) if ld else E, via=via)

    def off(self, b, *idx):
        """pointer b moved by idx"""
        r = self.at(b, *idx)
        return r.but(dep=max([b.dep] + [i.dep for i in idx]))

    def isvar(self, xs):
        return xs is not None and xs["k"] == "Ref" and xs.get("id") in self.env and xs.get("d") in ("v", "p")

    def assign(self, xs, x, y, op):
        """new value of a variable of the region"""
        t = self.f.t(xs)
        if self.isref(t) and not t.endswith("&"):
            if op == "=":
                self.env[xs["id"]] = V(y.dep, y.sh, y.ld, y.name, y.lam, y.src, y.via)
            else:
                self.env[xs["id"]] = self.off(x, y)
        else:
            self.env[xs["id"]] = x.but(dep=max(y.dep, x.dep), src=x.src | y.src, name=x.name.lstrip("="))

    def ev(self, n):
        v = self.ev_(n)
        if n is not None and n["k"] in ("Ref", "Mem") and v.sh and v.ld == NONE and not self.guard and "t" in n:
            t = self.f.t(n).replace("const ", "")
            if t in ARITHMETIC or t.endswith("*"):
                w = (self.f.f, n.get("l", 0), "read", text(n)[:80], n.get("q") or v.name, self.f.q, [])
                self.R.out.setdefault(w[:4], w)
        return v

    def ev_(self, n):
        if n is None:
            return PRIV
        k = n["k"]
        if k in ("Int", "Flt", "Chr", "Bool", "Nul", "Str", "Sizeof", "Zero"):
            return PRIV
        if k == "Ref":
            d = n.get("d")
            if d in ("e", "f", "n"):
                return PRIV
            v = self.env.get(n.get("id"))
            if v is not None:
                return v
            return V(0, True, 0, n.get("q") or n["n"] if d in ("g", "sm", "s") else n["n"])
        if k == "This":
            return self.this
        if k == "Mem":
            if n.get("sm"):
                return V(0, True, 0, n.get("q") or n["n"])
            b = self.ev(n["b"])
            if not b.sh and self.isref(self.f.t(n)) and self.R.operator(n):     # operators are copied by the thread, their pointers lead to the data of the mesh
                return V(DATA, True, DIRECT, n["n"], src=frozenset((n["n"],)))
            nm = n["n"] if n["b"]["k"] == "This" else b.name + "." + n["n"]
            if b.sh and b.ld == DIRECT and self.f.t(n) in ("unsigned long", "size_t", "int", "esint", "unsigned int", "long") and self.R.operator(n):
                return b.but(dep=DIRECT, name=nm, src=frozenset((n["n"],)), lam=None)      # an index kept by the operator of the interval
            return b.but(dep=b.dep if not b.sh else (DATA if b.ld else 0), name=nm, src=frozenset((n["n"],)) | (b.src & SHARED_MAPS) if b.sh and b.ld else b.src, lam=None)
        if k in ("Cast", "DefArg"):
            return self.ev(n["e"])
        if k == "Idx":
            return self.at(self.ev(n["b"]), self.ev(n["i"]))
        if k == "Un":
            v = self.ev(n["e"])
            if n["op"] in ("++", "--"):
                xs = strip(n["e"])
                if not (self.isvar(xs) and (not v.sh or self.f.t(xs).endswith("*"))):
                    self.write(n, n["e"], v, True)
                elif v.dep == DATA and not v.src & SHARED_MAPS:
                    self.env[xs["id"]] = v = v.but(dep=DIRECT)      # cursor running over the range of the iteration
                return v
            if n["op"] == "*":
                return self.at(v)
            if n["op"] == "&":
                return v
            return v.value()
        if k == "Bin":
            op = n["op"]
            if op in WRITES:
                y = self.ev(n["y"])
                x = self.ev(n["x"])
                xs = strip(n["x"])
                t = self.f.t(xs) if xs["k"] == "Ref" else ""
                if self.isvar(xs) and (not x.sh or t.endswith("*")):
                    self.assign(xs, x, y, op)
                    return self.env[xs["id"]]
                self.write(n, n["x"], x, op != "=", rhs=n["y"])
                return x
            if op == ",":
                self.ev(n["x"])
                return self.ev(n["y"])
            a, b = self.ev(n["x"]), self.ev(n["y"])
            if op in BINOPS:
                pa, pb = self.isref(self.ty(n["x"])), self.isref(self.ty(n["y"]))
                if pa and not pb:
                    return self.off(a, b)
                if pb and not pa:
                    return self.off(b, a)
                return vals((a, b))
            return vals((a, b), DATA)
        if k == "Cond":
            self.ev(n["e"])
            return self.ev(n["x"]).join(self.ev(n["y"]))
        if k == "Lambda":
            return V(0, False, 2, "lambda", (n, self))
        if k == "OpCall":
            return self.opcall(n)
        if k == "Call":
            return self.call(n)
        if k == "Ctor":
            vs = [self.ev(a) for a in n["a"]]
            if len(vs) == 1:
                return vs[0]
            return vals(vs)
        if k == "New":
            self.ev(n.get("i"))
            return PRIV
        if k == "Delete":
            self.ev(n["e"])
            return PRIV
        if k == "Throw":
            return PRIV
        return vals([self.ev(x) for x in kids(n)])

    def ty(self, n):
        n2 = n
        while n2 is not None and "t" not in n2 and n2["k"] in ("Cast", "DefArg"):
            n2 = n2["e"]
        return self.f.t(n2) if n2 is not None and "t" in n2 else ""

    def opcall(self, n):
        op, a = n["op"], n["a"]
        if op == "()":
            v = self.ev(a[0])
            if v.lam is not None:
                return self.lam(v.lam, [self.ev(x) for x in a[1:]])
            return self.callee(n, v, [self.ev(x) for x in a[1:]])
        if op == "[]" and len(a) == 2:
            b, i = self.ev(a[0]), self.ev(a[1])
            t = self.ty(a[0])
            if t.startswith(("std::map<", "std::unordered_map<")):
                self.write(n, a[0], b, True)
            return self.at(b, i)
        if op in ("->", "*") and len(a) == 1:
            return self.at(self.ev(a[0]))
        xs = strip(a[0]) if a else None
        if op in WRITES and len(a) == 2:
            y = self.ev(a[1])
            x = self.ev(a[0])
            t = self.f.t(xs) if xs["k"] == "Ref" else ""
            if self.isvar(xs) and (not x.sh or (self.isref(t) and not t.endswith("&"))):
                self.assign(xs, x, y, op)
                return self.env[xs["id"]]
            self.write(n, a[0], x, op != "=", rhs=a[1])
            return x
        if op in ("++", "--"):
            x = self.ev(a[0])
            if not self.isvar(xs):
                self.write(n, a[0], x, True)
            return x
        vs = [self.ev(x) for x in a]
        if op in ("+", "-") and len(vs) == 2 and vs[0].sh and self.isref(self.ty(a[0])):
            return self.off(vs[0], vs[1])
        if op == "<<" and vs and vs[0].sh:
            if "stream" in self.ty(a[0]):
                self.write(n, a[0], vs[0], True)
            return vs[0]
        return vals(vs)

    def lam(self, lam, args):
        """a lambda is evaluated in the context of its definition"""
        L, fr = lam
        if len(self.stack) > self.R.depth or any(x is L for x in self.stack):
            return PRIV
        if fr is not self:
            fr, d = Frame(self.R, fr.f, fr.env, fr.this, self.stack, self.guard), fr
        else:
            d = fr
        fr.shared_default = d.shared_default
        for p, v in zip(L["p"], args):
            fr.env[p["id"]] = v
        sv, fr.ret = fr.ret, None
        self.stack.append(L)
        fr.stmt(L["b"])
        self.stack.pop()
        r, fr.ret = fr.ret, sv
        return r or PRIV

    def call(self, n):
        q = n.get("q") or ""
        name = n.get("n") or ""
        if n.get("fe") is not None:
            v = self.ev(n["fe"])
            args = [self.ev(x) for x in n["a"]]
            if v.lam is not None:
                return self.lam(v.lam, args)
            return V(max([a.dep for a in args] or [0]) and DATA)
        o = self.ev(n["o"]) if n.get("o") is not None else None
        args = [self.ev(x) for x in n["a"]]
        if name in ("omp_get_thread_num",):
            return V(DIRECT)
        q0 = q.split("<")[0]
        for a, v in zip(n["a"], args):
            if v.lam is not None and not q.startswith("espreso"):
                # callable handed to an algorithm: the elements come from the other arguments
                L = v.lam
                base = [w for w in args if w.lam is None]
                e = base[0] if base else PRIV
                self.lam(L, [e for _ in L[0]["p"]])
        if q0 in FIRSTARG and args:
            self.write(n, n["a"][0], args[0], q0 in ("std::sort",))
            if q0 == "std::swap" and len(args) > 1:
                self.write(n, n["a"][1], args[1], False)
            return PRIV
        if q0 in OUTARG and len(args) > OUTARG[q0]:
            self.write(n, n["a"][OUTARG[q0]], args[OUTARG[q0]], False)
            return args[OUTARG[q0]]
        if q0 in PASS:
            r = None
            for v in args:
                r = v if r is None else (r.but(dep=max(r.dep, v.dep), src=r.src | v.src) if not r.sh else self.off(r, v))
            return r or PRIV
        if o is not None and (q.startswith("std::") or q.startswith("__gnu")):
            t = self.ty(n["o"])
            if name in MUTATORS and not t.startswith("const "):
                self.write(n, n["o"], o, True, cont=True)
            if name in ("begin", "end", "data", "front", "back", "rbegin", "rend", "cbegin", "cend", "get", "at", "find", "lower_bound", "upper_bound", "c_str"):
                return self.at(o, *args) if args else o.but(dep=DATA if o.sh and o.ld else o.dep and DATA)
            return V(max([o.dep, DATA if o.sh and o.ld else 0] + [v.dep for v in args]) and DATA)
        return self.callee(n, o, args, n["a"])

    def plain(self, e):
        """a value of an arithmetic type"""
        return self.ty(e).replace("const ", "") in ARITHMETIC or strip(e)["k"] in ("Int", "Flt", "Bool")

    def callee(self, n, o, args, nodes=()):
        q = n.get("q") or ""
        R = self.R
        if o is not None:
            dflt = self.at(o, *args)
        else:
            dflt = V(max([0] + [(DATA if v.sh and v.ld else v.dep) for v in args]) and DATA)
        if q.startswith(SKIPQ):
            return dflt
        fs = []
        d = R.definition(n)
        if d is not None:
            fs.append(d)
        if n.get("virt") and not n.get("qual"):
            seen, todo = set(), [q]
            while todo:
                for g in R.over.get(todo.pop(), []):
                    if g.uid not in seen and len(seen) < 40:
                        seen.add(g.uid)
                        fs.append(g)
                        todo.append(g.q)
        if not fs or len(self.stack) > R.depth:
            return dflt
        args = [v.value().but(name="=") if v.lam is None and not v.dep and self.plain(e) and self.constant(e) else v for v, e in zip(args, nodes)] + args[len(nodes):]
        r = None
        for f in fs:
            if f.b is None or any(x == f.uid for x in self.stack if isinstance(x, tuple)):
                continue
            th = o if o is not None else self.this
            key = (f.uid, tuple(a.key() for a in args), th.key() if th is not None else None, self.guard > 0, R.crit > 0)
            if key in R.memo and R.memo[key][1] is not None:
                outs, ret = R.memo[key]
                for w in outs:
                    R.out.setdefault(w[:4], w)
            else:
                R.ncalls.add(f.q)
                saved, R.out = R.out, {}
                env = {}
                for p, v in zip(f.p, args):
                    t = f.t(p)
                    if v.name.startswith("=") and (p.get("ref") or self.isref(t)):
                        v = v.but(name=v.name[1:])
                    if p.get("ref") or self.isref(t) or v.lam is not None:
                        env[p["id"]] = v
                    else:
                        env[p["id"]] = V(v.dep, False, 2, v.name if v.name.startswith("=") else p["n"], src=v.src) if not (v.sh and ("Matrix" in t or "Vector" in t or "function" in t)) else v
                for p in f.p[len(args):]:
                    env[p["id"]] = V(0, False, 2, p["n"])
                fr = Frame(R, f, env, th, self.stack + [f.uid], self.guard)
                fr.stmt(f.b)
                ret = fr.ret or V(0)
                mine = list(R.out.values())
                R.memo[key] = (mine, ret)
                R.out = saved
                for w in mine:
                    R.out.setdefault(w[:4], w)
            if not (f.ret.endswith("&") or self.isref(f.ret) or "Matrix" in f.ret or "Vector" in f.ret):
                ret = ret.value()
            r = ret if r is None else r.join(ret)
        return r or dflt

    # ------------------------------------------------------------------ writes
    def constant(self, n):
        """every thread evaluates n to the same value"""
        for x in walk(n):
            if x["k"] == "Ref" and x.get("d") in ("v", "p", "b"):
                v = self.env.get(x.get("id"))
                if v is not None and not (v.sh and v.ld == 0 and v.dep == 0) and not v.name.startswith("="):
                    return False
            if x["k"] == "This" and (self.this is None or not self.this.sh or self.this.ld or self.this.dep):
                return False
            if x["k"] in ("Un", "Bin") and x.get("op") in WRITES + ("++", "--"):
                return False
            if x["k"] == "OpCall" and x["op"] in ("++", "--", "()"):
                return False
            if x["k"] in ("Lambda", "New"):
                return False
            if x["k"] == "Call" and x.get("n") in ("omp_get_thread_num", "rand"):
                return False
        return True

    def write(self, n, lhs, v, rmw, rhs=None, cont=False):
        R = self.R
        R.sites.add((self.f.f, n.get("l", 0), text(lhs)))
        if not v.sh or self.guard:
            if v.sh and R.crit and v.ld == NONE:
                w = (self.f.f, n.get("l", 0), "guarded", text(lhs)[:80], strip(lhs).get("q") or v.name, self.f.q, [])
                R.out.setdefault(w[:4], w)
            return
        t = self.ty(lhs)
        if "std::atomic" in t:
            return
        if v.ld == NONE:
            if not rmw and rhs is not None and self.constant(rhs):
                return      # all threads store the same value
            kind = "same"
        elif v.ld and rmw and (cont and v.ld == DATA or v.via & SHARED_MAPS):
            kind = "map"
        else:
            if v.ld == DATA:
                R.ndata += 1
            return
        w = (self.f.f, n.get("l", 0), kind, text(lhs)[:80], v.name, self.f.q, sorted(v.via))
        R.out.setdefault(w[:4], w)
