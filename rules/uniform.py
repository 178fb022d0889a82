"""Which values are the same on all processes?  U uniform, L local to the process, ? not known."""
import re
from facts import walk, kids, strip, text, val
from flow import Client, NORETURN
from mpi import *

RANKS = {"espreso::info::mpi::rank", "espreso::info::mpi::grank"}      # irank selects the instance, i.e. the communicator
# wrappers that leave the same value in all processes: name -> indices of the arguments that become uniform (out, in-place)
MAKES = {"allReduce": (0, 1), "broadcast": (0,), "allGather": (1,), "allGatherUnknownSize": (0,), "uniqueAllGatherUnknownSize": (0,), "allGatherInplace": (0,),
         "getDistribution": (), "barrier": (), "MPI_Allreduce": (0, 1), "MPI_Bcast": (0,), "MPI_Allgather": (3,), "MPI_Allgatherv": (3,), "exscan": (0,)}
POD = ("int", "double", "float", "char", "long", "unsigned", "bool", "short", "std::pair<int", "espreso::_Point", "espreso::Point", "unsigned long", "std::complex")
# the blocks of an output file are matched across the processes by their order
BLOCKS = {"espreso::OutputFilePack::groupData", "espreso::OutputFilePack::commitFile"}
SELF = "ompi_mpi_comm_self"


def podvector(t):
    t = unconst(t.replace("&", "").replace("*", "").strip())
    if not t.startswith("std::vector<"):
        return False
    inner = t[len("std::vector<"):].strip()
    while inner.startswith("std::vector<"):
        inner = inner[len("std::vector<"):]
    return inner.startswith(POD)


def join(cs):
    r = "U"
    for c in cs:
        if c == "L":
            return "L"
        if c == "?":
            r = "?"
    return r


class Uniform(Client):
    across = True

    def __init__(self, P):
        super().__init__(P)
        self.fs = [f for f in P.functions if f.tm != "pat" and f.b]
        self.over = {}
        for f in self.fs:
            for o in f.ov:
                self.over.setdefault(o, []).append(f)
        self.ctxs, self.tabs, self.vc, self.rc, self.busy = {}, {}, {}, {}, set()
        self.paramL = {}
        self.summarise()

    # ---------------------------------------------------------------- collectives
    def targets(self, x, f=None):
        out = []
        d = self.definition(x, f)
        if d is not None and d.b:
            out.append(d)
        if x.get("virt") and not x.get("qual"):
            todo, seen = [x.get("q")], set()
            while todo:
                for g in self.over.get(todo.pop(), []):
                    if (g.f, g.l) not in seen:
                        seen.add((g.f, g.l)); todo.append(g.q); out.append(g)
        return out

    def direct(self, x):
        nm = name(x)
        if nm in BLOCKS:
            return True
        if nm not in COLLECTIVE:
            return False
        return not any(y["k"] == "Ref" and y["n"] == SELF for a in x["a"] for y in walk(a))

    def summarise(self):
        self.has, calls = {}, {}
        for f in self.fs:
            s = calls.setdefault((f.f, f.l), set())
            if f.q in NORETURN:
                continue        # ends the run
            for x in walk(f.b):
                if x["k"] in ("Call", "Ctor", "OpCall"):
                    if self.direct(x):
                        self.has.setdefault((f.f, f.l), name(x))
                    for g in self.targets(x, f):
                        s.add((g.f, g.l))
        ch = True
        while ch:
            ch = False
            for k, s in calls.items():
                if k not in self.has:
                    for c in s:
                        if c in self.has:
                            self.has[k] = self.has[c]; ch = True
                            break

    def collective(self, x):
        """name of the collective reached by a call or None"""
        if x["k"] not in ("Call", "Ctor", "OpCall"):
            return None
        if self.direct(x):
            return name(x)
        for g in self.targets(x):
            if (g.f, g.l) in self.has:
                return self.has[(g.f, g.l)]
        return None

    def sequence(self, n):
        return tuple((name(x) or "").split("::")[-1] for x in walk(n) if x["k"] in ("Call", "Ctor", "OpCall") and self.collective(x))

    # ---------------------------------------------------------------- control conditions
    def contexts(self, f):
        """[(node, conditions)] for every call, assignment and declaration of f"""
        k = id(f)
        if k in self.ctxs:
            return self.ctxs[k]
        out = []
        wrapper = f.f.startswith("src/wrappers/mpi")

        def ends(n):
            """kinds of jumps that leave n: subset of ret, brk, cont with their inner conditions"""
            res = []

            def r(m, conds, inloop):
                if m is None:
                    return
                kk = m["k"]
                if kk == "Return":
                    e = strip(m["e"]) if m.get("e") is not None else None
                    if wrapper and e is not None and e["k"] == "Bool" and not e["v"]:
                        return      # the caller ends the run
                    res.append(("ret", conds))
                elif kk == "Break" and not inloop:
                    res.append(("brk", conds))
                elif kk == "Continue" and not inloop:
                    res.append(("cont", conds))
                elif kk == "If":
                    if m.get("th"): r(m["th"], conds + (m["e"],), inloop)
                    if m.get("el"): r(m["el"], conds + (m["e"],), inloop)
                elif kk in ("For", "While", "Do", "Range"):
                    c = (m["e"],) if m.get("e") is not None else ()
                    r(m["b"], conds + c, True)
                elif kk == "Switch":
                    r(m["b"], conds + (m["e"],), True)
                elif kk == "Lambda":
                    return
                else:
                    for c in kids(m):
                        r(c, conds, inloop)
            r(n, (), False)
            return res

        def rec(n, conds):
            if n is None:
                return
            kk = n["k"]
            if kk == "Block":
                cur = conds
                for c in n["c"]:
                    rec(c, cur)
                    if c["k"] in ("If", "For", "While", "Do", "Range", "Switch", "Block"):
                        for kind, cs in ends(c):
                            if cs:
                                cur = cur + cs
                return
            if kk == "If":
                for c in (n.get("init"), n.get("cv"), n.get("e")):
                    rec(c, conds)
                extra = (n["e"],)
                if n.get("el") is not None and n.get("th") is not None and self.sequence(n["th"]) and self.sequence(n["th"]) == self.sequence(n["el"]):
                    extra = ()      # the same operations on both branches
                rec(n.get("th"), conds + extra)
                rec(n.get("el"), conds + extra)
                return
            if kk in ("For", "While", "Do", "Range"):
                extra = (n["e"],) if n.get("e") is not None else ()
                for kind, cs in ends(n["b"]):
                    if kind in ("ret", "brk"):
                        extra = extra + cs
                rec(n.get("init"), conds)
                if kk == "Range":
                    rec(n["e"], conds)
                    out.append((n, conds + extra))
                elif n.get("e") is not None:
                    rec(n["e"], conds + extra)
                rec(n["b"], conds + extra)
                rec(n.get("inc"), conds + extra)
                return
            if kk == "Switch":
                rec(n["e"], conds)
                rec(n["b"], conds + (n["e"],))
                return
            if kk == "Bin" and n["op"] in ("&&", "||"):
                rec(n["x"], conds)
                rec(n["y"], conds + (n["x"],))
                return
            if kk == "Cond":
                rec(n["e"], conds)
                rec(n["x"], conds + (n["e"],)); rec(n["y"], conds + (n["e"],))
                return
            if kk in ("Call", "Ctor", "OpCall", "Var", "Return") or (kk == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=")) or (kk == "Un" and n["op"] in ("++", "--")):
                out.append((n, conds))
            if kk == "Lambda":
                rec(n["b"], ())
                return
            for c in kids(n):
                rec(c, conds)

        rec(f.b, ())
        self.ctxs[k] = out
        return out

    # ---------------------------------------------------------------- variables
    def table(self, f):
        """variable id -> [(kind, expression, conditions)]"""
        k = id(f)
        if k in self.tabs:
            return self.tabs[k]
        t, made, scope, order = {}, set(), {}, {}
        self.tabs[k] = (t, made)        # recursive functions

        def root(e):
            e = strip(e)
            while e is not None:
                if e["k"] == "Ref":
                    return e.get("id") if e.get("d") in ("v", "p") else None
                if e["k"] in ("Idx", "Mem"):
                    b = strip(e["b"])
                    if b["k"] not in ("Ref", "This") and f.t(b).replace("const", "").strip().endswith("*"):
                        return None     # an object the container only points to
                    e = b
                elif e["k"] == "OpCall" and e["op"] in ("[]", "*", "->") and e["a"]:
                    e = strip(e["a"][0])
                elif e["k"] == "Un" and e["op"] in ("*", "&"):
                    e = strip(e["e"])
                elif e["k"] == "Call" and e.get("o") is not None and e.get("n") in ("data", "back", "front", "begin", "end", "at"):
                    e = strip(e["o"])
                else:
                    return None
            return None

        for n, conds in self.contexts(f):
            kk = n["k"]
            if kk == "Var":
                scope[n["id"]] = {id(c) for c in conds}
                t.setdefault(n["id"], [])
                if n.get("i") is not None:
                    t[n["id"]].append(("=", n["i"], conds))
            elif kk == "Range":
                v = n.get("var")
                if v is not None:
                    t.setdefault(v.get("id"), []).append(("=", n["e"], conds))
            elif kk == "Bin":
                r = root(n["x"])
                if r is not None:
                    t.setdefault(r, []).append((":=" if n["op"] == "=" and strip(n["x"])["k"] == "Ref" else n["op"], n["y"], conds))
            elif kk == "Un":
                r = root(n["e"])
                if r is not None:
                    t.setdefault(r, []).append(("++", None, conds))
            elif kk == "OpCall":
                if n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and len(n["a"]) == 2:
                    r = root(n["a"][0])
                    if r is not None:
                        t.setdefault(r, []).append((n["op"], n["a"][1], conds))
            elif kk == "Call":
                nm = n.get("n")
                q = name(n) or ""
                if nm in MAKES and ("Communication" in q or q.startswith("MPI_")):
                    for i in MAKES[nm]:
                        if nm == "exscan" and (len(n["a"]) < 2 or "std::vector" not in f.t(strip(n["a"][1]))):
                            continue
                        if i < len(n["a"]):
                            r = root(n["a"][i])
                            if r is not None and not (i == 0 and 1 in MAKES[nm] and len(n["a"]) > 1 and root(n["a"][1]) is not None):
                                made.add(r)
                    continue
                if n.get("o") is not None and nm in ("push_back", "emplace_back", "insert", "resize", "assign", "reserve", "pop_back", "erase", "clear", "emplace", "push"):
                    r = root(n["o"])
                    if r is not None and nm not in ("clear", "reserve"):
                        t.setdefault(r, []).append(("size", n["a"][0] if nm == "resize" and n["a"] else None, conds))
                        if nm in ("push_back", "emplace_back", "insert", "assign"):
                            for a in n["a"]:
                                t[r].append(("=", a, ()))
                    continue
                for a in n["a"]:
                    if a["k"] in ("Ref", "Un", "Mem", "OpCall"):
                        r = root(a)
                        if r is not None and (a["k"] == "Ref" or (a["k"] == "Un" and a["op"] == "&")):
                            # possibly modified by the callee
                            d = self.definition(n)
                            if d is None or not d.b:
                                continue
                            pi = next((i for i, b in enumerate(n["a"]) if b is a), None)
                            if pi is not None and pi < len(d.p):
                                pt = d.T[d.p[pi]["t"]] if isinstance(d.p[pi].get("t"), int) else ""
                                if ("&" in pt or "*" in pt) and (d.f, d.l) in self.has and d.p[pi].get("id") in self.table(d)[1]:
                                    made.add(r)
                                    continue
                                if ("&" in pt or "*" in pt) and not pt.startswith("const "):
                                    t.setdefault(r, []).append(("?", None, conds))
                                    if (d.f, d.l) not in self.has and "*" not in pt:
                                        for j, b in enumerate(n["a"]):
                                            if j != pi:
                                                t[r].append(("=", b, ()))
        # a condition the declaration itself depends on says nothing: the variable is visible only inside
        for i, l in t.items():
            sc = scope.get(i)
            if sc:
                t[i] = [(a, b, tuple(c for c in conds if id(c) not in sc)) for a, b, conds in l]
        self.tabs[k] = (t, made)
        return self.tabs[k]

    perspective = False     # True: values as seen by one process, conditions that only select the process are ignored

    def onrank(self, c):
        for x in walk(c):
            if x["k"] == "Ref" and x.get("q") in RANKS:
                return True
            if x["k"] == "Call" and not x["a"]:
                d = self.definition(x)
                if d is not None and d.b and d.T[d.raw["ret"]] == "bool" and any(y["k"] == "Ref" and y.get("q") in RANKS for y in walk(d.b)):
                    return True
        return False

    def var(self, f, i, name_, typ):
        key = (id(f), i)
        if key in self.vc:
            return self.vc[key]
        if key in self.busy:
            return "U"
        t, made = self.table(f)
        if i in made:
            self.vc[key] = "U"
            return "U"
        if i not in t:
            return "L" if self.paramL.get((f.f, f.l, name_)) else "?"
        self.busy.add(key)
        try:
            cs = []
            isparam = any(p.get("id") == i for p in f.p)
            if isparam:
                cs.append("L" if self.paramL.get((f.f, f.l, name_)) else "?")
            last = None
            for j, (kind, e, conds) in enumerate(t[i]):
                if kind == ":=" and not conds and e is not None and self.cls(f, e) != "L":
                    last = j        # overwritten for good by a value that is not local
            for kind, e, conds in t[i][last or 0:]:
                if kind == "?":
                    cs.append("?")
                if e is not None:
                    cs.append(self.cls(f, e))
                for c in conds:
                    if self.perspective and self.onrank(c):
                        continue
                    cc = self.cls(f, c)
                    if cc == "L":
                        cs.append("L")
                if "L" in cs:
                    break
            r = join(cs)
        finally:
            self.busy.discard(key)
        if not self.busy:
            self.vc[key] = r
        return r

    # ---------------------------------------------------------------- expressions
    def cls(self, f, e, depth=0):
        e = strip(e)
        if e is None:
            return "U"
        k = e["k"]
        if depth > 40:
            return "?"
        if k in ("Int", "Flt", "Chr", "Bool", "Nul", "Str", "Sizeof"):
            return "U"
        if val(e) is not None and k == "Ref" and e.get("d") == "e":
            return "U"
        if k == "Ref":
            q = e.get("q") or ""
            if q in RANKS:
                return "L"
            if q == "espreso::info::mpi::irank":
                return "?"
            if q.startswith("espreso::info::ecf") or q.startswith("espreso::info::mpi::"):
                return "U"
            if e.get("d") in ("v", "p"):
                return self.var(f, e.get("id"), e["n"], f.t(e))
            if e.get("d") == "e":
                return "U"
            if q in ("espreso::Dual_Map::size", "espreso::Dual_Map::neighbors", "espreso::Dual_Map::nmap", "espreso::Dual_Map::nsize"):
                return "L"
            return "?"
        if k == "Bin" and e["op"] in ("==", "!=") and "nullptr" in (text(e["x"]), text(e["y"])):
            return "?"
        if k == "Bin":
            if f.t(strip(e["x"])).endswith("*") and f.t(strip(e["y"])).endswith("*") and e["op"] in ("==", "!="):
                return "?"
            return join((self.cls(f, e["x"], depth + 1), self.cls(f, e["y"], depth + 1)))
        if k == "Un":
            if e["op"] == "!" and f.t(strip(e["e"])).endswith("*"):
                return "?"
            return self.cls(f, e["e"], depth + 1)
        if k == "Cond":
            return join((self.cls(f, e["e"], depth + 1), self.cls(f, e["x"], depth + 1), self.cls(f, e["y"], depth + 1)))
        if k == "Mem":
            n, b = e["n"], e["b"]
            own = (e.get("q") or "").split("::")[-2:]
            if own[0] in ("DistributionInfo", "DistributedDataInfo", "DuplicatedDataInfo", "NodeUniquenessInfo"):
                return "U" if n == "totalSize" else "L"
            if n == "rank" and "MPI" in f.t(strip(b)):
                return "L"
            if n == "size" and "MPI" in f.t(strip(b)):
                return "U"
            tx = text(e)
            if tx.startswith("espreso::info::ecf"):
                return "U"
            if strip(b)["k"] == "This" and n in self.own(f):
                return "?"          # set by this very function: guards the first call
            if n in ("neighbors", "neighborsWithMe"):
                return "L"
            if n in ("K", "R1", "R2", "B1", "B0", "D2C", "D2C0") and "std::vector<" in f.t(e):
                return "L"          # one entry per domain of the process
            if n == "process" and "Distribut" in f.t(e):
                return "L"
            bt = f.t(strip(b))
            if bt.rstrip("& *").endswith("::Lambdas"):
                return "L"
            if ("FETI" in bt or "Uniform" in bt) and re.match(r"(const )?std::vector<(espreso::)?(Matrix|Vector)_", f.t(e)):
                return "L"          # one entry per domain of the process
            if "Decomposition" in bt and "Configuration" not in bt and n in ("begin", "end", "dbegin", "dend", "halo", "neighDomain"):
                return "L"
            if n in ("size", "offset", "nhalo", "uniqOffset", "uniqSize") and "Store" in bt and "std::" not in bt:
                return "L"
            if podvector(f.t(e)) and ("Store" in bt or "MeshData" in bt or "Nodes" in bt or "Elements" in bt):
                return "L"
            bc = self.cls(f, b, depth + 1) if strip(b)["k"] != "This" else "?"
            return bc if bc == "L" and not f.t(e).endswith("*") else "?" if bc != "U" else "U"
        if k == "Idx":
            return join((self.cls(f, e["b"], depth + 1), self.cls(f, e["i"], depth + 1)))
        if k == "OpCall":
            return join(self.cls(f, a, depth + 1) for a in e["a"])
        if k == "Call":
            o = e.get("o")
            if o is not None:
                t = f.t(strip(o))
                if "serializededata<" in t or "tarray<" in t:
                    return "L"
                if e.get("n") in ("size", "empty", "begin", "end", "front", "back", "at", "count", "find", "length", "cbegin", "cend"):
                    return join([self.cls(f, o, depth + 1)] + [self.cls(f, a, depth + 1) for a in e["a"]])
            q = name(e) or ""
            if "Communication::" in q and e.get("n") in ("exscan", "allReduce"):
                return "U"
            if q.startswith("espreso::math::") and e.get("n") in ("dot", "norm"):
                return "L"      # of the part stored in the process
            ds = self.targets(e, f)
            if ds:
                return "L" if any(self.ret(d) == "L" for d in ds) else "?"
            if q.startswith("std::") or q in ("sqrt", "fabs", "abs", "pow"):
                return join(self.cls(f, a, depth + 1) for a in e["a"])
            return "?"
        if k == "Ctor":
            return join(self.cls(f, a, depth + 1) for a in e["a"])
        if k == "Init":
            return join(self.cls(f, a, depth + 1) for a in e["c"])
        return "?"

    def own(self, f):
        k = ("own", id(f))
        if k not in self.tabs:
            s = set()
            for x in walk(f.b):
                if x["k"] in ("Bin", "OpCall") and x.get("op") == "=":
                    l = strip(x["x"] if x["k"] == "Bin" else x["a"][0])
                    if l["k"] == "Mem" and strip(l["b"])["k"] == "This":
                        s.add(l["n"])
                elif x["k"] == "Call" and x.get("o") is not None and x.get("n") in ("resize", "push_back", "swap", "assign"):
                    l = strip(x["o"])
                    if l["k"] == "Mem" and strip(l["b"])["k"] == "This":
                        s.add(l["n"])
            self.tabs[k] = s
        return self.tabs[k]

    def ret(self, d):
        key = (d.f, d.l)
        if key in self.rc:
            return self.rc[key]
        self.rc[key] = "?"
        rs = [(x, conds) for x, conds in self.contexts(d) if x["k"] == "Return" and x.get("e") is not None]
        cs = [self.cls(d, x["e"]) for x, conds in rs]
        if len({text(x["e"]) for x, conds in rs}) > 1:      # which value is returned
            cs += [c for x, conds in rs for c in (self.cls(d, e) for e in conds) if c == "L"]
        self.rc[key] = join(cs) if cs else "U"
        return self.rc[key]
