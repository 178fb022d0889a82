"""O01  A result file does not depend on the number of processes."""
from facts import walk, text, strip, val
from flow import Client, Flow
from uniform import Uniform

EXPLANATION = """
All processes append to an output file; OutputFilePack::groupData closes a block and the blocks of all processes are merged in the order of the processes, commitFile closes the file.
Every function that commits a file is interpreted over all its paths (writer helpers, lambdas and callbacks inlined) from three points of view: the first process, an inner one and the
last one; conditions on the rank select the point of view. Writes that only the first (last) process performs are its texts, the others are data of all processes.
The values written by the first process only are classified by the analysis of uniform and process-local values.
"""
RULE = """
In a block a text of the first process precedes the data and a text of the last process follows them; data are in a block when the file is committed (text too unless the section is empty);
a text written by one process does not contain a value local to that process; a value equal on all processes is not written unconditionally by all of them.
"""
ASSUMPTIONS = ["sections without data may lose their header", "conditions other than those on the rank are equal for all processes (M02)"]

RANK = "espreso::info::mpi::rank"
SIZE = "espreso::info::mpi::size"
PACK = "espreso::OutputFilePack"
FILE = "espreso::OutputFile"


class Writer(Client):
    inline_lambdas = True
    across = True
    max_inline = 10

    def __init__(self, P, writers, methods):
        super().__init__(P)
        self.writers, self.methods = writers, methods
        self.sites = {}
        self.texts = {}
        self.problems = {}
        self.commits = {}
        self.second = False

    # state: (me, pending, bools)
    def iswriter(self, n):
        return n["k"] == "Call" and (n.get("cls") in self.writers)

    def inline(self, call, func):
        return not self.iswriter(call) and (func.f, func.l) in self.methods

    def cond(self, n, s, truth):
        n = strip(n)
        me = s[0]
        if n["k"] == "Ref" and n.get("q") == RANK:
            return s if (me != "first") == truth else None
        if n["k"] == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            x, y = strip(n["x"]), strip(n["y"])
            tx, ty = text(x), text(y)
            if RANK not in tx and RANK in ty:
                x, y, tx, ty = y, x, ty, tx
            r = None
            if tx == RANK and val(y) == 0:
                r = me == "first"
            elif "%s+1" % RANK in tx.replace("(", "").replace(")", "") and ty == SIZE:
                r = me == "last"
            elif tx == RANK and ty.replace("(", "").replace(")", "") == SIZE + "-1":
                r = me == "last"
            if r is not None and n["op"] in ("==", "!="):
                return s if (r == truth) == (n["op"] == "==") else None
            if r is not None and n["op"] in ("<", ">") and tx == RANK and val(y) == 0:
                return s if (me != "first") == truth else None
        return s

    def track(self, n):
        n = n if n["k"] == "Var" else strip(n)
        if n["k"] == "Var" and self.func.t(n) == "bool":
            return n["id"]
        if n["k"] == "Ref" and n.get("d") == "v" and self.func.t(n) == "bool":
            return n["id"]
        return None

    def setbool(self, s, key, truth):
        return (s[0], s[1], frozenset({x for x in s[2] if x[0] != key} | {(key, truth)}))

    def getbool(self, s, key):
        for k, v in s[2]:
            if k == key:
                return v
        return None

    def kind(self, u):
        v = self.sites.get(u, set())
        return "first" if v == {"first"} else "last" if v == {"last"} else "data"

    def expr(self, n, s):
        if not self.iswriter(n):
            return (s,)
        me, pend, bools = s
        q = n.get("q", "")
        u = n.get("_u")
        if q == PACK + "::groupData":
            return ((me, "", bools),)
        if q == PACK + "::commitFile":
            self.commits.setdefault(u, (n, {}))[1].setdefault(me, set()).add(pend)
            return ((me, "", bools),)
        if not n.get("_w"):
            return (s,)
        self.sites.setdefault(u, set()).add(me)
        if not self.second:
            return (s,)
        k = self.kind(u)
        if k == "first":
            self.texts[u] = n
            if pend == "data":
                self.problems.setdefault(u, (n, "order"))
                return ((me, pend, bools),)
            return ((me, "text", bools),)
        if k == "last":
            self.texts[u] = n
            return ((me, "tail", bools),)
        if pend == "tail":
            self.problems.setdefault(u, (n, "tail"))
        return ((me, "data", bools),)


def run(ctx):
    P = ctx.program("src/*")
    U = Uniform(P)
    U.perspective = True
    bases = {}
    for q, rs in P.records.items():
        bases[q] = [b for r in rs for b in r["bases"]]
    fs = [f for f in P.functions if f.tm != "pat" and f.b]
    # classes derived from OutputFilePack
    writers = {PACK, FILE}
    ch = True
    while ch:
        ch = False
        for q, bs in bases.items():
            if q not in writers and any(b in writers for b in bs):
                writers.add(q); ch = True
    # methods of writers that append something
    appends, defs = set(), {}
    for f in fs:
        defs.setdefault(f.q, []).append(f)
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f.raw.get("cls") in writers and f.q not in appends and f.n not in ("reorder", "write"):
                if f.q == FILE + "::insert" or any(x["k"] == "Call" and x.get("q") in appends for x in walk(f.b)):
                    appends.add(f.q); ch = True
    # functions that use a writer, directly or through the ones they call
    calls, uses = {}, set()
    for f in fs:
        if f.raw.get("cls") in writers:
            continue
        for x in walk(f.b):
            if x["k"] == "Call" and x.get("cls") in writers:
                uses.add((f.f, f.l))
    W = Writer(P, writers, uses)
    where = {}
    n = 0
    for f in fs:
        if (f.f, f.l) in uses:
            for x in walk(f.b):
                if x["k"] == "Call" and x.get("cls") in writers:
                    n += 1
                    x["_u"], x["_w"] = n, 1 if x.get("q") in appends else 0
                    where[n] = (f, x)
    # also small helpers returning a condition on the rank
    for f in fs:
        if f.T[f.raw["ret"]] == "bool" and len(list(walk(f.b))) < 12 and any(x["k"] == "Ref" and x.get("q") == RANK for x in walk(f.b)):
            W.methods.add((f.f, f.l))
    entries = [f for f in fs if (f.f, f.l) in uses]
    ctx.count("writer_classes", len(writers))
    ctx.count("appending_methods", len(appends))
    called = set()
    for f in fs:
        if (f.f, f.l) in uses:
            for x in walk(f.b):
                if x["k"] == "Call" and not W.iswriter(x):
                    d = W.definition(x, f)
                    if d is not None and (d.f, d.l) in uses and d is not f:
                        called.add((d.f, d.l))
    roots = [f for f in entries if (f.f, f.l) not in called and any(x["k"] == "Call" and x.get("q") == PACK + "::commitFile" for g in closure(W, f, uses) for x in walk(g.b))]
    init = [(me, "", frozenset()) for me in ("first", "inner", "last")]
    for second in (False, True):
        W.second = second
        W.commits = {}
        for f in roots:
            Flow(W).run(f, init)
    for f in roots:
        ctx.sample("functions", f.q)
    ctx.count("file_writing_functions", len(roots))
    for u in W.sites:
        ctx.oblige("write_sites")
        ctx.count("written_by_%s" % W.kind(u))
    for u, (x, what) in W.problems.items():
        f = where[u][0]
        ctx.violate("%s:%s:%s" % (what, f.q, text(x)[:80]), f.where(x),
                    "%s: %s of the first process is appended after data in the same block: with more processes it stays in front of the data of the others" % (f.q, text(x)[:100]) if what == "order"
                    else "%s: %s follows a text of the last process in the same block" % (f.q, text(x)[:100]))
    for u, (x, by) in W.commits.items():
        f = where[u][0]
        ctx.oblige("commits")
        for me, st in by.items():
            if st & {"data", "tail"} or st == {"text"}:
                ctx.violate("lost:%s:%s" % (f.q, text(x)[:60]), f.where(x), "%s: the file is committed although its last %s are not closed by groupData: they are not written" % (f.q, "data" if "data" in st else "texts"))
                break
    for u, x in W.texts.items():
        f, orig = where[u]
        for a in orig["a"]:
            ctx.oblige("texts_of_one_process")
            if U.cls(f, a) == "L":
                ctx.violate("local:%s:%s" % (f.q, text(orig)[:80]), f.where(orig), "%s: %s is written for all processes but %s is local to the first one" % (f.q, text(orig)[:100], text(a)[:80]))
    # data every process writes once, whatever it holds
    callers = {}
    for f in entries:
        for x in walk(f.b):
            if x["k"] == "Call" and not W.iswriter(x):
                d = W.definition(x, f)
                if d is not None and (d.f, d.l) in uses and d is not f:
                    callers.setdefault((d.f, d.l), []).append((f, x))
    cond, lam = {}, {}
    for f in entries:
        for x, c in U.contexts(f):
            cond[id(x)] = c
        for y in walk(f.b):
            if y["k"] == "Lambda":
                for z in walk(y["b"]):
                    lam.setdefault(id(z), []).append(y)

    def once(f, x, depth=0):
        """x is executed equally by all processes"""
        if depth > 6 or id(x) not in cond or any(U.cls(f, c) != "U" for c in cond[id(x)]):
            return False
        inner = min(lam.get(id(x), []), key=lambda y: len(list(walk(y["b"]))), default=None)
        if inner is not None:
            var = next((v for v in walk(f.b) if v["k"] == "Var" and v.get("i") is not None and strip(v["i"]) is inner), None)
            if var is None:
                return False
            refs = [y for y in walk(f.b) if y["k"] == "Ref" and y.get("id") == var["id"]]
            at = [y for y in walk(f.b) if y["k"] == "OpCall" and y["op"] == "()" and y["a"] and strip(y["a"][0]).get("id") == var["id"]]
            return len(at) == len(refs) > 0 and all(once(f, y, depth + 1) for y in at)
        if f in roots:
            return True
        cs = callers.get((f.f, f.l), [])
        return bool(cs) and all(once(g, y, depth + 1) for g, y in cs)

    for u, by in W.sites.items():
        if W.kind(u) != "data" or len(by) < 3:
            continue
        f, x = where[u]
        ctx.oblige("data_sites")
        if x["a"] and all(U.cls(f, a) == "U" for a in x["a"]) and once(f, x):
            ctx.violate("repeated:%s:%s" % (f.q, text(x)[:80]), f.where(x), "%s: %s is written by every process although it does not depend on the process: it is repeated in the file" % (f.q, text(x)[:100]))
    ctx.floor("write_sites", 40)
    ctx.floor("file_writing_functions", 4)


def closure(W, f, uses):
    out, todo, seen = [], [f], set()
    while todo:
        g = todo.pop()
        if (g.f, g.l) in seen:
            continue
        seen.add((g.f, g.l)); out.append(g)
        for x in walk(g.b):
            if x["k"] == "Call":
                d = W.definition(x, g)
                if d is not None and (d.f, d.l) in uses:
                    todo.append(d)
    return out
