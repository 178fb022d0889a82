"""K04: configuration text that cannot be understood stops the run."""
from facts import walk, text, strip, val, kids, AnalysisBroken
import flow

EXPLANATION = """
Path-sensitive dataflow over the text conversions of all parameter holders and over the configuration reader.
A conversion may report success only on paths on which the extraction consumed the whole text and did not
fail. In the reader every path on which a parameter is not found, a value is not accepted, a region is left
open, a token or option is unknown, or a required argument is missing must end in a reported error, and a
looked-up parameter is dereferenced only where it is known to exist; every scanning loop of the tokenizer that consumes
characters must test for the end of the file.
"""
RULE = "success => eof and not fail; not found / not accepted / unbalanced / unknown / missing => error exit on every path; scan loops test eof"
ASSUMPTIONS = ["eslog::error/globalerror do not return", "std stream extraction sets eof/fail as standardised"]


def streamid(n, f):
    n = strip(n)
    while n["k"] == "OpCall" and n["op"] in (">>", "<<"):
        n = strip(n["a"][0])
    if n["k"] == "Ref" and "stringstream" in f.t(n):
        return n["id"]
    if n["k"] == "Ref" and n.get("d") in ("v", "p") and "stream" in f.t(n):
        return n["id"]
    return None


class Conv(flow.FactClient):
    split_return = True

    def __init__(self, P, ctx):
        super().__init__(P)
        self.ctx = ctx

    def inline(self, call, func):
        return func.f.startswith("src/config/") or func.f.startswith("src/basis/utilities/")

    def expr(self, n, s):
        if n["k"] == "OpCall" and n["op"] == ">>":
            i = streamid(n, self.func)
            if i is not None:
                s = frozenset(x for x in s if not (x[0] in ("eof", "fail") and x[1] == i)) | {("ext", i)}
        if n["k"] == "Call" and n.get("o") is None:
            q = n.get("q", "").split("::")[-1]
            if q in ("atoi", "atof", "atol", "atoll") or (q in ("stoi", "stod", "stof", "stol", "stoul", "stoll") and len([a for a in n["a"] if a["k"] != "DefArg"]) < 2):
                s = s | {("lossy", q)}
        return (s,)

    def cond(self, n, s, truth):
        n = strip(n)
        i = what = None
        if n["k"] == "Call" and n.get("o") is not None and n.get("n") in ("eof", "fail", "good"):
            i, what = streamid(n["o"], self.func), n["n"]
        elif n["k"] == "Call" and n.get("o") is not None and "operator bool" in (n.get("n") or n.get("q", "")):
            i, what, truth = streamid(n["o"], self.func), "fail", not truth
        elif n["k"] == "OpCall" and n["op"] == "!" and len(n["a"]) == 1:
            i, what = streamid(n["a"][0], self.func), "fail"
        elif n["k"] == "OpCall" and n["op"] in (">>",):
            i, what, truth = streamid(n, self.func), "fail", not truth
        if i is None:
            return s
        if what == "good":
            return s
        if (what, i, not truth) in s:
            return None
        return s | {(what, i, truth)}

    def on_bool_return(self, n, s, truth):
        if truth:
            for x in s:
                if x[0] == "lossy":
                    self.ctx.violate("convert:%s:%s" % (self.func.q, x[1]), self.func.where(n), "%s accepts text converted by %s, which ignores what it cannot read" % (self.func.q, x[1]))
                if x[0] == "ext":
                    miss = [w for w, v in (("eof", True), ("fail", False)) if (w, x[1], v) not in s]
                    if miss:
                        self.ctx.violate("convert:%s" % self.func.raw["q"], self.func.where(n), "%s can report success although %s" % (
                            self.func.q, " and ".join({"eof": "part of the text was not read", "fail": "the extraction failed"}[m] for m in miss)))
        return s


PARAM = "getParameter"


class Reader(flow.FactClient):
    def __init__(self, P, ctx):
        super().__init__(P)
        self.ctx = ctx
        self.top = {}

    def inline(self, call, func):
        return func.f == self.func.f and (func.raw.get("stc") or not func.cls or func.cls == self.func.cls) and func.n not in ("read", "_read", "store")

    def v(self, key, n, msg):
        self.ctx.violate("%s:%s" % (key, self.func.q), self.func.where(n), msg)

    def pid(self, n):
        n = strip(n)
        if n["k"] == "Ref" and "ECFParameter" in self.func.t(n) and "*" in self.func.t(n):
            return n["id"]
        return None

    def stackid(self, n):
        n = strip(n)
        if n["k"] == "Ref" and "std::stack<" in self.func.t(n) and "ECFObject" in self.func.t(n):
            return n["id"]
        return None

    def expr(self, n, s):
        k = n["k"]
        if k == "Call" and n.get("o") is not None and n.get("n") == "setValue":
            return (s | {("pend", n.get("l"))},)
        tgt = None
        if k == "Bin" and n["op"] == "=" and self.pid(n["x"]) is not None:
            tgt, src = self.pid(n["x"]), strip(n["y"])
        if k == "Var" and n.get("i") and "ECFParameter" in self.func.t(n) and "*" in self.func.t(n):
            tgt, src = n["id"], strip(n["i"])
        if tgt is not None:
            s = frozenset(x for x in s if not (x[0] in ("maybe", "obj") and x[1] == tgt))
            if src["k"] == "Call" and src.get("n") == PARAM:
                s = s | {("maybe", tgt)}
            return (s,)
        if k == "Mem" and n.get("ar"):
            i = self.pid(n["b"])
            if i is not None and ("maybe", i) in s:
                self.v("null", n, "a parameter looked up by name is used although it may not exist")
        if k == "Call" and n.get("o") is not None and self.pid(n["o"]) is not None and ("maybe", self.pid(n["o"])) in s:
            self.v("null", n, "a parameter looked up by name is used although it may not exist")
        if k == "Call" and n.get("o") is not None and n.get("n") == "push" and self.stackid(n["o"]) is not None:
            s = frozenset(x for x in s if x[0] not in ("closed", "open", "sz"))
            a = n["a"][0]
            r = next((self.pid(x) for x in walk(a) if self.pid(x) is not None), None)
            if r is not None and ("obj", r, True) not in s:
                self.v("object", n, "a region is opened on a parameter that may not be an object")
        if k == "Call" and n.get("o") is not None and n.get("n") == "pop" and self.stackid(n["o"]) is not None:
            s = frozenset(x for x in s if x[0] != "closed")
            if not any(x[0] == "open" for x in s):
                self.v("pop", n, "a region end is accepted although no region may be open")
            s = frozenset(x for x in s if x[0] not in ("open", "sz"))
        return (s,)

    def cond(self, n, s, truth):
        n = strip(n)
        if n["k"] == "Call" and n.get("n") == "setValue":
            s = frozenset(x for x in s if x[0] != "pend")
            return s if truth else s | {("rejected", n.get("l"))}
        # null tests
        p, eq = None, None
        if n["k"] == "Bin" and n["op"] in ("==", "!=") and (val(n["y"]) == 0 or strip(n["y"])["k"] == "Nul" or text(strip(n["y"])) in ("nullptr", "__null", "0")):
            p, eq = self.pid(n["x"]), n["op"] == "=="
        elif self.pid(n) is not None:
            p, eq = self.pid(n), False
        if p is not None:
            null = truth == eq
            if ("maybe", p) in s:
                s = s - {("maybe", p)}
                if null:
                    s = s | {("notfound", p)}
            elif null and ("notfound", p) not in s:
                pass
            return s
        if n["k"] == "Call" and n.get("n") in ("isObject", "isValue") and n.get("o") is not None and self.pid(n["o"]) is not None:
            obj = truth == (n["n"] == "isObject")
            return frozenset(x for x in s if not (x[0] == "obj" and x[1] == self.pid(n["o"]))) | {("obj", self.pid(n["o"]), obj)}
        # default of a missing argument
        if n["k"] == "OpCall" and n["op"] in ("==", "!=") and len(n["a"]) == 2:
            e = [strip(y) for y in n["a"]]
            end = next((y for y in e if y["k"] == "Call" and y.get("n") in ("end", "cend") and y.get("o") is not None and "map<unsigned long" in self.func.t(strip(y["o"]))
                        and strip(y["o"]).get("d") == "p"), None)
            if end is not None and truth == (n["op"] == "==") and not any(y["k"] == "Call" and y.get("n") == "begin" for y in e):
                return s | {("missing",)}
        # region stack
        x, c, op = None, None, None
        if n["k"] == "Bin" and n["op"] in ("==", "!=", ">", "<", ">=", "<=") and strip(n["x"])["k"] == "Call" and strip(n["x"]).get("n") == "size":
            x, c, op = strip(n["x"]), val(n["y"]), n["op"]
        if n["k"] == "Call" and n.get("n") == "size":
            x, c, op = n, 0, "!="
        if n["k"] == "Call" and n.get("n") == "empty":
            x, c, op = n, 0, "=="
        if x is not None and c is not None and x.get("o") is not None:
            sizes = [v for v in range(0, 6) if ({"==": v == c, "!=": v != c, ">": v > c, "<": v < c, ">=": v >= c, "<=": v <= c}[op]) == truth]
            if self.stackid(x["o"]) is not None:
                cur = next((y[1] for y in s if y[0] == "sz"), tuple(range(0, 6)))
                new = tuple(v for v in cur if v in sizes)
                if not new:
                    return None
                s = frozenset(y for y in s if y[0] != "sz") | {("sz", new)}
                if new == (1,):
                    s = s | {("closed",)}
                if min(new) >= 2:
                    s = s | {("open",)}
            else:
                o = strip(x["o"])
                if o["k"] == "Ref" and "vector<std::" in self.func.t(o) and "string" in self.func.t(o) and o["id"] in self.prefix and sizes and min(sizes) >= 1:
                    s = s | {("open",)}
        return s

    def switch(self, n, s, values):
        if "getopt" in str(n.get("_opt", "")) and values == [63]:
            return s | {("badoption",)}
        return s

    def nodefault(self, n, s, vals):
        if n.get("_token"):
            if n["_token"] <= set(vals):
                return None
            return s | {("token",)}
        return s

    def on_return(self, n, s):
        for x in s:
            if x[0] == "pend":
                self.v("ignored", {"l": x[1]}, "the verdict on a parameter's value is ignored")
            if x[0] == "rejected":
                self.v("rejected", {"l": x[1]}, "reading continues after a value was rejected")
            if x[0] == "notfound":
                self.v("notfound", n, "reading continues after an unknown parameter")
            if x[0] == "missing":
                self.v("missing", n, "the reader returns normally although an argument is missing and has no default")
            if x[0] == "token":
                self.v("token", n, "reading continues after an unknown token")
            if x[0] == "badoption":
                self.v("option", n, "an unknown command line option is accepted")
            if x[0] == "b" and x[1] in self.mustbetrue and x[2] is False:
                self.v("flag", n, "the reader returns normally although a required argument is missing (%s)" % self.mustbetrue[x[1]])
        if self.needclosed and ("closed",) not in s:
            self.v("closed", n, "the reader can return although a region was not closed")
        return (s,)


def prepare(P, f, c):
    """per-function facts of a reader function"""
    c.prefix, c.mustbetrue, c.needclosed = set(), {}, False
    tok = P.enums.get("espreso::Tokenizer::Token")
    # vectors pushed/popped together with the region stack
    pops, pushes = set(), set()
    for n in walk(f.b):
        if n["k"] == "Call" and n.get("o") is not None and strip(n["o"])["k"] == "Ref":
            o = strip(n["o"])
            if n["n"] == "pop_back" and "string" in f.t(o):
                pops.add(o["id"])
            if n["n"] == "push" and "std::stack<" in f.t(o) and "ECFObject" in f.t(o):
                c.needclosed = True
        if n["k"] == "Switch":
            vals = {val(x) for x in walk(n["b"]) if x["k"] == "Case"}
            e = strip(n["e"])
            if tok and e["k"] == "Call" and e.get("n") == "next":
                n["_token"] = {v for _, v in tok["c"]}
            if 63 in vals and any(x["k"] == "Call" and "getopt" in x.get("q", "") for x in walk(f.b)):
                n["_opt"] = "getopt"
    c.prefix = pops
    # function-level flags that start true and are cleared when something is missing
    for n in f.b["c"]:
        if n["k"] == "Decl":
            for v in n["c"]:
                if f.t(v) == "bool" and v.get("i") and val(strip(v["i"])) == 1:
                    if any(x["k"] == "Bin" and x["op"] == "=" and strip(x["x"]).get("id") == v["id"] and val(strip(x["y"])) == 0 for x in walk(f.b)):
                        c.mustbetrue[v["id"]] = v["n"]


def run(ctx):
    P = ctx.program("src/config/*", "src/esinfo/*")
    n = 0
    done = set()
    for f in P.functions:
        if f.n == "_setValue" and f.b is not None and f.tm != "pat" and f.f.startswith("src/config/") and f.ret == "bool":
            if (f.f, f.l) in done:
                continue
            done.add((f.f, f.l))
            ctx.oblige("conversions")
            ctx.sample("conversion", "%s %s" % (f.where(), f.q))
            c = Conv(P, ctx)
            flow.Flow(c).run(f, [frozenset()])
    ctx.floor("conversions", 5)
    for f in P.functions:
        if f.b is None or f.tm == "pat" or not f.f.startswith("src/config/reader/") or not f.f.endswith(".cpp"):
            continue
        if not any(x["k"] == "Call" and x.get("n") in (PARAM, "setValue") for x in walk(f.b)):
            continue
        c = Reader(P, ctx)
        prepare(P, f, c)
        ctx.oblige("reader_functions")
        ctx.oblige("parameter_accesses", sum(1 for x in walk(f.b) if x["k"] == "Call" and x.get("n") in (PARAM, "setValue")))
        flow.Flow(c).run(f, [frozenset()])
        if any(x["k"] == "Call" and "getopt" in x.get("q", "") for x in walk(f.b)):
            if not any(x["k"] == "Switch" and x.get("_opt") for x in walk(f.b)):
                ctx.violate("option:" + f.q, f.where(), "an unknown command line option is not rejected")
        ctx.sample("reader", "%s %s" % (f.where(), f.q))
    ctx.floor("parameter_accesses", 3)
    # the files: cannot be opened => error
    for f in P.functions:
        if f.b is None or not f.f.startswith("src/config/reader/tokenizer.cpp"):
            continue
        for n in walk(f.b):
            if n["k"] in ("While", "For", "Do"):
                own = list(direct(n))
                gets = [x for x in own if x["k"] == "Call" and x.get("n") == "get" and not x["a"] and x.get("o") is not None]
                if gets:
                    ctx.oblige("scan_loops")
                    if not any(x["k"] == "Call" and x.get("n") in ("eof", "good") for x in own):
                        ctx.violate("eof:%s" % f.q, f.where(n), "a scanning loop consumes characters without testing for the end of the file")
        opens = [x for x in walk(f.b) if x["k"] == "Var" and "basic_ifstream" in f.t(x)]
        for v in opens:
            ctx.oblige("opened_files")
            c = Open(P, v["id"])
            for s in flow.Flow(c).run(f, [frozenset()]):
                if ("opened",) in s and ("good",) not in s:
                    ctx.violate("open:%s" % f.q, f.where(v), "reading continues although the file could not be opened")
    ctx.floor("scan_loops", 5)


class Open(flow.FactClient):
    def __init__(self, P, vid):
        super().__init__(P)
        self.vid = vid

    def expr(self, n, s):
        if n["k"] == "Var" and n["id"] == self.vid:
            return (s | {("opened",)},)
        return (s,)

    def cond(self, n, s, truth):
        n = strip(n)
        if n["k"] == "Call" and n.get("o") is not None and strip(n["o"]).get("id") == self.vid:
            ok = None
            if n.get("n") in ("good", "is_open") or "operator bool" in (n.get("n") or ""):
                ok = truth
            if n.get("n") in ("fail", "bad"):
                ok = not truth
            if ok:
                return s | {("good",)}
        if n["k"] == "OpCall" and n["op"] == "!" and strip(n["a"][0]).get("id") == self.vid and not truth:
            return s | {("good",)}
        return s


def direct(loop):
    """nodes of a loop without those of nested loops"""
    st = [x for x in kids(loop)]
    while st:
        x = st.pop()
        yield x
        if x["k"] in ("While", "For", "Do", "Range"):
            continue
        st.extend(kids(x))
