"""K03: every configuration parameter has a defined default."""
from facts import walk, text, strip, AnalysisBroken
import ecf, flow

EXPLANATION = """
Definite-assignment dataflow over the constructors of all configuration classes: each registered member of
scalar or enumeration type must be assigned on every path of the constructor (body, initialiser list,
in-class initialiser or a base constructor) - otherwise the value used when the keyword is absent from the
user's file is whatever was in memory.
"""
RULE = "registered member of arithmetic/enum type => assigned on every path through the constructor of the registering class"
ASSUMPTIONS = ["members of class type (strings, maps, nested configurations) initialise themselves"]

SCALAR = {"int", "bool", "double", "float", "unsigned long", "unsigned int", "long", "short", "char", "unsigned char", "unsigned short", "long long", "unsigned long long"}


class Assign(flow.Client):
    def __init__(self, P, cls, scalars):
        super().__init__(P)
        self.cls, self.scalars = cls, scalars

    def inline(self, call, func):
        return func.cls == self.cls or func.raw.get("stc") or (func.f.endswith(".cpp") and func.cls is None)

    def expr(self, n, s):
        if n["k"] == "Bin" and n["op"] == "=":
            # a value computed from a parameter that has no value yet is no default
            for x in walk(n["y"], lambdas=False):
                if x["k"] == "Mem" and x["b"]["k"] == "This" and x["n"] in self.scalars and text(x) not in s:
                    return (s - {text(n["x"])},)
            return (s | {text(n["x"])},)
        if n["k"] == "Call" and n.get("o") is None and n.get("n") in ("memset", "fill"):
            return (s | {text(strip(n["a"][0])).lstrip("&")},)
        return (s,)


def run(ctx):
    P = ctx.program("src/config/*", "src/esinfo/*")
    regs = {}
    for r in ecf.registrations(P):
        regs.setdefault(r.cls, []).append(r)
    # ctors assign set per class
    memo = {}

    def assigned(cls):
        if cls in memo:
            return memo[cls]
        memo[cls] = set()
        out = None
        for f in P.functions:
            if f.cls == cls and f.raw.get("ctor") and f.tm != "pat":
                if any(not i["n"] and not i.get("base") for i in f.init):
                    continue    # delegating constructor
                start = set()
                for i in f.init:
                    if i["n"]:
                        start.add("this." + i["n"])
                    elif i.get("base"):
                        b = i["base"].split("<")[0]
                        if b in P.records:
                            start |= assigned(b)
                for rec in P.records.get(cls, [])[:1]:
                    for b in rec["bases"]:
                        b = b.split("<")[0]
                        if b in P.records and b != ecf.BASE:
                            start |= assigned(b)
                    start |= {"this." + fl["n"] for fl in rec["fields"] if fl.get("i")}
                c = Assign(P, cls, {r.target[5:] for r in regs.get(cls, []) if r.type in SCALAR or r.type in P.enums})
                res = flow.Flow(c).run(f, [frozenset(start)])
                got = set.intersection(*[set(x) for x in res]) if res else set(start)
                out = got if out is None else out & got
        for rec in P.records.get(cls, [])[:1]:
            for fl in rec["fields"]:
                if fl.get("i"):
                    out = (out or set()) | {"this." + fl["n"]}
        memo[cls] = out or set()
        return memo[cls]

    def field_assigned(r):
        t = r.target
        if t in assigned(r.cls):
            return True
        # member of a member whose own class initialises it
        p = t.split(".")
        if len(p) == 3 and p[0] == "this":
            for rec in P.records.get(r.cls, [])[:1]:
                for fl in rec["fields"]:
                    if fl["n"] == p[1] and "this." + p[2] in assigned(fl["t"]):
                        return True
        # array element: aggregate initialised in the initialiser list
        if "[" in t and t.split("[")[0] in assigned(r.cls):
            return True
        return False

    for cls, rs in sorted(regs.items()):
        for r in rs:
            if r.type in SCALAR or r.type in P.enums:
                ctx.oblige("scalar_parameters")
                if not field_assigned(r):
                    ctx.violate("default:%s:%s" % (cls.split("::")[-1], r.target.split(".", 1)[-1]), r.where,
                                "parameter %s of %s has no default: %s is not assigned on every path of the constructor" % (r.name, cls.split("::")[-1], r.target))
    ctx.floor("scalar_parameters", 560)
