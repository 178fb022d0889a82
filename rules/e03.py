"""E03: every element type is assembled by its own kernel, in every phase."""
import re
from facts import walk, text, strip, val, AnalysisBroken
from elem import codes
from selector import Selector

EXPLANATION = """
For both physics, every element/boundary/node code, every phase (preprocess, assemble, reassemble, iteration,
solution) and both mesh dimensions the dispatch is evaluated with the selectors bound to that constant
(path engine, explicit specialisations and helpers inlined) down to the kernel templates that do the work.
Exactly one kernel must be reached on every path, its template arguments must be the element's own type,
node count and dimension, the space dimension must fit, and the preprocessing and the computing kernel of a
type must use the same integration rule. The copies of the interval's element type, element count and number
of vector chunks into the kernel descriptors must come from the same interval.
"""
RULE = "dispatch(code, phase, dim) = kernel<code, nodes(code), gps, dim, dim(code)>, total and unique"
ASSUMPTIONS = ["the kernel templates are the function templates with a code/nodes/gps/ndim/edim signature (or ndim for nodes)"]

PHASES = ["PREPROCESS", "ASSEMBLE", "REASSEMBLE", "ITERATION", "SOLUTION"]
ENUM = "espreso::Element::CODE"


class D(Selector):
    def __init__(self, P, physics):
        super().__init__(P)
        self.spec = {}
        for f in P.functions:
            if f.b and f.tm == "" and f.raw.get("ta") and "CODE::" in f.raw["ta"]:
                self.spec.setdefault((f.q, f.raw["ta"].replace(" ", ""), self.par(f)), f)
        self.physics = physics

    @staticmethod
    def par(f):
        return tuple(f.T[p["t"]] if isinstance(p.get("t"), int) else p.get("t") for p in f.p)

    def bind(self, n):
        if n["k"] == "Mem" and n["n"] == "code":
            return "code"
        if n["k"] == "Mem" and n["n"] == "dimension" and "Mesh" in str(n.get("q", "")) + str(n.get("cls", "")) + text(n["b"]):
            return "dim"
        if n["k"] in ("Ref", "Mem") and n.get("d") != "e" and self.func is not None:
            t = self.func.t(n)
            if t.replace("const ", "").replace("&", "").strip().endswith("SubKernel::Action"):
                return "action"
        return None

    def args(self, n):
        m = re.match(r"<(.*)>$", (n.get("ta") or "").replace(" ", ""))
        return m.group(1).split(",") if m else []

    def kernel(self, n):
        if n["k"] != "Call" or not n.get("q"):
            return None
        a = self.args(n)
        if not a or "::SIMD" in n["q"] or n["q"].startswith("std::"):
            return None
        if "CODE::" in a[0] and len(a) == 5:
            return a
        if re.match(r"^\d+U?L?$", a[0]) and len(a) == 1:
            return a
        return None

    def definition(self, call):
        if call.get("ta") and "CODE::" in call["ta"]:
            key = (call.get("q"), call["ta"].replace(" ", ""))
            arg = [self.func.t(a) if isinstance(a.get("t"), int) else str(a.get("t", "")) for a in call["a"]]
            c = [f for (q, ta, par), f in self.spec.items() if (q, ta) == key]
            if len(c) > 1:
                # overloads differ in the operators argument
                def ok(f):
                    for p, a in zip(self.par(f), arg):
                        b = lambda x: x.replace("const ", "").replace("&", "").strip()
                        if b(p) != b(a):
                            return False
                    return True
                c = [f for f in c if ok(f)]
            if c:
                return c[0]
        return super().definition(call)

    def inline(self, call, func):
        return self.kernel(call) is None and func.f.startswith("src/analysis/assembler") and func.tm != "inst"

    def event(self, n, s):
        a = self.kernel(n)
        if a is not None:
            return (n["n"] if n.get("n") else n["q"].split("::")[-1].split("<")[0], tuple(a), n["l"])
        if n["k"] == "Call" and n.get("ta") and "CODE::" in n["ta"] and self.definition(n) is None:
            return ("undefined", tuple(self.args(n)), n["l"])
        return None


def num(x):
    m = re.match(r"^(\d+)", x)
    return int(m.group(1)) if m else None


def run(ctx):
    P = ctx.program("src/analysis/assembler/*", "src/mesh/element.cpp")
    C = codes(P)
    act = dict(P.enum("espreso::SubKernel::Action")["c"])
    for physics in ("HeatTransfer", "StructuralMechanics"):
        d = D(P, physics)
        for entry, sel in (("elements", lambda c: c["dim"] in (2, 3)), ("boundary", lambda c: c["dim"] in (1, 2)), ("nodes", lambda c: c["dim"] == 0)):
            f = [x for x in P.fn("espreso::%s::%s" % (physics, entry)) if x.b][0]
            for name, c in sorted(C.items()):
                if not sel(c):
                    continue
                gps = {}
                for dim in (2, 3):
                    if entry == "elements" and c["dim"] != dim:
                        continue
                    if entry == "boundary" and c["dim"] >= dim:
                        continue
                    for ph in PHASES:
                        outs = d.explore(f, {"code": c["value"], "action": act[ph], "dim": dim})
                        ctx.oblige("dispatch_points")
                        key = "%s.%s:%s:%s:%d" % (physics, entry, name, ph, dim)
                        where = f.where()
                        if not outs:
                            ctx.violate(key, where, "%s elements never return from the %s of %s" % (name, ph, physics))
                            continue
                        for o in outs:
                            ks = [e for e, cnt in o]
                            if not ks:
                                ctx.violate(key, where, "%s: no kernel is run for %s in phase %s (mesh dimension %d)" % (f.q, name, ph, dim))
                                continue
                            if len(o) > 1 or any(cnt > 1 for e, cnt in o):
                                ctx.violate(key, where, "%s: more than one kernel is run for %s in phase %s (mesh dimension %d)" % (f.q, name, ph, dim))
                                continue
                            fn, a, line = ks[0]
                            if fn == "undefined":
                                ctx.violate(key, where, "%s: the implementation for %s has no definition" % (f.q, a[0]))
                                continue
                            want = ["%s" % (dim)]
                            if len(a) == 5:
                                cc = a[0].split("::")[-1]
                                got = (cc, num(a[1]), num(a[3]), num(a[4]))
                                exp = (name, c["nodes"], dim, c["dim"])
                                if got != exp:
                                    ctx.violate(key, where, "%s: %s in phase %s (mesh dimension %d) runs %s<%s>, expected type %s with %d nodes, space dimension %d, element dimension %d" % (
                                        f.q, name, ph, dim, fn, ", ".join(a), name, c["nodes"], dim, c["dim"]))
                                gps.setdefault(num(a[2]), (ph, line))
                            elif num(a[0]) != dim:
                                ctx.violate(key, where, "%s: nodes in a mesh of dimension %d run %s<%s>" % (f.q, dim, fn, a[0]))
                            pre = fn.startswith("set")
                            if pre != (ph == "PREPROCESS"):
                                ctx.violate(key, where, "%s: phase %s of %s runs %s" % (f.q, ph, name, fn))
                            ctx.sample("dispatch", "%s -> %s<%s>" % (key, fn, ",".join(a)), 20)
                if len(gps) > 1:
                    ctx.violate("%s.%s:%s:gps" % (physics, entry, name), f.where(), "%s: %s is prepared and computed with different integration rules (%s points)" % (f.q, name, sorted(gps)))
    descriptors(ctx, P)
    ctx.floor("dispatch_points", 200)


def descriptors(ctx, P):
    """X[i].code/.elements copied from the same interval of the same region"""
    for physics in ("HeatTransfer", "StructuralMechanics"):
        fs = [f for f in P.functions if f.q == "espreso::%s::%s" % (physics, physics) and f.b]
        for f in fs:
            for n in walk(f.b):
                if n["k"] == "Bin" and n["op"] == "=" and strip(n["x"])["k"] == "Mem" and strip(n["x"])["n"] in ("code", "elements"):
                    lhs = strip(n["x"])
                    base = text(lhs["b"])
                    idx = re.findall(r"\[([^\[\]]*)\]", base)
                    rhs = text(n["y"])
                    if "eintervals" not in rhs or not idx:
                        continue
                    ctx.oblige("interval_copies")
                    ridx = set(tuple(re.findall(r"\[([^\[\]]*)\]", x)) for x in re.findall(r"[\w:.]+(?:\[[^\[\]]*\][\w.]*)+", rhs))
                    flds = re.findall(r"\]\.(code|begin|end|einterval|region|\w+)(?=[\W]|$)", rhs)
                    last = [x for x in flds if x in ("code", "begin", "end", "region", "material", "thread")]
                    ok = all(set(r) == set(idx) for r in ridx)
                    if lhs["n"] == "code":
                        ok = ok and last == ["code"]
                    else:
                        ok = ok and sorted(last) == ["begin", "end"] and rhs.find(".end") < rhs.find(".begin") and "-" in rhs
                    if not ok:
                        ctx.violate("%s:descriptor:%s.%s" % (physics, re.sub(r"\[.*", "", base), lhs["n"]), f.where(n), "%s: %s is not taken from its own interval: %s" % (f.q, text(lhs), rhs))
