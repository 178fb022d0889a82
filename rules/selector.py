"""Constant selector propagation: run the path engine over a dispatching function with the
selecting expressions bound to constants and record which implementation is reached."""
from facts import walk, kids, strip, val, text, AnalysisBroken
from flow import FactClient, Flow


class Selector(FactClient):
    max_inline = 6
    max_states = 2000

    def __init__(self, prog):
        super().__init__(prog)
        self.binding = {}

    # -- to be overridden
    def bind(self, n):
        """key of a selecting expression or None"""
        return None

    def event(self, n, s):
        """hashable event of an expression node or None"""
        return None

    # -- constant evaluation
    def cv(self, n, s):
        n = strip(n)
        if n is None:
            return None
        k = self.bind(n)
        if k is not None and k in self.binding:
            return self.binding[k]
        v = val(n)
        if v is not None and n["k"] != "Ref":
            return v
        if n["k"] == "Ref":
            if v is not None and n.get("d") not in ("v", "p"):
                return v
            for x in s:
                if x[0] == "lv" and x[1] == n.get("id"):
                    return x[2]
            return v
        if n["k"] == "Bool":
            return int(n["v"])
        if n["k"] == "Bin":
            a, b = self.cv(n["x"], s), self.cv(n["y"], s)
            if a is None or b is None:
                return None
            try:
                return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                        "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                        "&": lambda: a & b, "|": lambda: a | b}[n["op"]]()
            except KeyError:
                return None
        if n["k"] == "OpCall" and n["op"] in ("&", "|", "==", "!=") and len(n["a"]) == 2:
            return self.cv({"k": "Bin", "op": n["op"], "x": n["a"][0], "y": n["a"][1]}, s)
        if n["k"] == "Un" and n["op"] == "!":
            a = self.cv(n["e"], s)
            return None if a is None else int(not a)
        if n["k"] == "Cond":
            a = self.cv(n["e"], s)
            if a is not None:
                return self.cv(n["x"] if a else n["y"], s)
        return None

    def cond(self, n, s, truth):
        v = self.cv(n, s)
        if v is not None:
            return s if bool(v) == truth else None
        return s

    def switch(self, n, s, values):
        v = self.cv(n["e"], s)
        if v is None:
            return s
        return s if v in values else None

    def nodefault(self, n, s, vals):
        v = self.cv(n["e"], s)
        if v is None:
            return s
        return None if v in vals else s

    def expr(self, n, s):
        if n["k"] == "Var":
            v = self.cv(n.get("i"), s) if n.get("i") else None
            s2 = frozenset(x for x in s if not (x[0] == "lv" and x[1] == n["id"]))
            if v is not None:
                s2 |= {("lv", n["id"], v)}
            s = s2
        elif n["k"] == "Bin" and n["op"] == "=" and strip(n["x"])["k"] == "Ref":
            i = strip(n["x"]).get("id")
            v = self.cv(n["y"], s)
            s2 = frozenset(x for x in s if not (x[0] == "lv" and x[1] == i))
            if v is not None:
                s2 |= {("lv", i, v)}
            s = s2
        e = self.event(n, s)
        if e is not None:
            cnt = 1 + max([x[2] for x in s if x[0] == "ev" and x[1] == e] or [0])
            if cnt <= 3:
                s = s | {("ev", e, cnt)}
        return (s,)

    def explore(self, func, binding):
        """set of frozensets of (event, multiplicity) at the exits of func"""
        self.binding = binding
        outs = Flow(self).run(func, {frozenset()})
        return {frozenset((x[1], x[2]) for x in s if x[0] == "ev") for s in outs}
