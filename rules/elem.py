"""reference facts on element shapes (independent of the code under analysis) and constant propagation for table code"""
import re
from facts import walk, text, strip, val, AnalysisBroken

#            corners, dimension
SHAPE = {"POINT": (1, 0), "LINE": (2, 1), "TRIANGLE": (3, 2), "SQUARE": (4, 2), "TETRA": (4, 3), "PYRAMID": (5, 3), "PRISMA": (6, 3), "HEXA": (8, 3)}
FE = {"TETRA": (4, 6), "PYRAMID": (5, 8), "PRISMA": (5, 9), "HEXA": (6, 12)}
XYZ = {
    "TETRA": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "PYRAMID": [(-1, -1, 0), (1, -1, 0), (1, 1, 0), (-1, 1, 0), (0, 0, 1)],
    "PRISMA": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "HEXA": [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
}


def codes(P):
    e = P.enum("espreso::Element::CODE")
    out = {}
    for n, v in e["c"]:
        m = re.match(r"([A-Z]+?)(\d+)$", n)
        if m and m.group(1) in SHAPE:
            out[n] = {"value": v, "shape": m.group(1), "nodes": int(m.group(2)), "corners": SHAPE[m.group(1)][0], "dim": SHAPE[m.group(1)][1]}
    if len(out) != 15:
        raise AnalysisBroken("element codes changed")
    return out


def code_of(n):
    """Element::CODE::X behind casts / &Mesh::edata[X]"""
    for x in walk(n):
        if x["k"] == "Ref" and x.get("d") == "e" and ("Element::CODE::" in x.get("q", "")):
            return x["n"]
    return None


class Const:
    """constant propagation over the straight-line code of a table initialiser"""

    def __init__(self, f):
        self.f, self.env, self.fields = f, {}, {}
        self.lines = {}
        self.stm(f.b)

    def get(self, n):
        n = strip(n)
        v = val(n)
        if n["k"] == "Ref" and n.get("d") == "e":
            return n["n"]
        if v is not None:
            return v
        if n["k"] == "Ref" and n.get("id") in self.env:
            return self.env[n["id"]]
        if n["k"] == "Init":
            return [self.get(x) for x in n["c"]]
        if n["k"] == "Un" and n["op"] == "&":
            return code_of(n["e"])
        if n["k"] == "Ctor" and "vector" in n.get("q", ""):
            a = [x for x in n["a"] if x["k"] != "DefArg"]
            if not a:
                return []
            x = self.get(a[0])
            if isinstance(x, list):
                return list(x)
            if len(a) == 2 and isinstance(x, int):
                return [self.get(a[1])] * x
            if len(a) == 1 and isinstance(x, int):
                return [0] * x
        if n["k"] == "Ctor" and len(n["a"]) >= 1:
            return self.get(n["a"][0])
        if n["k"] == "New":
            return self.new(n)
        if n["k"] == "Bin":
            a, b = self.get(n["x"]), self.get(n["y"])
            if isinstance(a, int) and isinstance(b, int):
                return {"+": a + b, "-": a - b, "*": a * b}.get(n["op"])
        if n["k"] == "Call" and n.get("n") == "size" and n.get("o") is not None:
            o = self.get(n["o"])
            if isinstance(o, list):
                return len(o)
        return None

    def new(self, n):
        i = n.get("i") or n.get("e")
        if i is None:
            for x in walk(n):
                if x is not n and x["k"] in ("Ctor", "Init"):
                    i = x
                    break
        if i is None:
            return None
        i = strip(i)
        q = i.get("q", "")
        if "serializededata" in q:
            a = [x for x in i["a"] if x["k"] != "DefArg"]
            return ("rows", self.get(a[0]), self.get(a[1]))
        return self.get(i)

    def stm(self, n):
        k = n["k"]
        if k == "Block":
            for c in n["c"]:
                self.stm(c)
        elif k == "Decl":
            for v in n["c"]:
                self.env[v["id"]] = self.get(v["i"]) if v.get("i") else []
        elif k == "Bin" and n["op"] == "=":
            x = n["x"]
            if strip(n["y"])["k"] == "Bin" and strip(n["y"])["op"] == "=":      # a = b = c
                self.stm(strip(n["y"]))
                y = self.get(strip(n["y"])["y"])
            else:
                y = self.get(n["y"])
            if x["k"] == "Mem":
                self.fields[x["n"]] = y
                self.lines[x["n"]] = n
            elif x["k"] == "Ref":
                self.env[x["id"]] = y
        elif k in ("Call", "OpCall"):
            if n.get("o") is not None and strip(n["o"])["k"] == "Ref":
                o = self.env.get(strip(n["o"])["id"])
                a = [x for x in n["a"] if x["k"] != "DefArg"]
                if isinstance(o, list):
                    if n["n"] == "resize":
                        c = self.get(a[0])
                        x = self.get(a[1]) if len(a) > 1 else 0
                        o = o[:c] + [x] * (c - len(o))
                    elif n["n"] in ("push_back", "emplace_back"):
                        o = o + [self.get(a[0])]
                    elif n["n"] == "insert" and len(a) >= 2:
                        x = self.get(a[-1])
                        o = o + (x if isinstance(x, list) else [x] * (self.get(a[1]) if len(a) == 3 and isinstance(self.get(a[1]), int) else 1))
                    elif n["n"] == "assign" and len(a) == 2:
                        o = [self.get(a[1])] * self.get(a[0])
                    self.env[strip(n["o"])["id"]] = o
            elif k == "OpCall" and n["op"] == "=" and n["a"][0]["k"] == "Ref":
                self.env[n["a"][0]["id"]] = self.get(n["a"][1])


def rows(v):
    """('rows', width|distribution, data) -> list of rows"""
    _, w, d = v
    if isinstance(w, int):
        if len(d) % w:
            return None
        return [d[i:i + w] for i in range(0, len(d), w)]
    if w[0] != 0 or w[-1] != len(d) or any(a > b for a, b in zip(w, w[1:])):
        return None
    return [d[a:b] for a, b in zip(w, w[1:])]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))
