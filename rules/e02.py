"""E02: element types of mesh and result files mean what the file format defines."""
import re
from facts import walk, text, strip, val, AnalysisBroken
from flow import Flow
from elem import codes
from selector import Selector

EXPLANATION = """
Every translation table between the program's element types and the element types of a file format (VTK legacy,
XDMF, EnSight, Gmsh/Neper, ANSYS CDB, Abaqus) is evaluated for every value of its domain: the table code is
interpreted over the syntax tree with the selecting expression bound to that value and the reachable results
(returned or assigned element type, number of nodes, dimension, type name, sequence of node positions) are
compared with the specification of the format embedded in this rule. For formats whose quadratic or collapsed
elements use another node order the copied positions are followed and every mid-side node must land on its own
edge. Dropping mid-side nodes must yield the linear type of the same shape for every element.
"""
RULE = "table(format)(x) = spec(format)(x) for all x of the domain, both directions; mid-side nodes stay on their edge"
ASSUMPTIONS = ["the published element numbering of the file formats (VTK, XDMF3, EnSight Gold, Gmsh MSH, ANSYS SOLID/PLANE, Abaqus)"]

ORDER = ["POINT1", "LINE2", "LINE3", "SQUARE4", "SQUARE8", "TRIANGLE3", "TRIANGLE6", "TETRA4", "TETRA10", "PYRAMID5", "PYRAMID13", "PRISMA6", "PRISMA15", "HEXA8", "HEXA20"]
VTK = dict(zip(ORDER, [1, 3, 21, 9, 23, 5, 22, 10, 24, 14, 27, 13, 26, 12, 25]))
XDMF = dict(zip(ORDER, [1, 2, 34, 5, 37, 4, 36, 6, 38, 7, 39, 8, 40, 9, 48]))
XNAME = dict(zip(ORDER, ["Polyvertex", "Polyline", "Edge_3", "Quadrilateral", "Quad_8", "Triangle", "Tri_6", "Tetrahedron", "Tet_10", "Pyramid", "Pyramid_13", "Wedge", "Wedge_15", "Hexahedron", "Hex_20"]))
ENS = dict(zip(ORDER, ["point", "bar2", "bar3", "quad4", "quad8", "tria3", "tria6", "tetra4", "tetra10", "pyramid5", "pyramid13", "penta6", "penta15", "hexa8", "hexa20"]))
GMSH = {"POINT1": 15, "LINE2": 1, "LINE3": 8, "TRIANGLE3": 2, "SQUARE4": 3, "TRIANGLE6": 9, "SQUARE8": 16, "TETRA4": 4, "HEXA8": 5,
        "TETRA10": 11, "HEXA20": 17, "PRISMA6": 6, "PRISMA15": 18, "PYRAMID5": 7, "PYRAMID13": 19}
ABAQUS = {"B32": "LINE3", "C3D8R": "HEXA8", "C3D10": "TETRA10", "C3D20R": "HEXA20", "C3D8": "HEXA8", "C3D4": "TETRA4", "C3D20": "HEXA20", "C3D6": "PRISMA6", "C3D15": "PRISMA15"}
MID = {
    "LINE3": [(0, 1)],
    "TRIANGLE6": [(0, 1), (1, 2), (2, 0)],
    "SQUARE8": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "TETRA10": [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    "PYRAMID13": [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    "PRISMA15": [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    "HEXA20": [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)],
}
GMID = dict(MID)
GMID["TETRA10"] = [(0, 1), (1, 2), (2, 0), (0, 3), (2, 3), (1, 3)]
GMID["HEXA20"] = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)]
GMID["PRISMA15"] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 4), (2, 5), (3, 4), (3, 5), (4, 5)]
GMID["PYRAMID13"] = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 4), (2, 3), (2, 4), (3, 4)]


class T(Selector):
    """evaluate a table: the expression with text `sel` is bound; results are events"""

    def __init__(self, P):
        super().__init__(P)
        self.sel = {}

    def bind(self, n):
        if not self.sel:
            return None
        t = text(n)
        return t if t in self.sel else None

    def cv(self, n, s):
        n0 = strip(n)
        if n0 is not None and n0["k"] == "Un" and n0["op"] in ("++", "--"):
            v = self.cv(n0["e"], s)
            if v is None:
                return None
            d = 1 if n0["op"] == "++" else -1
            return v - d if n0.get("post") else v
        return super().cv(n, s)

    def expr(self, n, s):
        if n["k"] == "Un" and n["op"] in ("++", "--") and strip(n["e"])["k"] == "Ref":
            i = strip(n["e"]).get("id")
            v = self.cv(n["e"], s)
            if v is not None:
                s = frozenset(x for x in s if not (x[0] == "lv" and x[1] == i)) | {("lv", i, v + (1 if n["op"] == "++" else -1))}
            return (s,)
        if n["k"] == "Bin" and n["op"] in ("+=", "-=") and strip(n["x"])["k"] == "Ref":
            i = strip(n["x"]).get("id")
            a, b = self.cv(n["x"], s), self.cv(n["y"], s)
            s = frozenset(x for x in s if not (x[0] == "lv" and x[1] == i))
            if a is not None and b is not None:
                s = s | {("lv", i, a + b if n["op"] == "+=" else a - b)}
            return (s,)
        return super().expr(n, s)

    def event(self, n, s):
        return None

    # results: last constant assigned to every variable stays as ("lv", id, value)
    def on_return(self, n, s):
        if n is not None and n.get("e"):
            e = strip(n["e"])
            strs = [x["v"] for x in walk(e) if x["k"] == "Str"] if e["k"] in ("Ctor", "Str", "Init") else []
            v = strs[0] if len(strs) == 1 else self.cv(e, s)
            return (s | {("ret", v)},)
        return (s,)


def und(ctx, l):
    ctx.count("entries_undecided")
    ctx.sample("undecided", "%s %s" % (l.get("key") or l.get("f"), l.get("c") if isinstance(l.get("c"), str) else l.get("cname")))


def switches(f):
    """(switch node, innermost lambda or function) pairs"""
    for n in walk(f.b):
        if n["k"] == "Switch":
            yield n


def labels(sw):
    out = []
    for n in walk(sw["b"]):
        if n["k"] == "Case":
            v = val(n) if val(n) is not None else val(n["e"])
            if v is not None:
                out.append(v)
    return out


def mentions(n, what):
    return any(x["k"] == "Ref" and x.get("d") == "e" and what in (x.get("q") or "") for x in walk(n))


def evaluate(P, f, node, sel, init=()):
    """exit states of a statement with the selectors bound"""
    t = T(P)
    t.func = f
    t.sel = sel
    t.binding = sel
    fl = Flow(t)
    o = fl.st(node, {frozenset(init)})
    return o.fall | o.brk | o.cont | o.ret


def run(ctx):
    P = ctx.program("src/output/visualization/*", "src/input/*", "src/mesh/mesh.cpp", "src/mesh/element.cpp")
    C = codes(P)
    name = {c["value"]: n for n, c in C.items()}
    writers(ctx, P, C)
    readers(ctx, P, C, name)
    strings(ctx, P, C)
    neper(ctx, P, C, name)
    ansys(ctx, P, C, name)
    abaqus(ctx, P, C)
    midpoints(ctx, P, C, name)
    ctx.floor("table_entries", 150)


def writers(ctx, P, C):
    spec = [(r"VTK\w*Writ\w*::ecode$", VTK), (r"XDMF\w*Writ\w*::ecode$", XDMF), (r"XDMF\w*Writ\w*::etype$", XNAME), (r"Ensight\w*Writ\w*::codetotype$", ENS)]
    for f in P.functions:
        if not f.b or f.tm == "pat":
            continue
        for pat, tab in spec:
            if re.search(pat, f.q) and f.p:
                par = f.p[0]
                for c in ORDER:
                    outs = evaluate(P, f, f.b, {}, {("lv", par["id"], C[c]["value"])})
                    res = {x[1] for s in outs for x in s if x[0] == "ret"}
                    ctx.oblige("table_entries")
                    if None in res or not res:
                        und(ctx, locals())
                        continue
                    if res != {tab[c]}:
                        ctx.violate("writer:%s:%s" % (f.q, c), f.where(), "%s writes %s as %s, the format defines %s" % (f.q, c, sorted(map(str, res)), tab[c]))
    for f in P.functions:
        # names of element types shown to the user
        if f.b and f.f == "src/mesh/mesh.cpp":
            for sw in switches(f):
                strs = {x["v"] for x in walk(sw["b"]) if x["k"] == "Str"}
                if "PYRAMID13" in strs and mentions(sw["b"], "Element::CODE::"):
                    t = text(strip(sw["e"]))
                    for c in ORDER:
                        outs = evaluate(P, f, sw, {t: C[c]["value"]})
                        res = {x[1] for s in outs for x in s if x[0] == "ret"}
                        ctx.oblige("table_entries")
                        if res and None not in res and res != {c}:
                            ctx.violate("names:" + c, f.where(sw), "%s reports %s as %s" % (f.q, c, sorted(res)))


def results(f, sw, outs):
    """per exit state: (code constants, other integer constants by variable name, returned value)"""
    names = {}
    for n in walk(f.b):
        if n["k"] == "Ref" and n.get("d") in ("v", "p"):
            names[n["id"]] = n["n"]
        elif n["k"] == "Var":
            names[n["id"]] = n["n"]
    for s in outs:
        yield {names.get(x[1], x[1]): x[2] for x in s if x[0] == "lv"}, [x[1] for x in s if x[0] == "ret"]


def codevars(sw):
    """ids/names of variables that are assigned Element::CODE constants in the switch"""
    out = set()
    for n in walk(sw["b"]):
        if n["k"] == "Bin" and n["op"] == "=" and strip(n["x"])["k"] == "Ref":
            y = strip(n["y"])
            if y["k"] == "Ref" and "Element::CODE::" in (y.get("q") or ""):
                out.add(strip(n["x"])["n"])
    return out


def compare(ctx, key, f, sw, sel, cname, c, kind):
    """evaluate switch sw with its selector bound and compare with element type c (None: unsupported)"""
    node = sw
    if any(x["k"] == "Return" for x in walk(sw["b"])):
        # the table is a function or lambda: what follows the switch answers for values without a case
        node = f.b
        for x in walk(f.b):
            if x["k"] == "Lambda" and any(y is sw for y in walk(x["b"])):
                node = x["b"]
        if sum(1 for _ in walk(node)) > 400:
            node = sw
    outs = evaluate(ctx.P, f, node, sel)
    ctx.oblige("table_entries")
    cv = codevars(sw)
    for env, ret in results(f, sw, outs):
        if ret:
            v = ret[0]
            if v is None:
                und(ctx, locals())
                continue
            exp = {"code": c["value"], "nodes": c["nodes"], "dim": c["dim"], "xnodes": c["nodes"] + (1 if cname in ("POINT1", "LINE2") else 0)}[kind]
            if v != exp:
                ctx.violate(key, f.where(sw), "%s: %s is read as %s=%s, expected %s" % (f.q, cname, kind, v, exp))
        for n, v in env.items():
            if n in cv and v != c["value"]:
                ctx.violate(key, f.where(sw), "%s: %s is read as element type %s" % (f.q, cname, v))
            elif isinstance(n, str) and n not in cv and re.search(r"dim", n) and v != c["dim"]:
                ctx.violate(key, f.where(sw), "%s: %s is read with dimension %s" % (f.q, cname, v))
            elif isinstance(n, str) and n not in cv and not re.search(r"dim", n) and re.search(r"(^|_)(esize|enodes|nnodes|nodes|size)$", n) and v != c["nodes"]:
                ctx.violate(key, f.where(sw), "%s: %s is read with %s nodes" % (f.q, cname, v))


def readers(ctx, P, C, name):
    seen = {}
    for f in P.functions:
        if not f.b or f.tm == "pat" or not f.f.startswith("src/input/parsers/"):
            continue
        for sw in switches(f):
            ls = set(labels(sw))
            t = text(strip(sw["e"]))
            body_codes = mentions(sw["b"], "Element::CODE::")
            if "/xdmf/" in f.f and len(ls & {34, 36, 37, 38, 39, 40, 48}) >= 4:
                kind = "code" if body_codes else "xnodes"
                for c in ORDER:
                    compare(ctx, "xdmf:%s:%s" % (kind, c), f, sw, {t: XDMF[c]}, c, C[c], kind)
                seen["xdmf"] = 1
            if "/vtklegacy/" in f.f and len(ls & {21, 22, 23, 24, 25, 26, 27}) >= 4 and not body_codes:
                for c in ORDER:
                    compare(ctx, "vtk:dimension:%s" % c, f, sw, {t: VTK[c]}, c, C[c], "dim")
                seen["vtkdim"] = 1
            if body_codes and any(x["k"] == "Case" and "XDMFTopology::Type" in text(x["e"]) for x in walk(sw["b"])):
                e = P.enum("espreso::XDMFTopology::Type")
                byname = dict(e["c"])
                alias = dict(zip(ORDER, ["Polyvertex", "Polyline", "Edge_3", "Quadrilateral", "Quadrilateral_8", "Triangle", "Triangle_6", "Tetrahedron", "Tetrahedron_10", "Pyramid", "Pyramid_13", "Wedge", "Wedge_15", "Hexahedron", "Hexahedron_20"]))
                for c in ORDER:
                    if alias[c] in byname:
                        compare(ctx, "xdmf:topology:%s" % c, f, sw, {t: byname[alias[c]]}, c, C[c], "code")
            if body_codes and any(x["k"] == "Case" and "Elements::Type" in text(x["e"]) for x in walk(sw["b"])):
                en = [q for q in P.enums if q.endswith("EnsightGeometry::Elements::Type")]
                if en:
                    byname = {n.lower(): v for n, v in P.enums[en[0]]["c"]}
                    for c in ORDER:
                        if ENS[c] in byname:
                            compare(ctx, "ensight:%s:%s" % (f.n, c), f, sw, {t: byname[ENS[c]]}, c, C[c], "code")
                    seen["ensight"] = 1
        # (dimension, number of nodes) -> type
        if "/vtklegacy/" in f.f and len(f.p) >= 2 and mentions(f.b, "Element::CODE::TETRA10") and any(n["k"] == "Return" for n in walk(f.b)):
            d = [p for p in f.p if re.search("dim", p["n"])]
            e = [p for p in f.p if re.search("size|nodes|count", p["n"])]
            if len(d) == 1 and len(e) == 1:
                for c in ORDER[1:]:
                    outs = evaluate(P, f, f.b, {}, {("lv", d[0]["id"], C[c]["dim"]), ("lv", e[0]["id"], C[c]["nodes"])})
                    res = {x[1] for s in outs for x in s if x[0] == "ret"}
                    ctx.oblige("table_entries")
                    if res and None not in res and res != {C[c]["value"]}:
                        ctx.violate("vtk:type:" + c, f.where(), "%s: an element of dimension %d with %d nodes is read as %s" % (f.q, C[c]["dim"], C[c]["nodes"], sorted(name.get(x, x) for x in res)))
                for dim in range(-1, 4):
                    for sz in range(1, 21):
                        if not any(C[c]["dim"] == dim and C[c]["nodes"] == sz for c in ORDER[1:]):
                            outs = evaluate(P, f, f.b, {}, {("lv", d[0]["id"], dim), ("lv", e[0]["id"], sz)})
                            ctx.oblige("table_entries")
                            if outs:
                                ctx.violate("vtk:unsupported", f.where(), "%s: an element of dimension %d with %d nodes is accepted" % (f.q, dim, sz))


def strings(ctx, P, C):
    xal = {"Tri_6": "Triangle_6", "Quad_8": "Quadrilateral_8", "Tet_10": "Tetrahedron_10", "Hex_20": "Hexahedron_20"}
    for f in P.functions:
        if not f.b or not f.f.startswith("src/input/parsers/"):
            continue
        for n in walk(f.b):
            if n["k"] != "Call":
                continue
            st = [strip(a)["v"] for a in n["a"] if strip(a)["k"] == "Str"]
            if not st:
                for a in n["a"]:
                    x = strip(a)
                    if x["k"] == "Ctor" and len(x["a"]) >= 1 and strip(x["a"][0])["k"] == "Str":
                        st.append(strip(x["a"][0])["v"])
            if len(st) != 1:
                continue
            en = [x for a in n["a"] for x in walk(a) if x["k"] == "Ref" and x.get("d") == "e"]
            if "/xdmf/" in f.f and len(en) == 1 and "XDMFTopology::Type::" in (en[0].get("q") or ""):
                if st[0] in XNAME.values():
                    ctx.oblige("table_entries")
                    if en[0]["n"] != xal.get(st[0], st[0]):
                        ctx.violate("xdmf:name:" + st[0], f.where(n), "%s: topology '%s' is read as %s" % (f.q, st[0], en[0]["n"]))
            if "/ensight/" in f.f and st[0] in ENS.values():
                c = [k for k, v in ENS.items() if v == st[0]][0]
                ty = [x for x in en if "Elements::Type::" in (x.get("q") or "")]
                if ty:
                    ctx.oblige("table_entries")
                    if any(x["n"].lower() != st[0] for x in ty):
                        ctx.violate("ensight:name:%s:%s" % (f.n, st[0]), f.where(n), "%s: element block '%s' is read as %s" % (f.q, st[0], [x["n"] for x in ty]))
                    sk = [val(a) for x in walk(n) if x["k"] in ("OpCall", "Call") and x is not n for a in x["a"] if val(a) is not None and strip(a)["k"] == "Int"]
                    if sk and any(v != C[c]["nodes"] for v in sk):
                        ctx.violate("ensight:skip:%s:%s" % (f.n, st[0]), f.where(n), "%s: element block '%s' is skipped with %s nodes per element" % (f.q, st[0], sk))


class Copy(T):
    """follows node positions pushed to the output vector"""

    src = None      # predicate on the base expression of a source access
    dst = None      # predicate on the object of push_back/insert

    def event(self, n, s):
        return None

    def expr(self, n, s):
        if n["k"] == "Call" and n.get("n") in ("push_back", "insert", "emplace_back") and n.get("o") is not None and self.dst(text(n["o"])):
            items = None
            a = n["a"]
            if n["n"] in ("push_back", "emplace_back") and a:
                items = [self.pos(a[0], s)]
            elif n["n"] == "insert" and len(a) == 3:
                b, e = self.iter(a[1], s), self.iter(a[2], s)
                items = list(range(b, e)) if b is not None and e is not None else [None]
            if items is not None:
                cur = [x for x in s if x[0] == "seq"]
                seq = cur[0][1] if cur else ()
                return (frozenset(x for x in s if x[0] != "seq") | {("seq", seq + tuple(items))},)
        if n["k"] == "Call" and n.get("n") in ("push_back",) and n.get("o") is not None and re.search(r"esize", text(n["o"])) and n["a"]:
            v = self.cv(n["a"][0], s)
            return (frozenset(x for x in s if x[0] != "esize") | {("esize", v)},)
        if n["k"] == "Bin" and n["op"] == "=" and "Element::CODE::" in " ".join((x.get("q") or "") for x in walk(n["y"]) if x["k"] == "Ref"):
            v = self.cv(n["y"], s)
            s = frozenset(x for x in s if x[0] != "code") | {("code", v)}
        if n["k"] == "OpCall" and n["op"] == "=" and "Element::CODE::" in " ".join((x.get("q") or "") for x in walk(n["a"][1]) if x["k"] == "Ref"):
            s = frozenset(x for x in s if x[0] != "code") | {("code", self.cv(n["a"][1], s))}
        if n["k"] == "Call" and n.get("n") == "push_back" and n["a"] and n.get("o") is not None and "type" in text(n["o"]):
            v = self.cv(n["a"][0], s)
            if v is not None and v > 0:
                s = frozenset(x for x in s if x[0] != "code") | {("code", v)}
        return super().expr(n, s)

    def access(self, n):
        n = strip(n)
        if n["k"] == "Idx":
            return n["b"], n["i"]
        if n["k"] == "OpCall" and n["op"] == "[]":
            return n["a"][0], n["a"][1]
        return None, None

    def pos(self, n, s):
        b, i = self.access(n)
        if b is not None and self.src(text(b)):
            return self.cv(i, s)
        return None

    def iter(self, n, s):
        n = strip(n)
        if n["k"] == "Call" and n.get("n") in ("begin", "data") and self.src(text(n["o"])):
            return 0
        if n["k"] == "OpCall" and n["op"] in ("+", "-") and len(n["a"]) == 2:
            b, i = self.iter(n["a"][0], s), self.cv(n["a"][1], s)
            return None if b is None or i is None else (b + i if n["op"] == "+" else b - i)
        if n["k"] == "Bin" and n["op"] in ("+", "-"):
            b, i = self.iter(n["x"], s), self.cv(n["y"], s)
            return None if b is None or i is None else (b + i if n["op"] == "+" else b - i)
        return None


def check_order(target, srcname, srcmid, corners_src, seq, classes):
    """mid-side node k of the target must be the source mid-side node of the corresponding edge"""
    nc = len(seq) - len(MID.get(target, []))
    rep = lambda x: classes.get(x, x)
    for k, (i, j) in enumerate(MID.get(target, [])):
        s = seq[nc + k]
        m = s - corners_src
        if m < 0 or m >= len(srcmid):
            return "node %d is not a mid-side node of the file" % s
        p, q = srcmid[m]
        want = {rep(seq[i]), rep(seq[j])}
        if {rep(p), rep(q)} != want:
            return "mid-side node %d of the element (edge %d-%d) is taken from position %d of the file, which lies on edge %d-%d" % (nc + k, i, j, s, p, q)
    return None


def neper(ctx, P, C, name):
    for f in P.functions:
        if not f.b or "/neper/" not in f.f or not mentions(f.b, "Element::CODE::TETRA10"):
            continue
        loops = [n for n in walk(f.b) if n["k"] in ("For", "While") and any(x["k"] == "Switch" and mentions(x["b"], "Element::CODE::") for x in walk(n["b"]))]
        tab = [n for n in walk(f.b) if n["k"] == "Switch" and mentions(n["b"], "Element::CODE::TETRA10")]
        if not tab:
            continue
        t = tab[0]
        for c in ORDER:
            if c in GMSH and GMSH[c] in labels(t):
                compare(ctx, "gmsh:" + c, f, t, {text(strip(t["e"])): GMSH[c]}, c, C[c], "code")
        ctx.oblige("table_entries")
        outs = evaluate(P, f, t, {text(strip(t["e"])): 1000})
        if outs:
            ctx.violate("gmsh:unsupported", f.where(t), "%s: an element of a type the program does not support is silently skipped and the rest of its line is read as the next element" % f.q)
        if not loops:
            continue
        lp = loops[-1]
        acc = None
        for x in walk(t["e"]):
            if x["k"] in ("Idx",) or (x["k"] == "OpCall" and x["op"] == "[]"):
                acc = x
        if acc is None:
            continue
        base = acc["b"] if acc["k"] == "Idx" else acc["a"][0]
        idx = acc["i"] if acc["k"] == "Idx" else acc["a"][1]
        ids = [x["id"] for x in walk(idx) if x["k"] == "Ref" and x.get("d") in ("v", "p")]
        if not ids:
            continue
        for c in ORDER:
            if GMSH.get(c) not in labels(t) or C[c]["dim"] != 3:
                continue

            class N(Copy):
                def cv(self, n, s):
                    b, i = self.access(n) if n is not None and strip(n)["k"] in ("Idx", "OpCall") else (None, None)
                    if b is not None and text(b) == text(base):
                        v = super().cv(i, s)
                        if v == 1:
                            return GMSH[c]
                        if v == 2:
                            return 0
                        return None
                    return super().cv(n, s)

                def dst(self, t):
                    return t.endswith("enodes")

                def src(self, t):
                    return t == text(base)
            e = N(P)
            e.func = f
            o = Flow(e).st(lp["b"], {frozenset({("lv", ids[0], 0)})})
            exits = o.fall | o.cont | o.brk | o.ret
            ctx.oblige("table_entries")
            ok = 0
            for s in exits:
                seq = [x[1] for x in s if x[0] == "seq"]
                if not seq or any(x is None for x in seq[0]):
                    continue
                seq = [x - 3 for x in seq[0]]
                ok += 1
                order(ctx, "gmsh:order:" + c, f, lp, c, C, c, GMID, seq, {})
            if not ok:
                und(ctx, locals())


def order(ctx, key, f, node, c, C, srcname, mids, seq, classes):
    cc = C[c]["corners"]
    srcc = C[srcname]["corners"]
    if len(seq) != C[c]["nodes"]:
        ctx.violate(key, f.where(node), "%s: %d nodes are stored for an element %s" % (f.q, len(seq), c))
        return
    if any(x >= srcc for x in seq[:cc]) or len(set(classes.get(x, x) for x in seq[:cc])) != cc:
        ctx.violate(key, f.where(node), "%s: the corners of %s are taken from positions %s of the file" % (f.q, c, seq[:cc]))
        return
    if not classes and seq[:cc] != list(range(cc)):
        ctx.violate(key, f.where(node), "%s: the corners of %s are taken from positions %s of the file" % (f.q, c, seq[:cc]))
        return
    m = check_order(c, srcname, mids.get(srcname, []), srcc, seq, classes)
    if m:
        ctx.violate(key, f.where(node), "%s: %s: %s" % (f.q, c, m))


ANSYS = {  # type -> (uncollapsed, {collapse classes: element})
    "D2SOLID_4NODES": "SQUARE4", "D2SOLID_6NODES": "TRIANGLE6", "D2SOLID_8NODES": "SQUARE8", "D3SOLID_4NODES": "TETRA4",
    "D3SOLID_8NODES": "HEXA8", "D3SOLID_10NODES": "TETRA10", "D3SOLID_20NODES": "HEXA20",
}


def ansys(ctx, P, C, name):
    en = [q for q in P.enums if q.endswith("::ET::ETYPE") or q == "espreso::ET::ETYPE"]
    if not en:
        ctx.notes.append("ANSYS element classes not found")
        return
    ety = dict(P.enums[en[0]]["c"])
    for f in P.functions:
        if not f.b or "/ansyscdb/" not in f.f or not mentions(f.b, "Element::CODE::PYRAMID13"):
            continue
        for sw in switches(f):
            if not (mentions(sw["b"], "Element::CODE::PYRAMID13") and any(x["k"] == "Case" for x in walk(sw["b"]))):
                continue
            ctx.oblige("table_entries")
            if "UNKNOWN" in ety and evaluate(P, f, sw, {text(strip(sw["e"])): ety["UNKNOWN"]}):
                ctx.violate("ansys:unsupported", f.where(sw), "%s: an element of an unknown class is silently accepted" % f.q)
            for tname, src in ANSYS.items():
                if tname not in ety:
                    continue

                class A(Copy):
                    def dst(self, t):
                        return t == "nodes" or t.endswith("enodes")

                    def src(self, t):
                        return "indices" in t or t.endswith("nodes")

                    def cond(self, n, s, truth):
                        n = strip(n)
                        if n["k"] in ("Bin",) and n["op"] in ("==", "!="):
                            a, b = self.pos(n["x"], s), self.pos(n["y"], s)
                            if a is not None and b is not None:
                                t = truth == (n["op"] == "==")
                                if ("eq", a, b, not t) in s:
                                    return None
                                return s | {("eq", a, b, t)}
                        return super().cond(n, s, truth)
                e = A(P)
                e.func = f
                e.sel = e.binding = {text(strip(sw["e"])): ety[tname]}
                o = Flow(e).st(sw, {frozenset()})
                for s in o.fall | o.brk | o.cont | o.ret:
                    ctx.oblige("table_entries")
                    seq = [x[1] for x in s if x[0] == "seq"]
                    cd = [x[1] for x in s if x[0] == "code"]
                    es = [x[1] for x in s if x[0] == "esize"]
                    if not seq or not cd or any(x is None for x in seq[0]) or cd[0] not in name:
                        und(ctx, locals())
                        continue
                    seq, c = list(seq[0]), name[cd[0]]
                    key = "ansys:%s:%s" % (tname, c)
                    eqs = {(x[1], x[2]): x[3] for x in s if x[0] == "eq"}
                    if es and es[0] is not None and es[0] != C[c]["nodes"]:
                        ctx.violate(key, f.where(sw), "%s: %s of class %s is stored with size %s" % (f.q, c, tname, es[0]))
                    cl = {}
                    if eqs.get((2, 3)):
                        cl[3] = 2
                        if C[src]["dim"] == 3 and not eqs.get((4, 5)):
                            cl[7] = 6
                    if eqs.get((4, 5)):
                        cl.update({5: 4, 6: 4, 7: 4})
                    distinct = len(set(cl.get(x, x) for x in range(C[src]["corners"])))
                    if distinct != C[c]["corners"] or C[c]["dim"] != C[src]["dim"] or (C[c]["nodes"] == C[c]["corners"]) != (C[src]["nodes"] == C[src]["corners"]):
                        ctx.violate(key, f.where(sw), "%s: an element of class %s with %d distinct corners is read as %s" % (f.q, tname, distinct, c))
                        continue
                    order(ctx, key, f, sw, c, C, src, MID, seq, cl)


def abaqus(ctx, P, C):
    for f in P.functions:
        if not f.b or "/abaqus/" not in f.f or not mentions(f.b, "Element::CODE::"):
            continue
        for n in walk(f.b):
            if n["k"] != "If" or not n.get("th"):
                continue
            st = [x["v"] for x in walk(n["e"]) if x["k"] == "Str" and x["v"] in ABAQUS]
            if len(st) != 1 or "strcmp" not in text(n["e"]) and "==" not in text(n["e"]):
                continue
            c = ABAQUS[st[0]]
            cs = {x["n"] for x in walk(n["th"]) if x["k"] == "Ref" and "Element::CODE::" in (x.get("q") or "")}
            if not cs:
                continue
            ctx.oblige("table_entries")
            if cs != {c}:
                ctx.violate("abaqus:" + st[0], f.where(n), "%s: element type %s is read as %s" % (f.q, st[0], sorted(cs)))
            for x in walk(n["th"]):
                if x["k"] == "Call" and x.get("n") == "push_back" and x.get("o") is not None and text(x["o"]) == "esize":
                    if val(x["a"][0]) is not None and val(x["a"][0]) != C[c]["nodes"]:
                        ctx.violate("abaqus:size:" + st[0], f.where(x), "%s: element type %s is read with %d nodes" % (f.q, st[0], val(x["a"][0])))


def midpoints(ctx, P, C, name):
    """OMIT_MIDPOINTS: every quadratic type becomes the linear type of its shape and both cursors advance for every element"""
    lin = {c: [d for d in ORDER if C[d]["shape"] == C[c]["shape"] and C[d]["nodes"] == C[d]["corners"]][0] for c in ORDER}
    for f in P.functions:
        if not f.b or not f.f.startswith("src/input/"):
            continue
        for lp in walk(f.b):
            if lp["k"] != "For":
                continue
            sws = [x for x in walk(lp["b"]) if x["k"] == "Switch" and mentions(x["b"], "Element::CODE::HEXA20") and mentions(x["b"], "Element::CODE::HEXA8")
                   and not any(y["k"] == "Switch" for y in walk(x["b"]))]
            if not sws or "coarseNodes" not in " ".join(x["n"] for x in walk(lp["b"]) if x["k"] == "Mem"):
                continue
            sel = text(strip(sws[0]["e"]))

            class M(T):
                cur = None

                def cv(self, n, s):
                    x = strip(n)
                    if x is not None and x["k"] == "Mem" and x["n"] in ("nodes", "coarseNodes") and "edata" in text(x["b"]):
                        v = [y[1] for y in s if y[0] == "type"]
                        c = name.get(v[0]) if v else None
                        if c is None:
                            return None
                        return C[c]["nodes"] if x["n"] == "nodes" else C[c]["corners"]
                    if x is not None and x["k"] in ("Idx", "OpCall") and text(x).split("[")[0].endswith("esize"):
                        v = [y[1] for y in s if y[0] == "esz"]
                        return v[0] if v else None
                    if x is not None and text(x) == sel:
                        v = [y[1] for y in s if y[0] == "type"]
                        return v[0] if v else None
                    return super().cv(n, s)

                def expr(self, n, s):
                    if n["k"] in ("Bin", "OpCall"):
                        op = n["op"]
                        x, y = (n["x"], n["y"]) if n["k"] == "Bin" else (n["a"][0], n["a"][1]) if len(n["a"]) == 2 else (None, None)
                        if op == "=" and x is not None and text(strip(x)) == sel:
                            return (frozenset(z for z in s if z[0] != "type") | {("type", self.cv(y, s))},)
                        if op == "=" and x is not None and text(strip(x)).split("[")[0].endswith("esize"):
                            return (frozenset(z for z in s if z[0] != "esz") | {("esz", self.cv(y, s))},)
                        if op == "=" and x is not None and "enodes" in text(x):
                            return (s | {("copied", text(x), text(y))},)
                    return super().expr(n, s)
            cursors = {}
            for n in walk(lp["b"]):
                if n["k"] == "Bin" and n["op"] == "+=" and strip(n["x"])["k"] == "Ref":
                    cursors.setdefault(strip(n["x"])["id"], strip(n["x"])["n"])
            for c in ORDER[1:]:
                m = M(P)
                m.func = f
                init = {("type", C[c]["value"]), ("esz", C[c]["nodes"])} | {("lv", i, 0) for i in cursors}
                o = Flow(m).st(lp["b"], {frozenset(init)})
                ctx.oblige("table_entries")
                for s in o.fall | o.cont:
                    ty = [x[1] for x in s if x[0] == "type"]
                    if ty and ty[0] is not None and ty[0] != C[lin[c]]["value"]:
                        ctx.violate("midpoints:type:" + c, f.where(lp), "%s: without mid-side nodes %s becomes %s" % (f.q, c, name.get(ty[0], ty[0])))
                    es = [x[1] for x in s if x[0] == "esz"]
                    if es and es[0] is not None and es[0] != C[c]["corners"]:
                        ctx.violate("midpoints:size:" + c, f.where(lp), "%s: without mid-side nodes %s is stored with %d nodes" % (f.q, c, es[0]))
                    adv = sorted(x[2] for x in s if x[0] == "lv" and x[1] in cursors)
                    if len(cursors) == 2 and len(adv) == 2 and adv != sorted([C[c]["nodes"], C[c]["corners"]]):
                        ctx.violate("midpoints:cursor:" + c, f.where(lp), "%s: for an element %s the positions of the original and of the shortened node list advance by %s instead of %d and %d; nodes of the following elements are taken from the wrong place" % (
                            f.q, c, adv, C[c]["nodes"], C[c]["corners"]))
