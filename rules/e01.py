"""E01: the element tables describe closed, consistently oriented elements."""
import re
from facts import walk, text, strip, val, AnalysisBroken
from elem import *

EXPLANATION = """
Constant propagation over the table initialisers of all 15 element types (and over the table that registers
them). The derived tables are checked against the geometry of the element shape, not against a copy of the
table: node counts, dimension, faces and edges in range, faces closed and consistently oriented outward
(every directed edge used exactly once in each direction), edges equal to the edges of the faces, mid-side
nodes lying on the same edge in the face and in the edge table, surface triangles and boundary polygon with
the same oriented boundary, face/edge element types with the width of the rows they label.
"""
RULE = "topology(table(code)) is the closed oriented boundary of shape(code); registration edata[c] <-> init<c>"
ASSUMPTIONS = ["corner numbering of the shapes follows the VTK convention used by all readers and writers"]


def cyc_edges(l):
    return [(l[i], l[(i + 1) % len(l)]) for i in range(len(l))]


def run(ctx):
    P = ctx.program("src/mesh/element*", "src/mesh/mesh.cpp")
    C = codes(P)
    tabs = {}
    for f in P.functions:
        if f.q == "espreso::Element::init" and f.tm == "" and f.b:
            m = re.search(r"CODE::(\w+)", f.raw.get("ta") or f.cta or "")
            if m:
                tabs[m.group(1)] = (f, Const(f))
    for c in C:
        if c not in tabs:
            ctx.violate("missing:" + c, "src/mesh/element.cpp", "element type %s has no table" % c)
    for c, (f, t) in sorted(tabs.items()):
        if c in C:
            element(ctx, C, c, f, t)
    # registration
    reg = {}
    for f in P.fn("espreso::Mesh::init"):
        for n in walk(f.b):
            if n["k"] == "Call" and n.get("n") == "init" and n.get("o") is not None and "Element::init" in n.get("q", ""):
                o = strip(n["o"])
                idx = None
                for x in walk(o):
                    if x["k"] == "Idx":
                        idx = code_of(x["i"])
                m = re.search(r"CODE::(\w+)", str(n.get("ta") or ""))
                if idx and m:
                    ctx.oblige("registrations")
                    reg[idx] = m.group(1)
                    if idx != m.group(1):
                        ctx.violate("register:" + idx, f.where(n), "element type %s is described by the table of %s" % (idx, m.group(1)))
    for c in C:
        if reg and c not in reg:
            ctx.violate("register:" + c, "src/mesh/mesh.cpp", "element type %s is never initialised" % c)
    ctx.floor("element_types", 15)
    ctx.floor("registrations", 15)


def element(ctx, C, c, f, t):
    info = C[c]
    F = t.fields

    def bad(key, field, msg):
        ctx.violate("%s:%s" % (key, c), f.where(t.lines.get(field)), "%s: %s" % (c, msg))

    ctx.oblige("element_types")
    for fld, want in (("code", c), ("type", {0: "POINT", 1: "LINE", 2: "PLANE", 3: "VOLUME"}[info["dim"]]), ("nodes", info["nodes"]), ("coarseNodes", info["corners"]), ("dimension", info["dim"])):
        ctx.oblige("scalar_facts")
        if fld not in F:
            bad(fld, fld, "%s is not set" % fld)
        elif F[fld] != want:
            bad(fld, fld, "%s is %s, the element has %s" % (fld, F[fld], want))
    if info["dim"] < 2:
        return
    quad = info["nodes"] > info["corners"]
    line = "LINE3" if quad else "LINE2"

    def table(name, ptr):
        v, p = F.get(name), F.get(ptr)
        if not (isinstance(v, tuple) and v[0] == "rows") or not (isinstance(p, tuple) and p[0] == "rows"):
            bad(name, name, "%s or %s is not set" % (name, ptr))
            return None, None
        if v[2] is None or v[1] is None or p[2] is None:
            raise AnalysisBroken("%s of %s is not a constant table" % (name, c))
        r = rows(v)
        pr = p[2]
        if r is None:
            bad(name, name, "%s is not divided into rows" % name)
            return None, None
        if len(pr) != len(r):
            bad(name, ptr, "%d entries in %s but %d types" % (len(r), name, len(pr)))
            return None, None
        for row, code in zip(r, pr):
            ctx.oblige("rows")
            if code not in C:
                bad(name, ptr, "row %s of %s has no element type" % (row, name))
            elif C[code]["nodes"] != len(row) or C[code]["dim"] != (1 if name == "edgeList" else info["dim"] - 1):
                bad(name, name, "row %s of %s is labelled %s" % (row, name, code))
            if len(set(row)) != len(row) or any(not 0 <= x < info["nodes"] for x in row):
                bad(name, name, "row %s of %s does not name %d distinct nodes of the element" % (row, name, len(row)))
        return r, pr

    fr, fp = table("faceList", "facepointers")
    er, ep = table("edgeList", "edgepointers")
    if fr is None or er is None:
        return
    # corners and mid-nodes of a row
    def split(row):
        n = len(row)
        k = n // 2 if quad and n > 3 else (2 if quad else n)
        if n == 3 and quad and info["dim"] == 2:
            k = 2
        return row[:k], row[k:]
    mids = {}
    for row in er:
        a, m = split(row) if len(row) != 3 or quad else (row, [])
        a, m = row[:2], row[2:]
        key = frozenset(a)
        if key in mids or max(a) >= info["corners"]:
            bad("edge", "edgeList", "edge %s is listed twice or does not join two corners" % (row,))
        mids[key] = m[0] if m else None
        if m and m[0] < info["corners"]:
            bad("edge", "edgeList", "mid-side node %d of edge %s is a corner" % (m[0], row))
    if quad and len(set(mids.values())) != len(mids):
        bad("edge", "edgeList", "two edges share a mid-side node")
    if info["dim"] == 2:
        want = set(cyc_edges(list(range(info["corners"]))))
        got = [tuple(r[:2]) for r in fr]
        if sorted(got) != sorted(want) or sorted(tuple(r[:2]) for r in er) != sorted(want):
            bad("boundary", "faceList", "the boundary %s does not go around the element" % (got,))
        if [r for r in fr] != [r for r in er] and {frozenset(r[:2]): r[2:] for r in fr} != {frozenset(r[:2]): r[2:] for r in er}:
            bad("boundary", "faceList", "the faces and edges of a plane element differ")
        if F.get("faces") != info["corners"]:
            bad("faces", "faces", "%s boundary lines instead of %d" % (F.get("faces"), info["corners"]))
        poly = F.get("polygon")
        cycle = []
        for a, b in cyc_edges(list(range(info["corners"]))):
            cycle.append(a)
            if quad:
                cycle.append(mids.get(frozenset((a, b))))
        ctx.oblige("polygons")
        if not isinstance(poly, list) or len(poly) != len(cycle) or not any(poly == cycle[i:] + cycle[:i] for i in range(len(cycle))):
            bad("polygon", "polygon", "polygon %s is not the boundary %s" % (poly, cycle))
        tri = F.get("triangles")
        if not isinstance(tri, tuple) or rows(tri) is None:
            bad("triangles", "triangles", "surface triangles are not set")
            return
        ctx.oblige("triangulations")
        cnt = {}
        for r in rows(tri):
            for e in cyc_edges(r):
                cnt[e] = cnt.get(e, 0) + 1
        bnd = set()
        ok = all(v == 1 for v in cnt.values())
        for (a, b) in cnt:
            if (b, a) not in cnt:
                bnd.add((a, b))
        if not ok or bnd != set(cyc_edges(cycle)) or len(rows(tri)) != len(cycle) - 2:
            bad("triangles", "triangles", "the surface triangles do not cover the element exactly once")
        return
    # volumes
    nf, ne = FE[info["shape"]]
    for fld, want, have in (("faces", nf, len(fr)), ("edges", ne, len(er))):
        ctx.oblige("scalar_facts")
        if F.get(fld) != want or have != want:
            bad(fld, fld, "%s %s declared, %d listed, the shape has %d" % (F.get(fld), fld, have, want))
    directed = {}
    xyz = XYZ[info["shape"]]
    cen = tuple(sum(p[i] for p in xyz) / len(xyz) for i in range(3))
    for row in fr:
        k = len(row) // 2 if quad else len(row)
        corners, m = row[:k], row[k:]
        ctx.oblige("faces_oriented")
        if max(corners) >= info["corners"] or any(x < info["corners"] for x in m):
            bad("face", "faceList", "face %s does not list corners before mid-side nodes" % (row,))
            continue
        for i, e in enumerate(cyc_edges(corners)):
            directed[e] = directed.get(e, 0) + 1
            if quad:
                ctx.oblige("mid_nodes")
                if mids.get(frozenset(e)) != m[i]:
                    bad("mid", "faceList", "face %s places mid-side node %s on edge %s, the edge table %s" % (row, m[i], e, mids.get(frozenset(e))))
        p = [xyz[i] for i in corners]
        n = cross(sub(p[1], p[0]), sub(p[2], p[0]))
        if dot(n, sub(p[0], cen)) <= 0:
            bad("outward", "faceList", "face %s does not point outward" % (row,))
        if len(p) == 4 and abs(dot(n, sub(p[3], p[0]))) > 1e-12:
            bad("planar", "faceList", "corners of face %s are not one side of the shape" % (row,))
    for e, v in directed.items():
        if v != 1 or directed.get((e[1], e[0])) != 1:
            bad("closed", "faceList", "edge %s is not shared by exactly two oppositely oriented faces" % (e,))
            break
    if {frozenset(e) for e in directed} != set(mids):
        bad("edges", "edgeList", "the edge table does not list the edges of the faces")
    w = 3 if quad else 2
    fw = min(len(r) for r in fr)
    if F.get("nCommonEdge") != w:
        bad("nCommonEdge", "nCommonEdge", "elements with a common edge share %s nodes, not %s" % (w, F.get("nCommonEdge")))
    if not (isinstance(F.get("nCommonFace"), int) and w < F["nCommonFace"] <= fw):
        bad("nCommonFace", "nCommonFace", "threshold %s does not separate a common face (>= %d nodes) from a common edge (%d nodes)" % (F.get("nCommonFace"), fw, w))
