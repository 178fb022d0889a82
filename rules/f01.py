"""F01: basis functions, their derivatives and quadrature describe the element shape."""
import re, itertools
from fractions import Fraction
from facts import walk, text, strip, val, AnalysisBroken
from polydom import Interp, Poly, Arr, Obj
import elem

EXPLANATION = """
Polynomial constant propagation. For every element type and quadrature the physics kernels instantiate, the
code that fills shape functions, derivatives, weights and nodal values is folded over the syntax tree into
polynomials with rational coefficients (the reference coordinates stay indeterminate). The extracted
polynomials must satisfy the identities that hold for every point of the element: partition of unity,
derivative columns equal to the formal derivatives of the shape functions, nodal values forming a permutation
matrix; and weights, derivatives and shape functions together must reproduce volume, first and second moments
of the straight-sided shape, with positive Jacobian, in the node numbering of the element tables.
"""
RULE = "sum N == 1; dN[:,c] == dN/dx_p(c); sum_g w_g det J_g x^a == integral over the shape, |a| <= degree; NN is a permutation"
ASSUMPTIONS = ["decimal literals of quadrature tables are rounded: moments compared with relative tolerance 1e-9"]

REF = dict(elem.XYZ)
REF["LINE"] = [(-1,), (1,)]
REF["TRIANGLE"] = [(0, 0), (1, 0), (0, 1)]
REF["SQUARE"] = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
# corner decomposition into simplices (to integrate monomials exactly over the straight-sided shape)
SIMPLEX = {
    "LINE": [(0, 1)], "TRIANGLE": [(0, 1, 2)], "SQUARE": [(0, 1, 2), (0, 2, 3)],
    "TETRA": [(0, 1, 2, 3)], "PYRAMID": [(0, 1, 2, 4), (0, 2, 3, 4)],
    "PRISMA": [(0, 1, 2, 3), (1, 2, 3, 4), (2, 3, 4, 5)],
    "HEXA": [(0, 1, 3, 4), (1, 2, 3, 6), (1, 3, 4, 6), (1, 4, 5, 6), (3, 4, 6, 7)],
}
# a generic affine image (exact rationals) so that errors do not cancel by symmetry; degrees reproduced today
AFF = [[Fraction(7, 5), Fraction(2, 7), Fraction(1, 9)], [Fraction(-3, 11), Fraction(6, 5), Fraction(2, 13)], [Fraction(1, 5), Fraction(-1, 3), Fraction(9, 8)]]


def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    if n == 2: return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


MAXDEG = 5
# polynomial exactness of the quadrature of each element (collapsed and prismatic rules are of lower degree)
DEGREE = {"LINE2": 3, "LINE3": 5, "TRIANGLE3": 2, "TRIANGLE6": 4, "SQUARE4": 3, "SQUARE8": 5, "TETRA4": 1, "TETRA10": 5,
          "PYRAMID5": 1, "PYRAMID13": 1, "PRISMA6": 2, "PRISMA15": 2, "HEXA8": 3, "HEXA20": 5}


def moments(shape, X, d):
    """exact integrals of all monomials up to MAXDEG over the straight-sided shape with corners X"""
    out = {}
    idx = [k for q in range(MAXDEG + 1) for k in itertools.combinations_with_replacement(range(d), q)]
    fact = [1]
    for i in range(1, 20):
        fact.append(fact[-1] * i)
    for s in SIMPLEX[shape]:
        P = [X[i] for i in s]
        v = abs(det([[P[j + 1][c] - P[0][c] for c in range(d)] for j in range(d)])) / fact[d]
        lam = [Poly.var("l%d" % i) for i in range(d + 1)]
        x = []
        for c in range(d):
            e = Poly()
            for i in range(d + 1):
                e = e + lam[i] * Poly.const(P[i][c])
            x.append(e)
        memo = {(): Poly.const(1)}
        for k in idx:
            if k:
                memo[k] = memo[k[:-1]] * x[k[-1]]
            r = Fraction(0)
            for mon, co in memo[k].m.items():
                t = co
                for _, e in mon:
                    t *= fact[e]
                r += t
            out[k] = out.get(k, 0) + r * v * fact[d] / fact[len(k) + d]
    return out


def run(ctx):
    P = ctx.program("src/analysis/assembler/heattransfer/kernel*.cpp", "src/analysis/assembler/structuralmechanics/kernel*.cpp", "src/mesh/element.cpp")
    C = elem.codes(P)
    # mid nodes from the element tables
    edges = {}
    for f in P.functions:
        if f.q == "espreso::Element::init" and f.tm == "" and f.b:
            m = re.search(r"CODE::(\w+)", f.raw.get("ta") or f.cta or "")
            if m and m.group(1) in C:
                t = elem.Const(f)
                e = t.fields.get("edgeList") or t.fields.get("faceList")
                edges[m.group(1)] = elem.rows(e) if isinstance(e, tuple) else []
    combos = {}
    for f in P.functions:
        if f.n == "simd" and f.tm == "inst" and "BaseFunctions<" in f.q and f.q.startswith("espreso::"):
            m = re.search(r"BaseFunctions<espreso::Element::CODE::(\w+), (\d+)>", f.q)
            if m and m.group(1) in C:
                combos.setdefault((m.group(1), int(m.group(2))), []).append(f)
    seen = {}
    for (code, gps), fs in sorted(combos.items()):
        # identical templates: analyse one instantiation per element record
        for f in fs[:1]:
            one(ctx, P, C[code], code, gps, f, edges.get(code) or [])
        seen[code] = seen.get(code, 0) + 1
    for c in C:
        if C[c]["dim"] and c not in seen:
            ctx.violate("missing:" + c, "src/analysis/assembler", "no kernel evaluates basis functions of %s" % c)
    ctx.floor("element_quadratures", 14)


def num(v):
    return v.c()


def one(ctx, P, C, code, gps, f, edges):
    d, nn = C["dim"], C["nodes"]
    key = "%s/%d" % (code, gps)
    ctx.oblige("element_quadratures")
    it = Interp(P)
    # ---- the setter: reached from simd
    setter = None
    for n in walk(f.b):
        if n["k"] == "Call" and n.get("n") == "set" and len(n["a"]) == 2 + d:
            ds = [x for x in it.defs.get(n["q"], []) if len(x.p) == 2 + d]
            if ds:
                setter = ds[0]
                break
    V = ["r", "s", "t"][:d]
    if setter is not None:
        N, dN = Arr(), Arr()
        it.call(setter, [N, dN] + [Poly.var(v) for v in V])
        where = setter.where()
        Ns = [N.d.get(i) for i in range(nn)]
        if any(x is None for x in Ns) or len(N.d) != nn:
            ctx.violate("assign:" + key, where, "%s: not every shape function is assigned" % key)
            return
        ctx.oblige("partition_of_unity")
        S = Poly()
        for x in Ns:
            S = S + x
        if S != Poly.const(1):
            ctx.violate("unity:" + key, where, "%s: shape functions sum to %s, not 1" % (key, S))
        cols = []
        for c in range(d):
            col = [(dN.d[i].d.get(c) if i in dN.d else None) for i in range(nn)]
            if any(x is None for x in col):
                ctx.violate("assignd:" + key, where, "%s: not every derivative is assigned" % key)
                return
            ctx.oblige("derivative_columns")
            match = [v for v in V if all(col[i] == Ns[i].diff(v) for i in range(nn))]
            if not match:
                best = max(V, key=lambda v: sum(col[i] == Ns[i].diff(v) for i in range(nn)))
                bad = [i for i in range(nn) if col[i] != Ns[i].diff(best)]
                ctx.violate("deriv:%s:%d" % (key, c), where, "%s: derivative column %d is not the derivative of the shape functions (node %d: %s instead of %s)"
                            % (key, c, bad[0], col[bad[0]], Ns[bad[0]].diff(best)))
                return
            cols.append(match[0])
        if len(set(cols)) != d:
            ctx.violate("deriv:" + key, where, "%s: derivative columns %s do not cover all directions" % (key, cols))
            return
    # ---- the quadrature
    e = Obj()
    for k in ("w", "N", "dN", "NN", "dNN"):
        e.f[k] = Arr()
    it.call(f, [e])
    where = f.where()
    w = [e.f["w"].d.get(g) for g in range(gps)]
    if any(x is None for x in w) or len(e.f["w"].d) != gps:
        ctx.violate("weights:" + key, where, "%s: %d weights for %d integration points" % (key, len(e.f["w"].d), gps))
        return
    corners = [[sum(AFF[i][j] * x[j] for j in range(d)) + Fraction(1, 3 + i) for i in range(d)] for x in REF[C["shape"]]]
    X = list(corners)
    if nn > len(X):
        X += [None] * (nn - len(X))
        for e3 in edges if d > 1 else [[0, 1, 2]]:
            if len(e3) == 3:
                X[e3[2]] = [(corners[e3[0]][i] + corners[e3[1]][i]) / 2 for i in range(d)]
    if any(x is None for x in X):
        raise AnalysisBroken("mid nodes of %s unknown" % code)
    ex = moments(C["shape"], corners, d)
    if C["shape"] == "SQUARE" and d == 2:
        pass
    got = {k: Fraction(0) for k in ex}
    for g in range(gps):
        try:
            N = [num(e.f["N"].d[g].d[i]) for i in range(nn)]
            dN = [[num(e.f["dN"].d[g].d[i].d[c]) for c in range(d)] for i in range(nn)]
        except KeyError:
            ctx.violate("gp:" + key, where, "%s: integration point %d has no shape functions" % (key, g))
            return
        ctx.oblige("integration_points")
        J = [[sum(dN[n][c] * X[n][i] for n in range(nn)) for i in range(d)] for c in range(d)]
        D = det(J)
        if D <= 0:
            ctx.violate("jacobian:" + key, where, "%s: Jacobian is not positive at integration point %d of a well-shaped element (orientation)" % (key, g))
            return
        x = [sum(N[n] * X[n][i] for n in range(nn)) for i in range(d)]
        wd = num(w[g]) * D
        for k in got:
            p = wd
            for i in k:
                p *= x[i]
            got[k] += p
    bad = {}
    for k in ex:
        scale = max(abs(ex[k]), ex[()])
        if abs(got[k] - ex[k]) > Fraction(1, 10 ** 9) * scale:
            bad.setdefault(len(k), []).append((k, float(got[k]), float(ex[k])))
    degree = MAXDEG if not bad else min(bad) - 1
    ctx.sample("quadrature", "%s: degree >= %d on the affine shape" % (key, degree), 60)
    need = DEGREE[code]
    ctx.oblige("moments", len(ex))
    if degree < need:
        k, a, b = bad[degree + 1][0]
        ctx.violate("moments:" + key, where, "%s: quadrature gives %s = %.12g, the shape has %.12g" % (key, "volume" if not k else "moment of x%s" % list(k), a, b))
    # ---- nodal values
    rows = []
    for n in range(nn):
        r = e.f["NN"].d.get(n)
        v = [num(r.d[i]) if r and i in r.d else None for i in range(nn)]
        ctx.oblige("nodal_rows")
        ones = [i for i in range(nn) if v[i] == 1]
        if len(ones) != 1 or any(v[i] != 0 for i in range(nn) if i not in ones):
            ctx.violate("nodal:%s:%d" % (key, n), where, "%s: nodal values of row %d are %s, not a unit vector" % (key, n, [None if x is None else float(x) for x in v]))
            return
        rows.append(ones[0])
    if sorted(rows) != list(range(nn)):
        ctx.violate("nodal:" + key, where, "%s: nodal evaluation points %s do not visit every node once" % (key, rows))


