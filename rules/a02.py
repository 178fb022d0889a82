"""A02: the element, boundary and node kernels of the structural mechanics assembler compute the finite element terms.

Entry points are the specialisations of espreso::runElement / runBoundary / runNode (see a01.py)."""
import a03
import kernels
from kernels import *
import algebra

EXPLANATION = """
The compiled kernels of the structural mechanics assembler are interpreted from the type-checked syntax tree (all template instances, both the constant and the variable part of the operators, all chunks)
in the domain of value numbering: every distinct input is a distinct element of a prime field (or its quadratic extension), arithmetic is exact, functions that are not algebraic are hash-consed. Two results are given
the same number only if they are the same rational function of the inputs (up to a collision probability below 1e-15). The number of every output is compared with the number of the textbook formula; the tangent matrix
of non-linear elasticity is compared with the exact derivative of the internal forces (dual numbers over the same field) in a generic direction.
No code of the solver is compiled or run; branches on unknown data make the scenario undecided.
"""
RULE = """
Volume, linear and non-linear stiffness (plane strain, plane stress with and without thickness, axisymmetric, 3D; Kirchhoff and Neo-Hooke materials), internal forces, mass matrix, acceleration, angular velocity, normal and
directed pressure, nodal and harmonic forces, prescribed displacement, initial velocity, thickness, stresses and strains equal the finite element formula with every coefficient evaluated at the point where it belongs; nothing else is written.
"""
ASSUMPTIONS = ["the geometry of an element is not degenerated (Jacobian not singular)", "base functions and Gauss points themselves are the subject of E01 and F01", "eigenvalues of symmetric matrices are computed by LAPACK (not analysed)",
               "corotational formulation and Bonet-Wood plasticity are not decided"]

EL = "mat.elasticity_properties."
BEHAVIOUR = "StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR"
PLANE = ["PLANE_STRAIN", "PLANE_STRESS", "PLANE_STRESS_WITH_THICKNESS"]
OPS = [("K", "MatrixElasticityKernel|MaterialStructuralMechanicsKernel"), ("M", "MatrixMassKernel"), ("nf", "MatrixElasticityKernel"), ("volume|surface", "IntegrationKernel"), ("thickness", "ThicknessToNodes"),
       ("initial velocity", "InitialVelocityKernel"), (".*[sS]tr(ess|ain)", "StressKernel"), ("displacement", "VectorSetterKernel"), ("normal", "NormalKernel")]
VOIGT = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]}


class Struct(Scenario):
    ops_of = OPS + [("f", "AccelerationKernel|AngularVelocityKernel")]
    physics = "structuralmechanics"
    prefix = "StructuralMechanics"
    behaviour = "PLANE_STRAIN"
    pressure = 1

    def temp(self, path):
        return False

    # ------------------------------------------------------------ geometry and coefficients
    def u(self, e, n, d):
        return self.m.sym("u", self.ndim * (e * self.nodes + n) + d)

    def weight(self, e, g):
        """what one Gauss point stands for: thickness or circumference included"""
        t = self.det(e, g) * self.w(g) % P
        if self.ndim == 3:
            return t
        if self.behaviour == "AXISYMMETRIC":
            return t * 2 % P * algebra.PI % P * self.gpx(e, g, 0) % P
        return t * self.thick(e, g) % P

    def material(self, e, g):
        E, nu = self.expr(EL + "young_modulus.get(0,0)", e, g), self.expr(EL + "poisson_ratio.get(0,0)", e, g)
        return E, nu, E * nu % P * inv((1 + nu) * (1 - 2 * nu)) % P, E * inv(2 * (1 + nu)) % P

    def C(self, e, g):
        """matrix of elastic constants in Voigt notation"""
        E, nu, la, mu = self.material(e, g)
        if self.ndim == 3:
            return [[(la + (2 * mu if i == j else 0)) % P if i < 3 and j < 3 else mu if i == j else 0 for j in range(6)] for i in range(6)]
        if self.behaviour == "AXISYMMETRIC":
            return [[(la + (2 * mu if i == j else 0)) % P if i < 3 and j < 3 else mu if i == j else 0 for j in range(4)] for i in range(4)]
        if self.behaviour == "PLANE_STRAIN":
            return [[(la + 2 * mu) % P, la, 0], [la, (la + 2 * mu) % P, 0], [0, 0, mu]]
        k = E * inv(1 - nu * nu) % P
        return [[k, k * nu % P, 0], [k * nu % P, k, 0], [0, 0, k * (1 - nu) % P * inv(2) % P]]

    def B(self, e, g):
        n, d, D = self.nodes, self.ndim, self.geo(e, g)[1]
        rows = []
        for i, j in VOIGT[d]:
            r = [0] * (n * d)
            for k in range(n):
                r[i * n + k] = D[k][j]
                r[j * n + k] = D[k][i]
            rows.append(r)
        if self.behaviour == "AXISYMMETRIC" and d == 2:
            x = inv(self.gpx(e, g, 0))
            rows.insert(2, [self.N(g, k) * x % P for k in range(n)] + [0] * n)
        return rows

    # ------------------------------------------------------------ oracles
    def linearK(self, e):
        s = self.nodes * self.ndim
        K = [0] * (s * s)
        for g in range(self.gps):
            B, C, w = self.B(e, g), self.C(e, g), self.weight(e, g)
            CB = matmul(C, B)
            for a in range(s):
                for b in range(s):
                    K[a * s + b] += w * (sum(B[i][a] * CB[i][b] for i in range(len(B)) if B[i][a]) % P)
        return [x % P for x in K]

    def stress(self, e, g, F, model):
        """second Piola-Kirchhoff stress of the deformation gradient F (numbers or dual numbers)"""
        d = self.ndim
        E, nu, la, mu = self.material(e, min(g, self.gps - 1))
        C = [[sum((F[k][i] * F[k][j] for k in range(d)), 0) % P for j in range(d)] for i in range(d)]
        if model == "KIRCHHOFF":
            G = [[(C[i][j] + (P - 1 if i == j else 0)) * inv(2) % P for j in range(d)] for i in range(d)]
            if d == 2:
                cc = self.C(e, min(g, self.gps - 1))
                v = [G[0][0], G[1][1], G[0][1] * 2 % P]
                S = [sum((v[j] * cc[i][j] for j in range(3)), 0) % P for i in range(3)]
                return [[S[0], S[2]], [S[2], S[1]]], C
            tr = (G[0][0] + G[1][1] + G[2][2]) % P
            return [[(G[i][j] * (2 * mu) + (tr * la if i == j else 0)) % P for j in range(3)] for i in range(3)], C
        J2 = (C[0][0] * C[1][1] * C[2][2] + C[0][1] * C[1][2] * C[2][0] * 2 - C[0][0] * C[1][2] * C[1][2] - C[1][1] * C[0][2] * C[0][2] - C[2][2] * C[0][1] * C[0][1]) % P
        r = inv(J2)
        I = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
                I[j][i] = (C[i1][j1] * C[i2][j2] - C[i1][j2] * C[i2][j1]) * r % P
        p = (self.m.f1("log", J2) * la * inv(2) - mu) % P
        return [[(I[i][j] * p + (mu if i == j else 0)) % P for j in range(3)] for i in range(3)], C

    def gradient(self, e, D, u):
        d = self.ndim
        return [[sum((u(e, n, i) * D[n][j] for n in range(self.nodes)), 1 if i == j else 0) % P for j in range(d)] for i in range(d)]

    def internal(self, e, model, u):
        d, n = self.ndim, self.nodes
        f = [0] * (d * n)
        for g in range(self.gps):
            D, w = self.geo(e, g)[1], self.weight(e, g)
            F = self.gradient(e, D, u)
            S, _ = self.stress(e, g, F, model)
            FS = [[sum((F[i][k] * S[k][j] for k in range(d)), 0) % P for j in range(d)] for i in range(d)]
            for a in range(n):
                for i in range(d):
                    f[i * n + a] = (sum((FS[i][j] * D[a][j] for j in range(d)), 0) * w + f[i * n + a]) % P
        return f

    def massM(self, e, rho=True):
        d, n = self.ndim, self.nodes
        M = [0] * (d * n * d * n)
        for g in range(self.gps):
            w = self.weight(e, g) * (self.expr("mat.density", e, g) if rho else 1) % P
            for a in range(n):
                for b in range(n):
                    x = w * self.N(g, a) % P * self.N(g, b)
                    for i in range(d):
                        M[(i * n + a) * d * n + i * n + b] += x
        return [x % P for x in M]

    def body(self, e, acceleration, rotation):
        d, n = self.ndim, self.nodes
        f = [0] * (d * n)
        ax = self.behaviour == "AXISYMMETRIC" and d == 2
        for g in range(self.gps):
            w = self.weight(e, g) * self.expr("mat.density", e, g) % P
            b = [0] * d
            if acceleration:
                for i in range(d):
                    if not (ax and i == 0):        # a rigid body acceleration has no radial component
                        b[i] += self.expr("acceleration." + "xyz"[i], e, g)
            if rotation:
                om = [self.expr("angularVelocity." + x, e, g) for x in "xyz"]
                x = [self.gpx(e, g, i) if i < d else 0 for i in range(3)]
                if d == 2:
                    om = [0, om[1], 0] if ax else [0, 0, om[2]]
                    if ax: x[1] = 0
                oo, ox = sum(v * v for v in om) % P, sum(a * c for a, c in zip(om, x)) % P
                for i in range(d):
                    b[i] += oo * x[i] - ox * om[i]
            for a in range(n):
                for i in range(d):
                    f[i * n + a] += w * self.N(g, a) % P * (b[i] % P)
        return [x % P for x in f]

    # ------------------------------------------------------------ set up
    def activate(self, model="KIRCHHOFF", nonlinear=False, acceleration=False, rotation=False, M=False, stress=False, init=False, thickness=True, harmonic=False, shape="FULL", K=True, nf=False):
        s, m, ops, n = self, self.m, self.ops, self.nodes
        if s.ndim == 3:
            s.behaviour = "PLANE_STRAIN"
        beh = s.enum(BEHAVIOUR, s.behaviour)
        m.cfg.update({EL + "material_model": s.enum("ElasticityPropertiesConfiguration::MATERIAL_MODEL", model), "mat.coordinate_system.type": s.enum("CoordinateSystemConfiguration::TYPE", "CARTESIAN"),
                      "step.loadstep": 0, "step.substep": 0, "step.iteration": 1})
        it = lambda: (s.it(0), s.it(s.E))
        if s.ndim == 2:
            s.act("thickness", Path("thickness") if thickness else None, *it(), s.buf("thickness", s.E * n, "thickness0"))
        s.act("displacement", *it(), s.buf("displacement", s.E * n * s.ndim, "u"))
        s.act("material", Path("mat"), beh, 1 if nonlinear else 0)
        s.act("matrixElasticity", beh, 1 if nonlinear else 0)
        if M:
            s.act("M")
        s.act("acceleration", Path("acceleration") if acceleration else None, beh, ty="ECFExpressionVector *")
        s.act("angularVelocity", Path("angularVelocity") if rotation else None, beh, ty="ECFExpressionVector *")
        s.act("initVelocity", Path("init") if init else None, ty="ECFExpressionVector *")
        s.act("velocity", *it(), s.buf("velocity", s.E * n * s.ndim, "v"))
        gpc = s.place(EL) or rotation or s.behaviour == "AXISYMMETRIC" or any(ops[x]["needCoordinates"] for x in ("material", "acceleration", "angularVelocity"))
        s.act("coordinates", *it(), 1 if gpc else 0)
        size = n * s.ndim
        if K:
            s.matrix("Kfiller", "K", size * size, shape, dofs=s.ndim)
        if M:
            s.matrix("Mfiller", "M", size * size, shape, dofs=s.ndim)
        s.vector("reRHSfiller", "f", size, dofs=s.ndim)
        if nf:
            s.vector("reNRHSfiller", "nf", size, dofs=s.ndim)
        if harmonic:
            s.vector("imRHSfiller", "imf", size, dofs=s.ndim)
            s.vector("imNRHSfiller", "imnf", size, dofs=s.ndim)
        if stress:
            st = ops["stress"]
            st["enodes"], st["end"] = it()
            st["isactive"], st["action"] = 1, s.action("SOLUTION")
            st["multiplicity"] = s.buf("multiplicity", s.E * n, "multiplicity")
            for nm, dim in (("principal", s.ndim), ("component", 3 * (s.ndim - 1)), ("vonMises", 1)):
                for x in ("Stress", "Strain"):
                    st[nm + x] = s.buf(nm + x, (s.E + 2) * dim, "old " + nm + x)
                    st[nm + x + "Avg"] = s.buf(nm + x + "Avg", s.E * n * dim, "old avg " + nm + x)
        ops["volume"] = 0
        ops["elements"], ops["chunks"] = s.E, (s.E + LANES - 1) // LANES


def title(code, beh):
    return "%s elements%s" % (code, "" if beh is None else " (%s)" % beh.lower().replace("_", " "))


def kinds(code):
    """constants and expressions"""
    return (True, False)


def element(c, code):
    vol = not code.startswith(("TRI", "SQ"))
    behs = [None] if vol else PLANE + ["AXISYMMETRIC"]

    def make(beh, const):
        def mk(seed):
            s = Struct(c, code, const, seed)
            s.behaviour = beh or "PLANE_STRAIN"
            return s
        return mk
    for beh in behs:
        name = title(code, beh)
        for const in (True, False):
            ex = "" if const else ", expressions of coordinates"
            def body(s):
                s.activate(init=True)
                s.run("PREPROCESS")
                s.eq("volume", s.ops["volume"], s.volume())
                for e in range(s.E):
                    for n in range(s.nodes):
                        for d in range(s.ndim):
                            s.eq("initial velocity of node %d component %d of element %d" % (n, d, e), s.bufs["velocity"][(e * s.nodes + n) * s.ndim + d], s.nodal("init." + "xyz"[d], e, n))
                        if s.ndim == 2:
                            s.eq("thickness of node %d of element %d" % (n, e), s.bufs["thickness"][e * s.nodes + n], s.nodal("thickness", e, n))
            if beh in (None, "PLANE_STRAIN"):
                c.case("preprocessing of %s%s" % (name, ex), make(beh, const), body)

            def body(s):
                s.activate(acceleration=True, rotation=True)
                s.run("PREPROCESS")
                s.run("ASSEMBLE")
                s.matrix_eq("K", s.linearK)
                s.vector_eq("f", lambda e: s.body(e, True, True))
            c.case("linear elasticity, acceleration and angular velocity of %s%s" % (name, ex), make(beh, const), body)
        # one expression depends on coordinates
        for path in ("mat.density", EL + "young_modulus", EL + "poisson_ratio", "acceleration.x", "acceleration.y"):
            if beh not in (None, "PLANE_STRAIN"):
                continue
            def body(s):
                s.activate(acceleration=True, M=True)
                s.run("PREPROCESS")
                s.run("ASSEMBLE")
                s.matrix_eq("K", s.linearK)
                s.matrix_eq("M", s.massM)
                s.vector_eq("f", lambda e: s.body(e, True, False))
            c.case("only %s of %s is an expression of coordinates" % (path, name), make(beh, lambda p: "X" if p.startswith(path) or p == EL and path.startswith(EL) else True), body)
        for shape in ("FULL", "UPPER", "LOWER"):
            def body(s):
                s.activate(M=True, shape=shape, harmonic=True)
                s.run("PREPROCESS")
                s.run("ASSEMBLE")
                s.matrix_eq("K", s.linearK)
                s.matrix_eq("M", s.massM)
                for b in ("f", "imf", "imnf"):
                    s.vector_eq(b, lambda e: [0] * (s.ndim * s.nodes))
            c.case("mass matrix of %s, %s matrices" % (name, shape), make(beh, True), body)
        # non-linear elasticity
        for model in ("KIRCHHOFF",) + (("NEO_HOOKEAN_CMP",) if vol else ()):
            if beh == "AXISYMMETRIC":
                continue
            for const in (True, False):
                def body(s):
                    s.activate(model, True, nf=True)
                    s.run("PREPROCESS")
                    s.run("ASSEMBLE")
                    s.vector_eq("nf", lambda e: s.internal(e, model, s.u))
                    dirs = [[s.m.sym("direction", e, i) for i in range(s.ndim * s.nodes)] for e in range(s.E)]
                    size, per, _ = s.shapes["K"]
                    for e in range(s.E):
                        want = s.internal(e, model, lambda e, n, d: Dual(s.u(e, n, d), dirs[e][d * s.nodes + n]))
                        for r in range(size):
                            got = sum(s.bufs["K"][per * s.E - 1 - (e * per + r * size + k)] * dirs[e][k] for k in range(size)) % P
                            s.eq("K of element %d row %d" % (e, r), got, want[r].b)
                c.case("non-linear elasticity (%s) of %s%s" % (model, name, "" if const else ", expressions of coordinates"), make(beh, const), body)
        # stresses
        for model in ("KIRCHHOFF",) + (("NEO_HOOKEAN_CMP",) if vol else ()):
            if beh == "AXISYMMETRIC":
                continue
            def body(s):
                s.activate(model, True, stress=True)
                s.run("PREPROCESS")
                s.run("SOLUTION")
                d, vs = s.ndim, VOIGT[s.ndim]
                eig = lambda A: [s.m.fun("eigSym%d%dDesc value %d" % (d, d, i), *[A[r][c_] for r in range(d) for c_ in range(d)]) for i in range(d)]
                def values(A, nu=0):
                    v = eig(A)
                    q = sum((v[i] - v[(i + 1) % 3]) ** 2 for i in range(3)) if d == 3 else (v[0] - v[1]) ** 2
                    return v + [A[i][j] for i, j in vs] + [s.m.sqrt(q * inv(2) % P) * inv(1 + nu) % P]
                cut = lambda v: (("principal", v[:d], d), ("component", v[d:-1], len(vs)), ("vonMises", v[-1:], 1))
                def point(e, g, D):
                    F = s.gradient(e, D, s.u)
                    S, C = s.stress(e, g, F, model)
                    G = [[(C[i][j] - (1 if i == j else 0)) * inv(2) % P for j in range(d)] for i in range(d)]
                    return values(S), values(G, s.material(e, 0)[1])
                for e in range(s.E):
                    pts = [point(e, g, s.geo(e, g)[1]) for g in range(s.gps)]
                    for k, x in enumerate(("Stress", "Strain")):
                        avg = [sum(p[k][i] for p in pts) * inv(s.gps) % P for i in range(len(pts[0][k]))]
                        for nm, vals, dim in cut(avg):
                            for i, v in enumerate(vals):
                                s.eq("%s%s [%d] of element %d" % (nm, x, i, e), s.bufs[nm + x][e * dim + i], v)
                    for n in range(s.nodes):
                        I = inverse(s.jac(e, lambda m, dd: s.dNN(n, m, dd)))
                        D = [[sum(I[cc][dd] * s.dNN(n, m, dd) for dd in range(d)) % P for cc in range(d)] for m in range(s.nodes)]
                        p = point(e, 0, D)
                        for k, x in enumerate(("Stress", "Strain")):
                            for nm, vals, dim in cut(p[k]):
                                for i, v in enumerate(vals):
                                    b = nm + x + "Avg"
                                    at = (e * s.nodes + n) * dim + i
                                    s.eq("%s [%d] of node %d of element %d" % (b, i, n, e), s.bufs[b][at], (s.bufs0[b][at] + s.m.sym("multiplicity", e * s.nodes + n) * v) % P)
                for nm, dim in (("principal", d), ("component", len(vs)), ("vonMises", 1)):
                    for x in ("Stress", "Strain"):
                        s.eq("%s%s of the following element" % (nm, x), s.bufs[nm + x][s.E * dim:], s.bufs0[nm + x][s.E * dim:])
            c.case("stress and strain (%s) of %s" % (model, name), make(beh, True), body)


class StructFace(Scenario):
    ops_of = [("f", "NormalPressureKernel|PressureKernel|ForceKernel"), ("normal", "NormalKernel"), ("surface", "IntegrationKernel")]
    physics = "structuralmechanics"
    prefix = "StructuralMechanics"
    what = "Boundary"
    opname = "Face"
    behaviour = "PLANE_STRAIN"

    def temp(self, path):
        return False

    def u(self, e, n, d):
        return self.m.sym("u", self.ndim * (e * self.nodes + n) + d)

    def weight(self, e, g):
        t = self.det(e, g) * self.w(g) % P
        if self.ndim == 3:
            return t
        if self.behaviour == "AXISYMMETRIC":
            return t * 2 % P * algebra.PI % P * self.gpx(e, g, 0) % P
        return t * sum(self.N(g, n) * self.m.sym("t", e * self.nodes + n) for n in range(self.nodes)) % P

    def inner(self, e, g):
        """unit vector of the deformed boundary pointing to the body"""
        J = self.jac(e, lambda n, d: self.dN(g, n, d), lambda e, n, d: self.x(e, n, d) + self.u(e, n, d))
        v = [-J[0][1], J[0][0]] if self.ndim == 2 else [-x for x in cross(J[0], J[1])]
        r = inv(self.m.sqrt(sum(x * x for x in v) % P))
        return [x * r % P for x in v]

    def activate(self, force):
        s, m, ops, n = self, self.m, self.ops, self.nodes
        beh = s.enum(BEHAVIOUR, s.behaviour if s.ndim == 2 else "PLANE_STRAIN")
        it = lambda: (s.it(0), s.it(s.E))
        if s.ndim == 2:
            s.act("thickness", *it(), s.buf("thickness", s.E * n, "t"))
        s.act("normalPressure", Path("normalPressure"), beh)
        s.act("displacement", *it(), s.buf("displacement", s.E * n * s.ndim, "u"))
        s.act("pressure", Path("pressure"), Path("direction"), beh)
        s.act("normal", *it(), s.buf("normal", 0, "normal"), s.buf("multiplicity", s.E * n, "multiplicity"))
        ops["normal"]["action"] = s.action("ASSEMBLE")
        ops["normal"]["enodes"] = ops["normal"]["end"]       # nodal normals are an output of their own
        if force:
            s.act("force", s.buf("force", (s.E + 3) * s.ndim, "force"), 2, 2 + s.E)
        gpc = s.behaviour == "AXISYMMETRIC" and s.ndim == 2 or any(ops[x]["needCoordinates"] for x in ("normalPressure", "pressure"))
        s.act("coordinates", *it(), 1 if gpc else 0)
        s.vector("reRHSfiller", "f", n * s.ndim, dofs=s.ndim, boundary=True)
        s.vector("imRHSfiller", "imf", n * s.ndim, dofs=s.ndim, boundary=True)
        ops["surface"] = 0
        ops["elements"], ops["chunks"] = s.E, (s.E + LANES - 1) // LANES


def boundary(c, code):
    for beh in (PLANE + ["AXISYMMETRIC"] if code.startswith("LINE") else [None]):
        for const in (True, False, "normalPressure", "pressure", "direction.x", "direction.y"):
            for force in (False, True):
                if force and const is not True or isinstance(const, str) and beh not in (None, "PLANE_STRAIN"):
                    continue
                def body(s):
                    s.activate(force)
                    s.run("PREPROCESS")
                    s.eq("surface", s.ops["surface"], s.volume())
                    s.run("ASSEMBLE")
                    def f(e):
                        n, d = s.nodes, s.ndim
                        r = [0] * (n * d)
                        for g in range(s.gps):
                            v, w = s.inner(e, g), s.weight(e, g)
                            p, q = s.expr("normalPressure", e, g), s.expr("pressure", e, g)
                            for i in range(d):
                                x = (p * v[i] + q * s.expr("direction." + "xyz"[i], e, g)) % P
                                for a in range(n):
                                    r[i * n + a] += w * s.N(g, a) % P * x
                        if force:
                            for i in range(d):
                                for a in range(n):
                                    r[i * n + a] += s.m.sym("force", (2 + e) * d + i) * inv(n)
                        return [x % P for x in r]
                    s.vector_eq("f", f)
                    s.vector_eq("imf", lambda e: [0] * (s.nodes * s.ndim))
                def make(seed):
                    s = StructFace(c, code, const if not isinstance(const, str) else lambda p: "X" if p.startswith(const) else True, seed)
                    s.behaviour = beh or "PLANE_STRAIN"
                    return s
                c.case("pressure%s on %s boundaries%s%s" % (" and force" if force else "", code, "" if beh is None else " (%s)" % beh.lower().replace("_", " "),
                       "" if const is True else ", expressions of coordinates" if const is False else ", only %s is an expression of coordinates" % const), make, body)


class StructNode(Scenario):
    ops_of = [("f", "ForceKernel|ForceSetter|HarmonicForceKernel"), ("imf", "HarmonicForceKernel"), ("displacement", "VectorSetterKernel")]
    physics = "structuralmechanics"
    prefix = "StructuralMechanics"
    what = "Node"
    behaviour = "PLANE_STRAIN"

    def temp(self, path):
        return False

    def activate(self, data, filter):
        s, ops = self, self.ops
        beh = s.enum(BEHAVIOUR, s.behaviour if s.ndim == 2 else "PLANE_STRAIN")
        it = lambda: (s.it(0), s.it(s.E))
        s.act("coordinates", *it(), 0)
        if data:
            s.act("force", s.buf("force", s.E * s.ndim, "force"), 0, 0, *it())
        else:
            s.act("force", Path("force"), ty="ECFExpressionVector *")
        s.act("harmonicForce", Path("harmonic"), beh)
        s.act("displacement", Path("displacement"))
        for d in range(3):
            s.m.cfg["displacement.%s.isset" % "xyz"[d]] = filter >> d & 1
        s.vector("reRHSfiller", "f", s.ndim, dofs=s.ndim, boundary=True)
        s.vector("imRHSfiller", "imf", s.ndim, dofs=s.ndim, boundary=True)
        s.vector("reDirichlet", "displacement", bin(filter).count("1"), dofs=s.ndim, boundary=True, filter=filter)
        ops["elements"], ops["chunks"] = s.E, (s.E + LANES - 1) // LANES


def node(c, ndim):
    for beh in (PLANE + ["AXISYMMETRIC"] if ndim == 2 else [None]):
        for const in (True, False):
            for data in (False, True):
                for filter in ((1 << ndim) - 1, 1, 2, 1 << (ndim - 1), 1 | 1 << (ndim - 1)):
                    def body(s):
                        s.activate(data, filter)
                        s.run("PREPROCESS")
                        s.run("ASSEMBLE")
                        def value(e, d, im):
                            h = s.nodal("harmonic.magnitude." + "xyz"[d], e, 0) * s.m.f1("sin" if im else "cos", s.angle(s.nodal("harmonic.phase." + "xyz"[d], e, 0)))
                            if beh == "AXISYMMETRIC" and d == 0:
                                h = 0
                            if im:
                                return h % P
                            return (h + (s.m.sym("force", s.ndim * e + d) if data else s.nodal("force." + "xyz"[d], e, 0))) % P
                        s.vector_eq("f", lambda e: [value(e, d, False) for d in range(ndim)])
                        s.vector_eq("imf", lambda e: [value(e, d, True) for d in range(ndim)])
                        s.vector_eq("displacement", lambda e: [s.nodal("displacement." + "xyz"[d], e, 0) for d in range(ndim) if filter >> d & 1])
                    def make(seed):
                        s = StructNode(c, "POINT1", const, seed, ndim=ndim)
                        s.behaviour = beh or "PLANE_STRAIN"
                        return s
                    c.case("nodal conditions in %dD%s%s%s, prescribed %s" % (ndim, "" if beh is None else " (%s)" % beh.lower().replace("_", " "), ", forces of the database" if data else "", "" if const else ", expressions of coordinates",
                           "".join("xyz"[d] for d in range(ndim) if filter >> d & 1)), make, body)


def run(ctx):
    c = kernels.Run(ctx, "structuralmechanics")
    big = ["HEXA20", "PRISMA15", "PYRAMID13", "TETRA10", "SQUARE8", "TRIANGLE6"] if ctx.thorough else []
    c.all([(element, code) for code in big + ["HEXA8", "PRISMA6", "PYRAMID5", "SQUARE4", "TETRA4", "TRIANGLE3"]] +
          [(boundary, code) for code in ["LINE2", "TRIANGLE3", "LINE3", "SQUARE4"] + (["TRIANGLE6", "SQUARE8"] if ctx.thorough else [])] +
          [(node, d) for d in (2, 3)])
    a03.check(ctx, "StructuralMechanics")
    c.finish(10)
