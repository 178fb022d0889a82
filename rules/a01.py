"""A01: the element, boundary and node kernels of the heat transfer assembler compute the finite element terms.

Entry points are the specialisations of espreso::runElement / runBoundary / runNode; the operators are set up by
the `activate` methods of the operators themselves (interpreted as well).  Three elements in a program with two
SIMD lanes exercise a full and a partial chunk.  Every output (volume, matrices, right-hand sides, fluxes ...) is
compared with the formula of the finite element method as a rational function of all inputs."""
import a03
import kernels
from kernels import *

EXPLANATION = """
The compiled kernels of the heat transfer assembler are interpreted from the type-checked syntax tree (all template instances, both the constant and the variable part of the operators, all chunks)
in the domain of value numbering: every distinct input (coordinates, weights, base functions, material and boundary coefficients, previous contents of all output arrays) is a distinct
element of a prime field (or its quadratic extension), arithmetic is exact, functions that are not algebraic are hash-consed. Two results are given the same number only if they are the same rational function
of the inputs (up to a collision probability below 1e-15, each scenario is numbered twice). The number of every output is compared with the number of the textbook formula.
No code of the solver is compiled or run; branches on unknown data make the scenario undecided.
"""
RULE = """
Volume, conductivity matrix (all material models, rotation and coordinate systems, thickness), advection with and without stabilization, heat source, mass matrix, residual, initial temperature, thickness,
gradient, flux, heat flow, heat flux, convection and prescribed temperature equal the finite element formula with every coefficient evaluated at the point (coordinates, temperature) where it belongs; nothing else is written.
"""
ASSUMPTIONS = ["the geometry of an element is not degenerated (Jacobian not singular)", "base functions and Gauss points themselves are the subject of E01"]


def oracle_K(s, e, C, thick=True):
    """sum over Gauss points of t*det*w * dND^T C dND"""
    n = s.nodes
    K = [0] * (n * n)
    for g in range(s.gps):
        det, B = s.geo(e, g)
        t = s.thick(e, g) if thick else 1
        sc = t * det % P * s.w(g) % P
        c = C(e, g)
        CB = [[sum(c[i][j] * B[m][j] for j in range(s.ndim)) % P for i in range(s.ndim)] for m in range(n)]
        for a in range(n):
            for b in range(n):
                K[a * n + b] += sc * (sum(B[a][i] * CB[b][i] for i in range(s.ndim)) % P)
    return [x % P for x in K]


def heatsource(s, e):
    return [sum(s.geo(e, g)[0] * s.w(g) % P * s.N(g, n) % P * s.thick(e, g) % P * s.expr("source", e, g) for g in range(s.gps)) % P for n in range(s.nodes)]


def mass(s, e, cp=True):
    n = s.nodes
    return [sum(s.thick(e, g) * s.geo(e, g)[0] % P * s.w(g) % P * s.expr("mat.density", e, g) % P * (s.expr("mat.heat_capacity", e, g) if cp else 1) % P * s.N(g, a) % P * s.N(g, b) for g in range(s.gps)) % P for a in range(n) for b in range(n)]


def advection(s, e, sigma):
    """isotropic diffusion and SUPG stabilized advection"""
    n = s.nodes
    K = [0] * (n * n)
    for g in range(s.gps):
        det, B = s.geo(e, g)
        rc = s.expr("mat.density", e, g) * s.expr("mat.heat_capacity", e, g) % P
        u = [s.expr("motion." + x, e, g) * rc % P for x in "xyz"[:s.ndim]]
        be = [sum(u[d] * B[a][d] for d in range(s.ndim)) % P for a in range(n)]
        un, bn = s.m.sqrt(sum(x * x for x in u) % P), s.m.sqrt(sum(x * x for x in be) % P)
        he = 2 * un * inv(bn) % P
        k = s.expr("cond.values.get(0,0)", e, g)
        pe = 2 * k * bn % P * inv(2) % P * inv(un) % P * inv(un) % P
        tau = s.m.fun("max", *sorted([0, (1 - pe) % P]))
        a_ = inv(2) * he % P * tau % P * inv(un) % P
        kk = (k + (s.m.sym("sigma") * he % P * un if sigma else 0)) % P
        t = s.thick(e, g)
        dw = t * det % P * s.w(g) % P
        for i in range(n):
            for j in range(n):
                K[i * n + j] += dw * kk % P * sum(B[i][d] * B[j][d] for d in range(s.ndim)) + dw * (s.N(g, i) + a_ * be[i]) % P * be[j]
    return [x % P for x in K]


MODELS = ["ISOTROPIC", "DIAGONAL", "SYMMETRIC", "ANISOTROPIC"]
SYSTEMS = ["CARTESIAN", "CYLINDRICAL", "SPHERICAL"]


OPS = [("K$", "MatrixConductivityKernel|ConductivityKernel"), ("M$", "MatrixMassKernel"), ("nf$", "MatrixApplyKernel"), ("volume|surface", "IntegrationKernel"), ("initial temp", "InitialTemperatureKernel"),
       ("thickness", "ThicknessToNodes"), ("temperature gradient|gradient", "TemperatureGradientKernel"), ("heat flux|flux", "TemperatureFluxKernel"), ("dirichlet", "VectorSetterKernel")]


class Heat(Scenario):
    ops_of = OPS + [("f$", "HeatSourceKernel")]
    physics = "heattransfer"
    prefix = "HeatTransfer"

    def conductivity(self, model, system, rotated):
        """C(e, g) as a matrix"""
        d = self.ndim
        def C(e, g):
            if model == "ISOTROPIC":
                k = self.expr("cond.values.get(0,0)", e, g)
                return [[k if i == j else 0 for j in range(d)] for i in range(d)]
            c = [[0] * d for _ in range(d)]
            for i in range(d):
                for j in range(d):
                    if model == "DIAGONAL" and i != j:
                        continue
                    a, b = (min(i, j), max(i, j)) if model == "SYMMETRIC" else (i, j)
                    c[i][j] = self.expr("cond.values.get(%d,%d)" % (a, b), e, g)
            if rotated:
                T = self.rotation(system, e, g)
                c = matmul(transpose(T), matmul(c, T))
            return c
        return C

    def activate(self, model="ISOTROPIC", system=None, thickness=True, advection=False, source=False, M=False, gradient=False, flux=False, init=False, sigma=False, residual=False, shape="FULL"):
        s, m, tu, ops = self, self.m, self.tu, self.ops
        rot = system is not None
        system = system or "CARTESIAN"
        m.cfg.update({"cs.type": s.enum("CoordinateSystemConfiguration::TYPE", system), "cond.model": s.enum("ThermalConductivityConfiguration::MODEL", model),
                      "cs.isConst()": 1 if s.isconst("cs") else 0, "cs.isRotated()": 1 if rot else 0,
                      "cond.isConst()": 1 if s.isconst("cond") else 0, "cond.needCoordinates()": 1 if s.place("cond") else 0, "cond.needTemperature()": 1 if s.temp("cond") else 0})
        for x in "xyz":
            m.cfg["cs.rotation.%s.isset" % x] = m.cfg["cs.center.%s.isset" % x] = 1 if rot else 0
        if s.ndim == 2:
            s.act("thickness", Path("thickness") if thickness else None, s.it(0), s.it(s.E), s.buf("thickness", s.E * s.nodes, "thickness0"))
        s.act("material", Path("mat"))
        s.act("conductivity", Path("cond"), Path("cs"))
        s.act("heatSource", Path("source") if source else None, ty="ECFExpression *")
        s.act("advection", Path("motion") if advection else None, m.sym("sigma") if sigma else 0)
        gpc = any(ops[x]["needCoordinates"] for x in ("conductivity", "material", "thickness", "heatSource", "advection"))
        s.act("coordinates", s.it(0), s.it(s.E), 1 if gpc or system != "CARTESIAN" else 0)
        kmodel = model
        if ops["conductivity"]["rotated"] and model == "DIAGONAL":
            kmodel = "SYMMETRIC"
        km = s.enum("ThermalConductivityConfiguration::MODEL", kmodel)
        s.act("K", km)
        if M:
            s.act("M")
        if residual:
            s.act("temperatureResidual")
        if gradient:
            s.act("gradient", 0, s.named("gradient", s.ndim))
        if flux:
            s.act("flux", 0, s.named("flux", s.ndim), km)
            ops["conductivity"]["action"] |= s.action("SOLUTION")
        s.act("initTemperature", Path("init") if init else None, ty="ECFExpression *")
        s.act("temperature", s.it(0), s.it(s.E), s.buf("temperature", s.E * s.nodes, "T"), 1 if any(ops[x]["needTemperature"] for x in ("conductivity", "material", "heatSource", "advection")) else 0)
        n = s.nodes
        s.matrix("Kfiller", "K", n * n, shape)
        if M:
            s.matrix("Mfiller", "M", n * n, shape)
        s.vector("RHSfiller", "f", n)
        if residual:
            s.vector("nRHSfiller", "nf", n)
        ops["volume"] = 0
        ops["elements"], ops["chunks"] = s.E, (s.E + LANES - 1) // LANES
        ops["timeIntegrationConstantK"], ops["timeIntegrationConstantM"] = m.sym("tK"), m.sym("tM")


def element(c, code, shapes=("FULL",)):
    const = True
    # volume, initial temperature and thickness in the preprocessing step
    for const in (True, False):
        def body(s):
            s.activate(init=True)
            s.run("PREPROCESS")
            s.eq("volume", s.ops["volume"], s.volume())
            for e in range(s.E):
                for n in range(s.nodes):
                    s.eq("initial temperature of node %d of element %d" % (n, e), s.bufs["temperature"][e * s.nodes + n], s.nodal("init", e, n, T=None))
                    if s.ndim == 2:
                        s.eq("thickness of node %d of element %d" % (n, e), s.bufs["thickness"][e * s.nodes + n], s.nodal("thickness", e, n, T=None))
        c.case("preprocessing of %s elements%s" % (code, "" if const else ", expressions of coordinates"), lambda seed: Heat(c, code, const, seed), body)
    for model in MODELS:
        for const in (True, False):
            for system in (None, "CARTESIAN", "CYLINDRICAL"):
                if model == "ISOTROPIC" and system:
                    continue
                def body(s):
                    s.activate(model, system, source=True, flux=True, gradient=True)
                    s.run("PREPROCESS")
                    s.load("temperature", "T")
                    s.run("ASSEMBLE")
                    C = s.conductivity(model, system, system is not None)
                    s.matrix_eq("K", lambda e: oracle_K(s, e, C))
                    s.vector_eq("f", lambda e: heatsource(s, e))
                    s.run("SOLUTION")
                    ig = inv(s.gps)
                    for e in range(s.E):
                        fl, gr = [0] * s.ndim, [0] * s.ndim
                        for g in range(s.gps):
                            B = s.geo(e, g)[1]
                            dT = [sum(B[n][d] * s.T(e, n) for n in range(s.nodes)) % P for d in range(s.ndim)]
                            cc = C(e, g)
                            for d in range(s.ndim):
                                gr[d] += dT[d] * ig
                                fl[d] += sum(cc[d][k] * dT[k] for k in range(s.ndim)) * ig
                        for d in range(s.ndim):
                            s.eq("temperature gradient [%d] of element %d" % (d, e), s.bufs["gradient"][e * s.ndim + d], gr[d] % P)
                            s.eq("heat flux [%d] of element %d" % (d, e), s.bufs["flux"][e * s.ndim + d], fl[d] % P)
                    for b in ("gradient", "flux"):
                        s.eq("%s of the following element" % b, s.bufs[b][s.E * s.ndim:], s.bufs0[b][s.E * s.ndim:])
                c.case("%s conductivity of %s elements%s%s" % (model, code, ", rotated in a %s system" % system if system else "", "" if const else ", expressions of coordinates and temperature"), lambda seed: Heat(c, code, const, seed), body)
    # a single expression depends on coordinates and temperature
    for path in ["cond", "source", "mat.density", "mat.heat_capacity"] + ["motion." + x for x in "xyz"[:2 if code.startswith(("TRI", "SQ")) else 3]]:
        for kind in (False, "X", "T", "t"):
            def body(s):
                s.activate("SYMMETRIC" if path == "cond" else "ISOTROPIC", None, source=True, advection=path != "cond", M=True)
                s.run("PREPROCESS")
                s.load("temperature", "T")
                s.run("ASSEMBLE")
                C = s.conductivity("SYMMETRIC" if path == "cond" else "ISOTROPIC", None, False)
                s.matrix_eq("K", (lambda e: advection(s, e, False)) if path != "cond" else lambda e: oracle_K(s, e, C))
                s.vector_eq("f", lambda e: heatsource(s, e))
                s.matrix_eq("M", lambda e: mass(s, e, not s.matches("M", lambda e: mass(s, e, False))))
            c.case("only %s of %s elements is an expression of %s" % (path, code, {False: "coordinates and temperature", "X": "coordinates", "T": "temperature", "t": "time"}[kind]), lambda seed: Heat(c, code, lambda p: kind if p.startswith(path) else True, seed), body)
    # transient terms and the residual
    for shape in ("FULL", "UPPER", "LOWER"):
        def body(s):
            s.activate("SYMMETRIC", None, M=True, residual=True, shape=shape)
            s.run("PREPROCESS")
            s.load("temperature", "T")
            s.run("ASSEMBLE")
            C = s.conductivity("SYMMETRIC", None, False)
            cp = not s.matches("M", lambda e: mass(s, e, False))
            if not cp:
                s.known.append(("the mass matrix omits the heat capacity", "mass matrix of %s elements: density and heat capacity are given, but the matrix contains the density only" % code, "MatrixMassKernel"))
            s.matrix_eq("K", lambda e: oracle_K(s, e, C))
            s.matrix_eq("M", lambda e: mass(s, e, cp))
            def nf(e):
                k, mm, n = oracle_K(s, e, C), mass(s, e, cp), s.nodes
                return [sum((s.m.sym("tK") * k[i * n + j] + s.m.sym("tM") * mm[i * n + j]) % P * s.T(e, j) for j in range(n)) % P for i in range(n)]
            s.vector_eq("nf", nf)
        c.case("mass matrix and residual of %s elements, %s matrices" % (code, shape), lambda seed: Heat(c, code, True, seed), body)
    # advection
    for const in (True, False):
        for sigma in (False, True):
            def body(s):
                s.activate("ISOTROPIC", None, advection=True, sigma=sigma)
                s.run("PREPROCESS")
                s.load("temperature", "T")
                s.run("ASSEMBLE")
                s.matrix_eq("K", lambda e: advection(s, e, sigma))
            c.case("advection in %s elements%s%s" % (code, ", with stabilization SIGMA" if sigma else "", "" if const else ", expressions of coordinates and temperature"), lambda seed: Heat(c, code, const, seed), body)


class HeatBoundary(Scenario):
    ops_of = OPS + [("f$", "ExternalHeatKernel")]
    physics = "heattransfer"
    prefix = "HeatTransfer"
    what = "Boundary"

    def activate(self):
        s, m, ops = self, self.m, self.ops
        if s.ndim == 2:
            s.act("thickness", s.it(0), s.it(s.E), s.buf("thickness", s.E * s.nodes, "t"))
        for x in ("heatFlow", "heatFlux", "htc", "externalTemperature"):
            s.act(x, Path(x), ty="ECFExpression *")
        s.act("externalHeat")
        gpc = any(ops[x]["needCoordinates"] for x in ("thickness", "heatFlow", "heatFlux", "htc", "externalTemperature"))
        s.act("coordinates", s.it(0), s.it(s.E), 1 if gpc else 0)
        ops["externalHeat"]["area"] = m.sym("area")
        s.vector("RHSfiller", "f", s.nodes, boundary=True)
        ops["surface"] = 0
        ops["elements"], ops["chunks"] = s.E, (s.E + LANES - 1) // LANES


def boundary(c, code):
    for const in (True, False):
        def body(s):
            s.activate()
            s.run("PREPROCESS")
            s.eq("surface", s.ops["surface"], s.volume())
            s.run("ASSEMBLE")
            def f(e):
                r = [0] * s.nodes
                for g in range(s.gps):
                    t = sum(s.N(g, n) * s.m.sym("t", e * s.nodes + n) for n in range(s.nodes)) % P if s.ndim == 2 else 1
                    q = s.expr("heatFlow", e, g, T=None) * inv(s.m.sym("area")) + s.expr("heatFlux", e, g, T=None) + s.expr("htc", e, g, T=None) * s.expr("externalTemperature", e, g, T=None)
                    for n in range(s.nodes):
                        r[n] += q % P * t % P * s.det(e, g) % P * s.w(g) % P * s.N(g, n)
                return [x % P for x in r]
            s.vector_eq("f", f)
            if "Kfiller" not in s.ops.tu.names(s.ops.rec):
                s.known.append(("convection has no matrix term", "convection on %s boundaries: the term htc*N*N of the unknown temperature is not assembled (boundary operators have no matrix filler)" % code, "ExternalHeatKernel"))
        c.case("heat flow, heat flux and convection on %s boundaries%s" % (code, "" if const else ", expressions of coordinates"), lambda seed: HeatBoundary(c, code, const, seed), body)


class HeatNode(Scenario):
    ops_of = OPS
    physics = "heattransfer"
    prefix = "HeatTransfer"
    what = "Node"

    def activate(self):
        s, ops = self, self.ops
        s.act("coordinates", s.it(0), s.it(s.E), 0)
        s.act("temperature", Path("temperature"))
        s.act("initialTemperature", s.it(0), s.it(s.E), s.buf("temperature", s.E, "T"), 0)
        s.vector("dirichlet", "dirichlet", 1, boundary=True, filter=1)
        ops["elements"], ops["chunks"] = s.E, (s.E + LANES - 1) // LANES


def node(c, ndim):
    for const in (True, False):
        def body(s):
            s.activate()
            s.run("PREPROCESS")
            for e in range(s.E):
                s.eq("initial temperature of node %d" % e, s.bufs["temperature"][e], s.nodal("temperature", e, 0, T=None))
            s.run("ASSEMBLE")
            s.vector_eq("dirichlet", lambda e: [s.nodal("temperature", e, 0)])
        c.case("prescribed temperature in %dD%s" % (ndim, "" if const else ", expressions of coordinates"), lambda seed: HeatNode(c, "POINT1", const, seed, ndim=ndim), body)


def run(ctx):
    c = kernels.Run(ctx, "heattransfer")
    big = ["HEXA20", "PRISMA15", "PYRAMID13", "TETRA10", "SQUARE8", "TRIANGLE6"] if ctx.thorough else []
    c.all([(element, code) for code in big + ["HEXA8", "PRISMA6", "PYRAMID5", "SQUARE4", "TETRA4", "TRIANGLE3"]] +
          [(boundary, code) for code in ["LINE2", "TRIANGLE3", "LINE3", "SQUARE4"] + (["TRIANGLE6", "SQUARE8"] if ctx.thorough else [])] +
          [(node, d) for d in (2, 3)])
    a03.check(ctx, "HeatTransfer")
    c.finish(10)
