"""A03: the settings of the user reach the operators, matrices and expressions of the assembler they belong to."""
import re
import driver
import symx
from symx import show, subterms, Z

EXPLANATION = """
The drivers of the assembler (constructors, analyze, connect, evaluate, assemble, updateSolution, nextIteration) are executed symbolically from the syntax tree: settings are enumerated (dimension, type of analysis, linearity,
model of conductivity or behaviour of elements, coordinate system, requested results, existing regions), all other data stay symbols. Each event (activation of an operator, connection of a matrix, set of time, visit of an interval)
is compared with the specification of the operator: its setting, its interval, region and nodes, its results.
Predicates of materials (rotated, constant, dependent on coordinates or temperature) are executed for each component that decides them alone.
"""
RULE = """
Each operator is activated with the expression of its own setting, for its own interval (region, part of nodes) and before values are evaluated; values of coordinates and temperature are computed in Gauss points whenever an active operator needs them;
each matrix and vector is filled by its own filler into the positions of its own interval, is assembled again whenever an expression it depends on changes, is cleared before and synchronized after its assembly;
expressions get current time, substep or frequency in all threads; each interval is visited once; the solution is stored before results are computed from it.
"""
ASSUMPTIONS = ["An operator reads exactly the data passed to activate (verified for kernels by A01 and A02).", "Loops are executed once with a symbolic index; the bounds of the loops over intervals, regions and threads are checked separately.",
               "Conditions on settings outside of the enumerated ones are sampled."]

MAT = ["src/config/ecf/material/coordinatesystem.cpp", "src/config/ecf/material/thermalconductivity.cpp", "src/config/ecf/material/elasticityproperties.cpp"]


def comp(t):
    """component of a setting in a term"""
    return show(t)


def predicates(ctx, heat=True, structural=True):
    P = ctx.program(*MAT)
    cart = driver.enums(P, "CoordinateSystemConfiguration::TYPE")

    def run(f, values, choose):
        x = symx.Exec(P, values, leaves={"isConst", "evaluate", "needCoordinates", "needTemperature"}, inline=lambda g: g.f == f.f and "evaluator" not in g.q)
        ctx.count("predicates_of_materials")
        return x, x.sample(f, choose)

    def ret(p):
        r = p.ret
        if r is None:
            return None
        return r

    def truth(t, choose):
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "op" and t[1] in ("||", "|"):
            return any(truth(y, choose) for y in t[2:])
        if t[0] == "op" and t[1] in ("&&", "&"):
            return all(truth(y, choose) for y in t[2:])
        if t[0] == "op" and t[1] == "!":
            return not truth(t[2], choose)
        return choose(t)

    def function(q):
        r = [f for f in P.functions if f.q == q and f.b]
        return r[0] if r else None
    CS = "espreso::CoordinateSystemConfiguration::"
    used = {("CARTESIAN", 2): ["rotation.z"], ("CARTESIAN", 3): ["rotation.x", "rotation.y", "rotation.z"], ("CYLINDRICAL", 2): ["center.x", "center.y"], ("CYLINDRICAL", 3): ["center.x", "center.y"],
            ("SPHERICAL", 3): ["center.x", "center.y", "center.z"]}
    f = function(CS + "isRotated")
    if f and cart:
        for ty in cart:
            for dim in (2, 3):
                for one in [None] + (used["CARTESIAN", dim] if ty == "CARTESIAN" else []):
                    for const in (True, False):
                        def choose(t, one=one, const=const):
                            w = show(t)
                            mine = bool(one) and one in w
                            if "isConst" in w:
                                return not mine or const
                            if "evaluate" in w:
                                v = mine and const      # an angle that is not constant is zero now
                                return v if not (t[0] == "op" and t[1] == "==") else not v
                            return True
                        x, p = run(f, {"type": cart[ty], "info::mesh.dimension": dim}, choose)
                        r = ret(p)
                        ctx.oblige("rotation of coordinate systems")
                        if r is None or (any(y == ("c", "?") for y in subterms(r))):
                            continue
                        got, want = truth(r, choose), ty != "CARTESIAN" or one is not None
                        if got != want:
                            ctx.violate("isRotated:%s:%d:%s:%s" % (ty, dim, one, const), "%s:%d" % (f.f, f.l), "%s coordinate system with %s in %dD is %srotated" % (ty.lower(), "%s angle %s" % ("constant" if const else "variable (now zero)", one) if one else "zero angles", dim, "" if got else "not "))
    f = function(CS + "isConst")
    if f and cart:
        for (ty, dim), comps in used.items():
            for one in [None] + comps:
                choose = lambda t, one=one: not (one and one in show(t) and "isConst" in show(t))
                x, p = run(f, {"type": cart[ty], "info::mesh.dimension": dim}, choose)
                r = ret(p)
                ctx.oblige("constancy of coordinate systems")
                if r is None:
                    continue
                got = truth(r, choose)
                if got and one:
                    ctx.violate("cs.isConst:%s:%d:%s" % (ty, dim, one), "%s:%d" % (f.f, f.l), "%s coordinate system with %s that is not constant is treated as constant in %dD" % (ty.lower(), one, dim))
    for cls, fields, use in (("ThermalConductivityConfiguration", ["values.values"], heat), ("ElasticityPropertiesConfiguration", ["poisson_ratio", "young_modulus"], structural)):
        for n in ("isConst", "needCoordinates", "needTemperature"):
            f = function("espreso::%s::%s" % (cls, n))
            if not f or not use:
                continue
            for one in [None] + fields:
                def choose(t, one=one, n=n):
                    w = re.sub(r"\[[^\]]*\]", "", show(t))
                    if n in w:
                        return (n == "isConst") != bool(one and one in w)
                    return True
                x, p = run(f, {}, choose)
                r = ret(p)
                ctx.oblige("predicates of materials")
                if r is None:
                    continue
                got, want = truth(r, choose), (n == "isConst") != bool(one)
                if got != want:
                    ctx.violate("%s:%s:%s" % (cls, n, one), "%s:%d" % (f.f, f.l), "%s::%s is %s when %s" % (cls, n, got, "only %s depends on it" % one if one else "nothing depends on it"))
                for t in p.decisions:
                    for y in subterms(t):
                        if y[0] == "iter" and (y[1][0] == "c" and y[1] != Z or y[2][0] == "op" and y[2][1] == "-" and y[2][3][0] == "c" and y[3] == "<" or y[2][0] == "c" and isinstance(y[2][1], int)):
                            ctx.violate("%s:%s:bounds" % (cls, n), "%s:%d" % (f.f, f.l), "%s::%s does not go through all components (%s)" % (cls, n, show(y)))


def check(ctx, *classes):
    P = ctx.program(*driver.TUS)
    for cls in classes:
        driver.Driver(ctx, P, cls).run()
    try:
        predicates(ctx, "HeatTransfer" in classes, "StructuralMechanics" in classes)
    except (symx.Undecided, KeyError, IndexError, TypeError, AttributeError) as e:
        ctx.sample("not decided", "predicates: %s" % e)
        ctx.count("not_decided")


def run(ctx):
    check(ctx, "HeatTransfer", "StructuralMechanics")
    ctx.floor("settings_of_connect", 1)
