"""R01: the drivers solve the systems of the time (frequency, Newton) scheme that the user asked for."""
import hashlib
from fractions import Fraction as Fr

import timeint
from timeint import Broken, Drive, Table, Refused
from symx import Undecided

EXPLANATION = ("The run() methods of the drivers are interpreted abstractly over linear combinations: each assembly and each solution of a system gives "
               "a fresh base vector, the coefficients are represented by exact rational numbers at random values of the parameters. The systems handed to the "
               "linear solver, the stored solutions and the simulation time of each step are compared with the scheme.")
RULE = ("in each scenario (scheme, previous load step, constant or changing matrices, number of steps, course of the Newton norms) the sequence of systems A x = b with Dirichlet "
        "values, the times of assembly, the solutions passed to the assembler and to the output, and the returned value are those of the scheme")
ASSUMPTIONS = ["operations of Vector_Base/Matrix_Base (set, copy, add, scale, apply) do what their names say",
               "the first steps represent all of them: the loops of the drivers treat every step in the same way",
               "coefficients that agree at random rational parameters agree identically (error probability below 1e-12)"]

PH = "src/analysis/physics/"
EPS = Fr(1, 10 ** 8)


# ---------------------------------------------------------------------- algebra
def lc(*pairs):
    r = {}
    for c, v in pairs:
        for b, x in v.items():
            r[b] = r.get(b, 0) + c * x
    return {b: x for b, x in r.items() if x}


def one(b):
    return {b: Fr(1)}


def mul(m, v):
    r = {}
    for a, x in m.items():
        for b, y in v.items():
            k = ("mul", a, b)
            r[k] = r.get(k, 0) + x * y
    return {b: x for b, x in r.items() if x}


def rnd(seed):
    def f(name):
        h = int(hashlib.sha256(("%s %s" % (seed, name)).encode()).hexdigest()[:12], 16)
        return Fr(1 + h % 99991, 40009 + (h // 99991) % 20011)
    return f


def pretty(b, tab):
    k = b[0]
    if k == "mul":
        return "%s*%s" % (pretty(b[1], tab), pretty(b[2], tab))
    if k == "x":
        return "x%d" % (b[1] + 1)
    if k == "undefined":
        return "undefined(%s)" % b[1].replace("this.", "")
    if k == "sel":
        return "%s%s" % (pretty(b[2], tab), "[%s]" % b[1][0][1] if b[1] and len(b[1][0]) > 1 else "")
    if k == "part":
        return "part(%s)" % pretty(b[2], tab)
    if len(b) > 1:
        t = [x for x in b[1:] if isinstance(x, Fr)]
        s = [x for x in b[1:] if not isinstance(x, Fr)]
        return k + ("(t=%.4g)" % float(t[0]) if t else "") + ("" if not s or s[0] == "initial" else "[u]")
    return k


def close(g, w):
    return g == w or abs(g - w) <= abs(w) * Fr(1, 10 ** 11)


def same(a, b):
    return a == b or all(close(a.get(k, Fr(0)), b.get(k, Fr(0))) for k in set(a) | set(b))


def diff(got, want, tab):
    out = []
    for b in sorted(set(got) | set(want), key=repr):
        g, w = got.get(b, Fr(0)), want.get(b, Fr(0))
        if not close(g, w):
            out.append("%s: %.6g instead of %.6g" % (pretty(b, tab), float(g), float(w)))
    return "; ".join(out[:4])


class Spec:
    """the events a scheme prescribes"""

    def __init__(self, tab, depends, constant=()):
        self.tab, self.depends, self.constant, self.sol, self.ev, self.k = tab, depends, constant, "initial", [], 0

    def base(self, role, t):
        if role in self.constant:
            return one((role,))
        d = self.depends.get(role, "ts")
        return one((role,) + ((t,) if "t" in d else ()) + ((self.sol,) if "s" in d else ()))

    def solve(self, A, b, d, t):
        self.ev.append(("solve", A, b, d, t))
        x = one(("x", self.k))
        self.k += 1
        return x

    def passed(self, *x):
        self.sol = tuple(self.tab.id(y) for y in x)

    def output(self, t, substep, **stored):
        self.ev.append(("output", t, substep, self.sol, stored))


# ---------------------------------------------------------------------- one comparison
PREV = {"HeatTransientLinear": {"x": "s", "U": "s"}, "HeatSteadyStateLinear": {"x": "s"}, "HeatSteadyStateNonLinear": {"x": "s"},
        "StructuralMechanicsTransientLinear": {"U": "s", "x": "s", "V": "v", "W": "a"},
        "StructuralMechanicsTransientNonLinear": {"U": "s", "U_old": "s", "V": "v", "V_old": "v", "A": "a", "A_old": "a"},
        "StructuralMechanicsSteadyStateLinear": {"U": "s"}, "StructuralMechanicsSteadyStateNonLinear": {"U": "s"}}
HEAT = [c for c in PREV if c.startswith("Heat")]
MECH = [c for c in PREV if c.startswith("Struct")]


class Case:
    def __init__(self, ctx, P, cls):
        self.ctx, self.P, self.cls = ctx, P, cls
        f = [f for f in P.functions if f.q == "espreso::%s::run" % cls and f.b]
        self.f = f[0] if len(f) == 1 else None
        self.seed = 0

    def enum(self, q):
        e = self.P.enums.get(q)
        return dict((n, v) for n, v in e["c"]) if e else {}

    def scenario(self, values=None, prev=None, depends=None, constant=(), clock="time", norm=None, **kw):
        self.seed += 1
        r = rnd("%s/%d" % (self.cls, self.seed))
        v = {"g.info::ecf.output.print_matrices": 0, "g.info::mesh.dimension": 3, "g.MPITools::node.rank": 0, "g.MPITools::node->rank": 0}
        v.update(values or {})
        store = {("this", "time", "start"): Fr(0), ("this", "time", "current"): Fr(0), ("this", "time", "shift"): Fr(1), ("this", "time", "final"): Fr(1),
                 ("this", "time", "precision"): EPS, ("this", "frequency", "precision"): EPS, ("step", "substep"): 0, ("step", "substeps"): 1,
                 ("step", "iteration"): 0, ("step", "iterations"): 1, ("step", "loadstep"): 0, ("step", "loadsteps"): 1}
        sc = {"random": r, "values": v, "store": store, "prev": prev, "depends": depends or {}, "constant": constant, "clock": clock,
              "norm": norm or (lambda d, nm, k, a: Fr(10))}
        sc.update(kw)
        return sc

    def drive(self, sc):
        tab = Table()
        d = Drive(self.P, self.f, sc, tab)
        if sc["prev"]:
            for m, what in PREV[sc["prev"]].items():
                d.content[("prev", m)] = one(("previous load step", what))
        try:
            d.result = d.run()
        except Refused:
            return None
        return d

    def compare(self, d, spec, result, label, alt=()):
        """events of the run against the scheme; `alt`: known deviations (key, spec)"""
        bad = self.mismatch(d, spec, result)
        if bad:
            for key, s in alt:
                if not self.mismatch(d, s, result):
                    self.ctx.violate("R01:%s:%s" % (self.cls, key), "%s:%s" % (self.f.f, bad[0] or self.f.l), "%s::run, %s: %s" % (self.cls, label, bad[2]))
                    return False
            self.ctx.violate("R01:%s:%s" % (self.cls, bad[1]), "%s:%s" % (self.f.f, bad[0] or self.f.l), "%s::run, %s: %s" % (self.cls, label, bad[2]))
            return False
        self.ctx.count("scenarios in which all systems, times and results agree")
        return True

    def mismatch(self, d, spec, result):
        tab = d.tab
        got = [e for e in d.events if e[0] in ("solve", "output")]
        want = spec.ev
        for i in range(max(len(got), len(want))):
            if i >= len(want):
                return got[i][1], "count", "an additional %s (%d expected)" % ({"solve": "system is solved", "output": "result is stored"}[got[i][0]], len(want))
            if i >= len(got):
                return None, "count", "only %d of %d systems and results" % (len(got), len(want))
            g, w = got[i], want[i]
            if g[0] != w[0]:
                return g[1], "order", "%s comes where %s is expected" % (g[0], w[0])
            if g[0] == "solve":
                n = sum(1 for e in want[:i + 1] if e[0] == "solve")
                if g[5] != w[4]:
                    return g[1], "time", "system %d is solved at time %.6g instead of %.6g" % (n, float(g[5]), float(w[4]))
                for what, a, b in (("matrix", g[2], w[1]), ("right-hand side", g[3], w[2]), ("dirichlet values", g[4], w[3])):
                    if not same(a, b):
                        return g[1], what.split()[0], "%s of system %d: %s" % (what, n, diff(a, b, tab))
            else:
                n = sum(1 for e in want[:i + 1] if e[0] == "output")
                if g[2] != w[1]:
                    return g[1], "output", "result %d is stored with time %.6g instead of %.6g" % (n, float(g[2]), float(w[1]))
                if w[2] is not None and g[3] != w[2]:
                    return g[1], "output", "result %d is stored as substep %s instead of %s" % (n, g[3], w[2])
                if g[4] != w[3]:
                    a, b = (d.tab.back[x[0]] if x != "initial" and x else {} for x in (g[4], w[3]))
                    return g[1], "output", "result %d is not the solution: %s" % (n, diff(a, b, tab))
                for what, c in w[4].items():
                    s = [v for k, v in g[5].items() if what in k]
                    if len(s) != 1 or not same(s[0], c):
                        return g[1], what, "%s stored with result %d: %s" % (what, n, diff(s[0], c, tab) if s else "nothing is set before the results are stored")
        if result is not None and bool(d.result) != result:
            return None, "return", "returns %s" % bool(d.result)
        return None

    def each(self, fn, label):
        """run one scenario, undecided constructs raise no alarm"""
        self.ctx.count("scenarios")
        try:
            fn()
        except Broken as e:
            self.ctx.violate("R01:%s:broken" % self.cls, "%s:%s" % (self.f.f, self.f.l), "%s::run, %s: %s" % (self.cls, label, e))
        except Undecided as e:
            self.ctx.count("scenarios not decided")
            self.ctx.sample("not decided", "%s, %s: %s" % (self.cls, label, e))
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
            self.ctx.count("scenarios not decided")
            self.ctx.sample("not decided", "%s, %s: %r" % (self.cls, label, e))


CFG = "this.configuration."


def steps(duration, dt):
    return int((duration + EPS) / dt)


DURATIONS = [("3 steps", Fr(3)), ("3.4 steps", Fr(17, 5)), ("1 step", Fr(1))]


def heat_transient(ctx, P):
    c = Case(ctx, P, "HeatTransientLinear")
    if not c.f:
        return
    q = "espreso::TransientFirstOrderImplicitSolverConfiguration::METHOD"
    methods = c.enum(q)
    dep = {"dirichlet": "t"}
    todo = [(m, p, k, dur, fail) for m in methods for p in [None] + HEAT for k in ((), ("K", "M"), ("M",), ("K",)) for dur in DURATIONS for fail in ((), (1,))
            if (p is None or (k == () and m in ("CRANK_NICOLSON", "BACKWARD_DIFF"))) and (not fail or dur[1] == 3) and (k == () or dur[1] == 3)]
    for m, p, k, (dl, dn), fail in todo:
        label = "%s, %s%s%s%s" % (m, dl, ", after " + p if p else "", ", constant " + "+".join(k) if k else "", ", failing solver" if fail else "")

        def case():
            dt = Fr(7, 31)
            sc = c.scenario({CFG + "transient_solver.method": methods[m], CFG + "transient_solver.time_step": dt, CFG + "duration_time": dn * dt}, prev=p, depends=dep, constant=k, fails=fail)
            d = c.drive(sc)
            if d is None:
                ctx.count("scenarios refused by the driver")
                if m != "FORWARD_DIFF" and p in (None, c.cls):
                    ctx.violate("R01:%s:refused" % c.cls, "%s:%s" % (c.f.f, c.f.l), "%s::run, %s: the scenario is refused" % (c.cls, label))
                return
            a = ALPHA[m] if m in ALPHA else None
            if m == "USER":
                a = sc["random"](CFG + "transient_solver.alpha")
            if a is None:
                raise Undecided("method " + m)
            s = Spec(d.tab, dep, k)
            start = sc["random"]("prev.time.final") if p else Fr(0)
            U, V = one(("previous load step", "s")) if p else one(("InitialTemperature",)), {}
            if p:
                s.passed(U)
            ok = True
            for i in range(steps(dn * dt, dt)):
                t = start + (i + 1) * dt
                M = s.base("M", t)
                b = lc((1, s.base("f", t)), (1, mul(M, lc((1 / (a * dt), U), ((1 - a) / a, V)))))
                x = s.solve(lc((1, s.base("K", t)), (1 / (a * dt), M)), b, s.base("dirichlet", t), t)
                s.passed(x)
                s.output(t, i)
                V = lc((1 / (a * dt), x), (-1 / (a * dt), U), (-(1 - a) / a, V))
                U = x
                if i in fail:
                    ok = False
                    break
            c.compare(d, s, ok, label)
        c.each(case, label)


ALPHA = {"CRANK_NICOLSON": Fr(1, 2), "GALERKIN": Fr(2, 3), "BACKWARD_DIFF": Fr(1), "USER": None}


def newmark(c, label, sc, d, p, dep, k, dn, dt, fail, beta, gamma, restart):
    s = Spec(d.tab, dep, k)
    start = sc["random"]("prev.time.final") if p else Fr(0)
    U = one(("previous load step", "s")) if p else {}
    V = (one(("previous load step", "v")) if p == c.cls else {}) if p else one(("InitialVelocity",))
    W = one(("previous load step", "a")) if p == c.cls else {}
    if p:
        s.passed(U)
    n0, n2, n3 = 1 / (beta * dt * dt), 1 / (beta * dt), 1 / (2 * beta) - 1
    ok, i = True, 0
    again = set(restart)
    while i < steps(dn * dt, dt):
        t = start + (i + 1) * dt
        M = s.base("M", t)
        b = lc((1, s.base("f", t)), (1, mul(M, lc((n0, U), (n2, V), (n3, W)))))
        x = s.solve(lc((1, s.base("K", t)), (n0, M)), b, s.base("dirichlet", t), t)
        s.passed(x)
        if s.k in again:
            again.discard(s.k)
            continue
        Z = lc((n0, x), (-n0, U), (-n2, V), (-n3, W))
        V = lc((1, V), (dt * (1 - gamma), W), (dt * gamma, Z))
        U, W = x, Z
        s.output(t, i, velocity=V, acceleration=W)
        i += 1
        if s.k - 1 in fail:
            ok = False
            break
    return s, ok


def mech_transient(ctx, P):
    c = Case(ctx, P, "StructuralMechanicsTransientLinear")
    if not c.f:
        return
    todo = [(p, k, dur, fail, r) for p in [None] + MECH for k in ((), ("K", "M"), ("M",), ("K",)) for dur in DURATIONS for fail in ((), (1,)) for r in ((), (2,))
            if (p is None or k == ()) and (not fail or dur[1] == 3) and (k == () or dur[1] == 3) and (not r or (dur[1] == 3 and not fail and p is None))]
    for p, k, (dl, dn), fail, r in todo:
        label = "%s%s%s%s%s" % (dl, ", after " + p if p else "", ", constant " + "+".join(k) if k else "", ", failing solver" if fail else "", ", restarted step" if r else "")

        def case():
            dt = Fr(7, 31)
            dep = {"dirichlet": "t", "f": "t", "K": "t", "M": "t"} if r else {"dirichlet": "t"}
            sc = c.scenario({CFG + "transient_solver.time_step": dt, CFG + "duration_time": dn * dt}, prev=p, depends=dep, constant=k, fails=fail,
                            restart={x: True for x in r}, checkpoint=bool(r))
            d = c.drive(sc)
            if d is None:
                ctx.count("scenarios refused by the driver")
                if p in (None, c.cls):
                    ctx.violate("R01:%s:refused" % c.cls, "%s:%s" % (c.f.f, c.f.l), "%s::run, %s: the scenario is refused" % (c.cls, label))
                return
            al, de = sc["random"](CFG + "transient_solver.alpha"), sc["random"](CFG + "transient_solver.delta")
            s, ok = newmark(c, label, sc, d, p, dep, k, dn, dt, fail, al, de, r)
            s2, ok2 = newmark(c, label, sc, d, p, dep, k, dn, dt, fail, de, al, r)
            c.compare(d, s, ok, label, alt=[("alpha-delta-swapped", s2)])
        c.each(case, label)


def mech_transient_nonlinear(ctx, P):
    c = Case(ctx, P, "StructuralMechanicsTransientNonLinear")
    if not c.f:
        return
    stepping = c.enum("espreso::NonLinearSolverConfiguration::STEPPINGG")
    dep = {"dirichlet": "t", "f": "t", "K": "s", "R": "s", "M": "", "C": ""}
    courses = [((1, 0), "1 iteration per step", lambda i: 0), ((1, 0), "2 iterations per step", lambda i: 1), ((1, 1), "2 iterations per step, both residuals", lambda i: 1),
               ((0, 1), "2 iterations per step, second residual", lambda i: 1), ((0, 0), "no check", lambda i: 0), ((1, 0), "no convergence", lambda i: 9)]
    todo = [(p, dur, co, r) for p in [None] + MECH for dur in DURATIONS[:2] for co in courses for r in ((), 1) if (p is None or (co is courses[1])) and (not r or (p is None and co is courses[1] and dur[1] == 3))]
    for p, (dl, dn), (chk, cl, nit), r in todo:
        label = "%s%s, %s%s" % (dl, ", after " + p if p else "", cl, ", restarted step" if r else "")

        def case():
            dt = Fr(7, 31)
            req1, req2 = Fr(1, 1000), Fr(1, 2000)
            maxit = 4
            restart = {6: True} if r else {}
            course = {}
            per = nit(0) + 2            # predictor and corrections of one step

            def norm(dr, nm, kk, args):
                if nm == "rhs":
                    i = (dr.nsolve - 1) % per
                    return 11 * req2 * (Fr(101, 100) if i <= nit(0) else Fr(99, 100))
                b = dr.tab.back[kk]
                x = [y[1] for y in b if y[0] == "x"]
                if len(b) == 1 and x:
                    i = x[0] % per
                    if i == 0:
                        return Fr(10)
                    return 10 * req1 * (Fr(101, 100) if i <= nit(0) else Fr(99, 100))
                return Fr(10)
            pre = CFG + "transient_solver."
            vals = {pre + "time_step": dt, CFG + "duration_time": dn * dt, CFG + "nonlinear_solver.check_first_residual": chk[0], CFG + "nonlinear_solver.check_second_residual": chk[1],
                    CFG + "nonlinear_solver.requested_first_residual": req1, CFG + "nonlinear_solver.requested_second_residual": req2, CFG + "nonlinear_solver.max_iterations": maxit,
                    CFG + "nonlinear_solver.substeps": 1}
            sc = c.scenario(vals, prev=p, depends=dep, norm=norm, restart=dict(restart), checkpoint=bool(r))
            d = c.drive(sc)
            if d is None:
                ctx.count("scenarios refused by the driver")
                if p in (None, c.cls):
                    ctx.violate("R01:%s:refused" % c.cls, "%s:%s" % (c.f.f, c.f.l), "%s::run, %s: the scenario is refused" % (c.cls, label))
                return
            R = sc["random"]
            s = Spec(d.tab, dep)
            nd = R(pre + "numerical_damping")
            be, ga, am, af = R(pre + "alpha") * (1 + nd) ** 2, R(pre + "delta") + nd, R(pre + "alphaM"), R(pre + "alphaF")
            dK, dM = R(pre + "damping.rayleigh.direct_damping.stiffness.evaluator()"), R(pre + "damping.rayleigh.direct_damping.mass.evaluator()")
            start = R("prev.time.final") if p else Fr(0)
            U = one(("previous load step", "s")) if p else {}
            V = (one(("previous load step", "v")) if p == c.cls else {}) if p else one(("InitialVelocity",))
            A = one(("previous load step", "a")) if p == c.cls else {}
            if p:
                s.passed(U)
            M = s.base("M", start)
            C = lc((dK, s.base("K", start)), (dM, M))
            f_old = s.base("f", start)
            vel = lambda dU: lc((ga / (be * dt), dU), (1 - ga / be, V), (-dt / 2 * (ga / be - 2), A))
            acc = lambda dU: lc((1 / (be * dt * dt), dU), (-1 / (be * dt), V), (1 - 1 / (2 * be), A))
            i, ok = 0, True
            again = set(restart)
            while ok and i < steps(dn * dt, dt):
                t = start + (i + 1) * dt
                f, R_old = s.base("f", t), s.base("R", t)
                Un = U
                Ks = lambda: lc((1 - af, s.base("K", t)), (af * 0, M), ((1 - am) / (be * dt * dt), M), ((1 - af) * ga / (be * dt), C))

                def rhs(Un):
                    du = lc((1, Un), (-1, U))
                    return lc((1 - af, f), (af, f_old), (af - 1, s.base("R", t)), (-af, R_old), (-1, mul(C, lc((1 - af, vel(du)), (af, V)))), (-1, mul(M, lc((1 - am, acc(du)), (am, A)))))
                x = s.solve(Ks(), rhs(Un), lc((1, s.base("dirichlet", t)), (-1, Un)), t)
                Un = lc((1, U), (1, x))
                s.passed(Un)
                ok = False
                for it in range(maxit):
                    x = s.solve(Ks(), rhs(Un), lc((1, s.base("dirichlet", t)), (-1, Un)), t)
                    Un = lc((1, Un), (1, x))
                    s.passed(Un)
                    if it >= nit(0) or chk == (0, 0):
                        ok = True
                        break
                if s.k in again:
                    again.discard(s.k)
                    s.passed(U)
                    continue
                du = lc((1, Un), (-1, U))
                U, V, A = Un, vel(du), acc(du)
                f_old = f
                s.output(t, i, velocity=V, acceleration=A)
                i += 1
            c.compare(d, s, ok, label)
        c.each(case, label)


def steady(ctx, P, cls):
    c = Case(ctx, P, cls)
    if not c.f:
        return
    dep = {"dirichlet": "t"}
    for p in [None] + (HEAT if cls in HEAT else MECH):
        for fail in ((), (0,)):
            label = "%s%s" % ("after " + p if p else "first load step", ", failing solver" if fail else "")

            def case():
                dur = Fr(5, 3)
                sc = c.scenario({CFG + "duration_time": dur}, prev=p, depends=dep, fails=fail)
                d = c.drive(sc)
                if d is None:
                    ctx.count("scenarios refused by the driver")
                    if p is None:
                        ctx.violate("R01:%s:refused" % c.cls, "%s:%s" % (c.f.f, c.f.l), "%s::run, %s: the scenario is refused" % (c.cls, label))
                    return
                s = Spec(d.tab, dep)
                t = dur + (sc["random"]("prev.time.final") if p else 0)
                x = s.solve(s.base("K", t), s.base("f", t), s.base("dirichlet", t), t)
                s.passed(x)
                s.output(t, None)
                c.compare(d, s, not fail, label)
            c.each(case, label)


def newton_norm(req1, req2, course):
    """norms of the increments: course[k] True -> the k-th system meets the criteria"""
    def norm(dr, nm, kk, args):
        if nm == "rhs":
            return 11 * req2 * (Fr(99, 100) if course.get(dr.nsolve - 1) else Fr(101, 100))
        b = dr.tab.back[kk]
        x = [y[1] for y in b if y[0] == "x"]
        if len(b) == 1 and x and x[0] in course:
            return 10 * req1 * (Fr(99, 100) if course[x[0]] else Fr(101, 100))
        return Fr(10)
    return norm


def heat_nonlinear(ctx, P):
    c = Case(ctx, P, "HeatSteadyStateNonLinear")
    if not c.f:
        return
    dep = {"dirichlet": "t"}
    for p in [None] + HEAT:
        for n in (1, 2, 3, 9):
            label = "%s, %s" % ("after " + p if p else "first load step", "%d iterations" % n if n < 9 else "no convergence")

            def case():
                dur, req, maxit = Fr(5, 3), Fr(1, 1000), 4
                course = {i: i >= n for i in range(1, 12)}
                vals = {CFG + "duration_time": dur, CFG + "nonlinear_solver.check_first_residual": 1, CFG + "nonlinear_solver.check_second_residual": 0,
                        CFG + "nonlinear_solver.requested_first_residual": req, CFG + "nonlinear_solver.requested_second_residual": req, CFG + "nonlinear_solver.max_iterations": maxit,
                        CFG + "nonlinear_solver.substeps": 1}
                sc = c.scenario(vals, prev=p, depends=dep, norm=newton_norm(req, req, course))
                d = c.drive(sc)
                if d is None:
                    ctx.count("scenarios refused by the driver")
                    if p is None:
                        ctx.violate("R01:%s:refused" % c.cls, "%s:%s" % (c.f.f, c.f.l), "%s::run, %s: the scenario is refused" % (c.cls, label))
                    return
                if p:
                    raise Undecided("continuation after a previous load step")
                s = Spec(d.tab, dep)
                t = dur
                U = s.solve(s.base("K", t), s.base("f", t), s.base("dirichlet", t), t)
                s.passed(U)
                ok = False
                for it in range(maxit):
                    x = s.solve(s.base("K", t), lc((1, s.base("f", t)), (-1, s.base("R", t))), lc((1, s.base("dirichlet", t)), (-1, U)), t)
                    U = lc((1, U), (1, x))
                    s.passed(U)
                    if it + 1 >= n:
                        ok = True
                        break
                s.output(t, None)
                c.compare(d, s, ok, label)
            c.each(case, label)


def mech_nonlinear(ctx, P):
    c = Case(ctx, P, "StructuralMechanicsSteadyStateNonLinear")
    if not c.f:
        return
    dep = {"dirichlet": "t"}
    for p in [None] + MECH:
        for subs in (1, 3):
            for n, chk in ((0, (1, 0)), (1, (1, 0)), (1, (0, 1)), (1, (1, 1)), (9, (1, 0)), (0, (0, 0))):
                label = "%s, %d substeps, %s, residuals %d%d" % ("after " + p if p else "first load step", subs, "%d+1 iterations" % n if n < 9 else "no convergence", chk[0], chk[1])

                def case():
                    dur, req1, req2, maxit = Fr(5, 3), Fr(1, 1000), Fr(1, 2000), 4
                    per = n + 2
                    course = {i: i % per == per - 1 for i in range(0, 40) if i % per}
                    vals = {CFG + "duration_time": dur, CFG + "nonlinear_solver.check_first_residual": chk[0], CFG + "nonlinear_solver.check_second_residual": chk[1],
                            CFG + "nonlinear_solver.requested_first_residual": req1, CFG + "nonlinear_solver.requested_second_residual": req2, CFG + "nonlinear_solver.max_iterations": maxit,
                            CFG + "nonlinear_solver.substeps": subs}
                    sc = c.scenario(vals, prev=p, depends=dep, norm=newton_norm(req1, req2, course))
                    d = c.drive(sc)
                    if d is None:
                        ctx.count("scenarios refused by the driver")
                        if p in (None, c.cls):
                            ctx.violate("R01:%s:refused" % c.cls, "%s:%s" % (c.f.f, c.f.l), "%s::run, %s: the scenario is refused" % (c.cls, label))
                        return
                    s = Spec(d.tab, dep)
                    start = sc["random"]("prev.time.final") if p else Fr(0)
                    U = one(("previous load step", "s")) if p else {}
                    if p:
                        s.passed(U)
                    ok = True
                    for sub in range(subs):
                        t = start + dur * (sub + 1) / subs
                        ok = False
                        for it in range(maxit + 1):
                            x = s.solve(s.base("K", t), lc((1, s.base("f", t)), (-1, s.base("R", t))), lc((1, s.base("dirichlet", t)), (-1, U)), t)
                            U = lc((1, U), (1, x))
                            s.passed(U)
                            if it and (it > n or chk == (0, 0)):
                                ok = True
                                break
                        s.output(t, sub)
                        if not ok:
                            break
                    c.compare(d, s, ok, label)
                c.each(case, label)


def harmonic(ctx, P):
    c = Case(ctx, P, "StructuralMechanicsHarmonicRealLinear")
    if not c.f:
        return
    dep = {"dirichlet": "t", "re.dirichlet": "t", "im.dirichlet": "t"}
    from timeint import lit
    for dim in (2, 3):
        for n in (1, 3):
            for fail in ((), (1,)):
                if fail and n == 1:
                    continue
                label = "%d samples in %dD%s" % (n, dim, ", failing solver" if fail else "")

                def case():
                    lo, hi = Fr(7, 3), Fr(29, 3)
                    pre = CFG + "harmonic_solver."
                    sc = c.scenario({pre + "num_samples": n, pre + "min_frequency": lo, pre + "max_frequency": hi, "g.info::mesh.dimension": dim}, depends=dep, clock="frequency", fails=fail)
                    d = c.drive(sc)
                    if d is None:
                        ctx.count("scenarios refused by the driver")
                        return
                    two_pi = 2 * lit("3.14159265358979323846")
                    s = Spec(d.tab, dep)
                    sels = [(("sel", 0, dim, 2 * dim),), (("sel", dim, dim, 2 * dim),)]
                    tag = lambda v, q: {("sel", q, b): x for b, x in v.items()}
                    ok = True
                    for i in range(n):
                        fr = lo + i * (hi - lo) / n
                        w = two_pi * fr
                        KM = lc((1, s.base("K", fr)), (-w * w, s.base("M", fr)))
                        A = lc(*[(1, tag(KM, q * 2)) for q in sels])
                        b = lc(*[(1, tag(s.base(r, fr), q)) for r, q in zip(("ref", "imf"), sels)])
                        D = lc(*[(1, tag(s.base(r, fr), q)) for r, q in zip(("re.dirichlet", "im.dirichlet"), sels)])
                        x = s.solve(A, b, D, fr)
                        s.passed(*[{("part", q, bb): v for bb, v in x.items()} for q in sels])
                        s.output(fr, i)
                        if i in fail:
                            ok = False
                            break
                    c.compare(d, s, ok, label)
                c.each(case, label)


def run(ctx):
    P = ctx.program(PH + "*.cpp")
    for cls in ("HeatSteadyStateLinear", "StructuralMechanicsSteadyStateLinear"):
        steady(ctx, P, cls)
        ctx.oblige(cls)
    for fn, name in ((heat_nonlinear, "HeatSteadyStateNonLinear"), (heat_transient, "HeatTransientLinear"), (mech_nonlinear, "StructuralMechanicsSteadyStateNonLinear"),
                     (mech_transient, "StructuralMechanicsTransientLinear"), (mech_transient_nonlinear, "StructuralMechanicsTransientNonLinear"),
                     (harmonic, "StructuralMechanicsHarmonicRealLinear")):
        fn(ctx, P)
        ctx.oblige(name)
