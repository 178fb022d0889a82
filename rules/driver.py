"""Set-up of the assembler (HeatTransfer / StructuralMechanics): the settings of the user reach their operators.

analyze(), connect() and evaluate() are executed symbolically (symx) in enumerated settings.  Each operator has to
be activated with the expression of its own setting for its own interval, region or set of nodes.
"""
import hashlib
import re
import symx
from symx import show, subterms, fold, Z

TUS = ["src/analysis/assembler/heattransfer.cpp", "src/analysis/assembler/structuralmechanics.cpp", "src/analysis/assembler/assembler.cpp"]
NOISE = ("espreso::eslog", "espreso::Assembler::check", "espreso::Assembler::printE", "espreso::Assembler::printM", "espreso::Assembler::printP", "espreso::Assembler::validate", "std::operator", "espreso::Assembler::isBEM")
ROOT = re.compile(r"(?<![\w.\]])(configuration|settings|[A-Za-z]+::Results|info::mesh)\b")


def enums(P, q):
    e = P.enums.get("espreso::" + q)
    return {n: v for n, v in e["c"]} if e else {}


class Case:
    """one path through a function"""

    def __init__(self, path, kernels):
        self.path = path
        self.acts = {}
        for i, e in enumerate(path.events):
            if e[0] == "activate" and e[1][0] == "m":
                self.acts.setdefault((owner(e[1][1]), e[1][2]), []).append((i, e))

    def truth(self, text, default=None):
        for t, v in self.path.decisions.items():
            if show(t) == text:
                return v
        return default


def owner(t):
    """elementKernels / faceKernels / nodeKernels"""
    while t[0] in ("idx", "each", "m") and t[1] != ("this",):
        t = t[1]
    return t[2] if t[0] == "m" else show(t)


def indices(t):
    """index terms of a kernel"""
    r = []
    while t[0] in ("idx", "each"):
        r.insert(0, t[2] if t[0] == "idx" else t)
        t = t[1]
    return r


def norm(s):
    return s.replace("boundaryRegions", "boundary").replace("HeatTransfer::Results", "Results").replace("StructuralMechanics::Results", "Results")


def named(e, repl):
    """printed term with the indices named"""
    s = norm(show(e))
    for a, b in repl:
        s = s.replace(a, b)
    return s


def atoms(s):
    """the settings, results and mesh data mentioned by a printed term"""
    return set(re.findall(r"(?:configuration|settings|Results|info)[\w.:]*|\.\w+|\$\w+", s))


ELEM = "info::mesh.elements.eintervals[$i]"
MAT = "info::mesh.materials[%s.material]" % ELEM
ENODES = ["(begin(info::mesh.elements.nodes) + %s.begin)" % ELEM, "(begin(info::mesh.elements.nodes) + %s.end)" % ELEM]
REG = "info::mesh.boundary[$r]"
FNODES = ["(begin(%s.elements) + %s.eintervals[$i].begin)" % (REG, REG), "(begin(%s.elements) + %s.eintervals[$i].end)" % (REG, REG)]
ANY = None


def expr_i(m):
    return "getExpression($i, %s)" % m


def expr_r(m):
    return "getExpression(%s.name, %s)" % (REG, m)


def data(x):
    return "data(Results::%s.data)" % x


def value(x, v):
    return x.value(v)


class Driver:
    def __init__(self, ctx, P, cls):
        self.ctx, self.P, self.cls = ctx, P, cls
        self.heat = cls == "HeatTransfer"
        self.seen = {}
        self.oks = set()

    def fn(self, name, nparams=None, sig=None):
        r = [f for f in self.P.functions if f.q == "espreso::%s::%s" % (self.cls, name) and f.b and f.tm != "pat"]
        if sig:
            r = [f for f in r if sig(f)]
        return r

    def exe(self, values):
        return symx.Exec(self.P, values, events={"activate", "assemble", "reset", "update", "isactive", "storeTo", "setFrom", "allReduce"}, leaves={"getExpression", "appendData", "getTime", "getSubstep", "getFrequency", "isConst", "size"},
                         noise=NOISE, inline=lambda f: f.f.startswith("src/analysis/assembler/"))

    def violate(self, key, line, msg, f):
        self.ctx.violate("%s:%s" % (self.cls, key), "%s:%s" % (f.f, line), "%s: %s" % (self.cls, msg))

    # ------------------------------------------------------------------ analyze
    def scenarios(self):
        ls, co = enums(self.P, "LoadStepSolverConfiguration::TYPE"), enums(self.P, "CoordinateSystemConfiguration::TYPE")
        mode = enums(self.P, "LoadStepSolverConfiguration::MODE")
        tc, beh = enums(self.P, "ThermalConductivityConfiguration::MODEL"), enums(self.P, "StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR")
        if not ls or not mode or not co or (self.heat and not tc) or not (self.heat or beh):
            raise symx.Undecided("enumerations of the settings")
        out = []
        n = 0
        for dim in (2, 3):
            for ty in ls:
                if self.heat and ty == "HARMONIC":
                    continue
                for a in (tc if self.heat else beh):
                    for md in mode:
                        for k in range(4):
                            out.append(dict(dim=dim, type=ty, mode=md, var=a, rot=k & 1, sel=k >> 1, cs=list(co)[n % len(co)], n=n,
                                            v={"info::mesh.dimension": dim, "configuration.type": ls[ty], "configuration.mode": mode[md], "settings.element_behaviour": None if self.heat else beh[a],
                                               "configuration.corotation": k & 1}, cst=co[list(co)[n % len(co)]], cart=co.get("CARTESIAN"), tcm=tc.get(a)))
                            n += 1
        return out

    def run_analyze(self):
        fs = self.fn("analyze")
        if not fs:
            raise symx.Undecided("analyze")
        f = fs[0]
        scs = self.scenarios()
        self.activated = set()
        never = {}
        for s in scs:
            def values(t, s=s):
                if t in s["v"]:
                    return s["v"][t]
                if t.endswith(".thermal_conductivity.model"):
                    return s["tcm"]
                if t.endswith(".coordinate_system.type"):
                    return s["cst"]
                if t.endswith(".conductivity.rotated"):
                    return int(s["rot"] and s["var"] != "ISOTROPIC")
                return None

            def choose(t, s=s):
                w = show(t)
                if w.endswith("].dimension"):
                    return s["n"] % 16 != 5      # regions of nodes have no faces
                if w.endswith(".isactive"):
                    return s["n"] % 4 == 0 or w.endswith((".heatFlow.isactive", ".heatFlux.isactive", ".htc.isactive")[s["n"] % 3])
                if ".convection" in w and s["n"] % 3 == 2:
                    return True
                if "results_selection" in w:
                    return bool(s["sel"])
                if "Results::" in w:
                    return bool(s["n"] >> 3 & 1) and bool(s["sel"])   # in the second load step the data exist
                if s["n"] % 4 == 0:
                    return True
                return hashlib.md5(("%d %s" % (s["n"], w)).encode()).digest()[0] & 1 == 1
            x = self.exe(values)
            p = x.sample(f, choose)
            self.ctx.count("settings_of_analyze")
            self.check_analyze(f, s, x, p)
            for k, (want, cond) in self.spec(s)[0].items():
                if isinstance(cond, str) and cond not in ("may", "must"):
                    never[k] = cond
        for k, cond in never.items():
            if k not in self.activated:
                self.violate("%s.%s:missing" % k, f.l, "operator %s.%s is never activated (%s)" % (k + (cond,)), f)

    def spec(self, s):
        """(kernels, operator) -> (arguments, condition); the condition None: whenever the setting is given"""
        d = s["dim"]
        E, F, N = "elementKernels", "faceKernels", "nodeKernels"
        nl = int(s["mode"] == "NONLINEAR" and not s["v"]["configuration.corotation"])
        beh = "%s" % s["v"]["settings.element_behaviour"]
        if self.heat:
            model = s["tcm"]
            if s["rot"] and s["var"] == "DIAGONAL":
                model = enums(self.P, "ThermalConductivityConfiguration::MODEL")["SYMMETRIC"]
            return {
                (E, "thickness"): ([expr_i("settings.thickness")] + ENODES + [data("thickness")], d == 2),
                (E, "material"): ([MAT], True),
                (E, "conductivity"): ([MAT + ".thermal_conductivity", MAT + ".coordinate_system"], True),
                (E, "heatSource"): ([expr_i("configuration.heat_source")], None),
                (E, "advection"): ([expr_i("configuration.translation_motions"), "settings.sigma"], None),
                (E, "coordinates"): (ENODES + [ANY], True),
                (E, "K"): ([str(model)], True),
                (E, "M"): ([], "must" if s["type"] == "TRANSIENT" else "may"),
                (E, "gradient"): (["$i", "Results::gradient"], "Results::gradient"),
                (E, "flux"): (["$i", "Results::flux", str(model)], "Results::flux"),
                (E, "initTemperature"): ([expr_i("settings.initial_temperature")], None),
                (E, "temperature"): (ENODES + [data("temperature"), ANY], True),
                (F, "thickness"): (FNODES + [data("thickness")], d == 2),
                (F, "heatFlow"): ([expr_r("configuration.heat_flow")], None),
                (F, "heatFlux"): ([expr_r("configuration.heat_flux")], None),
                (F, "htc"): (["configuration.convection[%s.name].second.heat_transfer_coefficient" % REG], "has(configuration.convection, %s.name)" % REG),
                (F, "externalTemperature"): (["configuration.convection[%s.name].second.external_temperature" % REG], "has(configuration.convection, %s.name)" % REG),
                (F, "coordinates"): (FNODES + [ANY], True),
                (N, "coordinates"): (["cbegin(%s.nodes, $t)" % REG, ANY, ANY], True),
                (N, "temperature"): (["configuration.temperature[].second"], None),
                (N, "initialTemperature"): (["cbegin(%s.nodes, $t)" % REG, ANY, data("temperature")], "settings.init_temp_respect_bc"),
            }, {
                (E, "coordinates", 2): ("needCoordinates", ["conductivity", "material", "heatSource", "advection"], s["cst"] != s["cart"]),
                (E, "temperature", 3): ("needTemperature", ["conductivity", "material", "heatSource", "advection"], False),
                (F, "coordinates", 2): ("needCoordinates", ["heatFlow", "heatFlux", "htc", "externalTemperature"], False),
            }
        return {
            (E, "thickness"): ([expr_i("settings.thickness")] + ENODES + [data("thickness")], d == 2),
            (E, "material"): ([MAT, beh, str(nl), "$i"], True),
            (E, "acceleration"): ([expr_i("configuration.acceleration"), beh], None),
            (E, "angularVelocity"): ([expr_i("configuration.angular_velocity"), beh], None),
            (E, "coordinates"): (ENODES + [ANY], True),
            (E, "displacement"): (ENODES + [data("displacement")], "Results::displacement" if s["type"] == "HARMONIC" else True),
            (E, "matrixElasticity"): ([beh, str(nl)], True),
            (E, "matrixCorotation"): ([], "must" if s["v"]["configuration.corotation"] else False),
            (E, "M"): ([], "must" if s["type"] != "STEADY_STATE" else "may"),
            (E, "stress"): (ENODES + ["$i", "data(nodeMultiplicity)"], "Results::principalStress"),
            (E, "initVelocity"): ([expr_i("settings.initial_velocity")], None),
            (E, "velocity"): (ENODES + [data("initialVelocity")], True),
            (F, "thickness"): (FNODES + [data("thickness")], d == 2),
            (F, "normalPressure"): ([expr_r("configuration.normal_pressure"), beh], None),
            (F, "displacement"): (FNODES + [data("displacement")], "Results::displacement" if s["type"] == "HARMONIC" else True),
            (F, "pressure"): (["configuration.pressure[%s.name].second.pressure" % REG, "configuration.pressure[%s.name].second.direction" % REG, beh], "has(configuration.pressure, %s.name)" % REG),
            (F, "coordinates"): (FNODES + [ANY], True),
            (N, "force"): ([expr_r("configuration.force")], None),
            (N, "harmonicForce"): ([expr_r("configuration.harmonic_force"), beh], None),
            (N, "coordinates"): (["cbegin(%s.nodes, $t)" % REG, ANY, ANY], True),
            (N, "displacement"): (["configuration.displacement[].second"], None),
        }, {
            (E, "coordinates", 2): ("needCoordinates", ["material", "acceleration", "angularVelocity"], s["cst"] != s["cart"] or s["var"] == "AXISYMMETRIC" and d == 2),
            (F, "coordinates", 2): ("needCoordinates", ["normalPressure", "pressure"], s["var"] == "AXISYMMETRIC" and d == 2),
        }

    def naming(self, kern, e):
        """names of the indices of an operator; None when the operator does not belong to a loop over all intervals"""
        ix = indices(e[1][1])
        if kern == "elementKernels":
            if len(ix) != 1 or ix[0][0] != "iter":
                return None
            return [(norm(show(ix[0])), "$i")]
        if len(ix) != 2:
            return None
        r, i = norm(show(ix[0])), norm(show(ix[1]))
        return [(i, "$i" if kern == "faceKernels" else "$t"), (r, "$r")] if len(i) > len(r) else [(r, "$r"), (i.replace(r, "$r"), "$i" if kern == "faceKernels" else "$t")]

    def full(self, kern, e, f):
        """the loops cover all intervals"""
        for k, x in enumerate(indices(e[1][1])):
            if x[0] == "iter" and x[1][0] == "c" and x[3] in ("<", "<=", "!="):
                want = 1 if k == 0 and kern != "elementKernels" else 0
                if x[1][1] > want:
                    self.violate("%s.%s:first" % (kern, e[1][2]), e[3], "%s.%s: the first %d intervals or regions are skipped" % (kern, e[1][2], x[1][1] - want), e[4])
                hi = norm(show(x[2]))
                if x[2][0] == "op" and x[2][1] == "-" and x[2][3][0] == "c":
                    self.violate("%s.%s:last" % (kern, e[1][2]), e[3], "%s.%s: the loop ends before the last one (%s)" % (kern, e[1][2], hi), e[4])

    def check_analyze(self, f, s, x, p):
        ctx = self.ctx
        spec, flags = self.spec(s)
        c = Case(p, None)
        self.activated.update(c.acts)
        pre = next((i for i, e in enumerate(p.events) if e[0] == "assemble"), len(p.events))
        decided = {norm(show(t)): v for t, v in p.decisions.items()}
        desc = "%dD, %s, %s, %s" % (s["dim"], s["type"].lower().replace("_", " "), s["mode"].lower(), s["var"].lower().replace("_", " "))
        for (kern, op), (want, cond) in spec.items():
            evs = c.acts.get((kern, op), [])
            ctx.oblige("operator %s.%s" % (kern, op))
            # presence
            if not evs:
                if self.skipped(kern, decided):
                    continue
                if cond is True or cond == "must":
                    self.violate("%s.%s:missing" % (kern, op), f.l, "operator %s.%s is not activated (%s)" % (kern, op, desc), f)
                elif isinstance(cond, str) and cond not in ("may", "must"):
                    if decided.get(cond) is True:
                        self.violate("%s.%s:missing" % (kern, op), f.l, "operator %s.%s is not activated although %s (%s)" % (kern, op, cond, desc), f)
                elif cond is None:
                    roots = set(re.findall(r"(?:configuration|settings)\.(\w+)", want[0]))
                    if not any(v is False and roots & set(re.findall(r"\.(\w+)", t)) for t, v in decided.items()):
                        self.violate("%s.%s:missing" % (kern, op), f.l, "operator %s.%s does not get the setting %s (%s)" % (kern, op, ", ".join(roots), desc), f)
                continue
            if isinstance(cond, str) and cond.startswith("settings.") and decided.get(cond) is False:
                self.violate("%s.%s:extra" % (kern, op), evs[0][1][3], "operator %s.%s is activated although %s is off" % (kern, op, cond), evs[0][1][4])
                continue
            if cond is False or isinstance(cond, str) and cond.startswith("Results::") and not decided.get(cond) and not self.allocated(p, cond) and not self.selected(decided, cond):
                self.violate("%s.%s:extra" % (kern, op), evs[0][1][3], "operator %s.%s is activated, but its data do not exist (%s)" % (kern, op, desc), evs[0][1][4])
                continue
            ok = False
            why = None
            for i, e in evs:
                if i > pre:
                    self.violate("%s.%s:late" % (kern, op), e[3], "operator %s.%s is activated after the values were evaluated" % (kern, op), e[4])
                nm = self.naming(kern, e)
                if nm is None:
                    continue
                self.full(kern, e, f)
                bad = self.compare(x, e, nm, want, (kern, op))
                ok = ok or not bad
                why = why or bad
            if why and not ok:
                i, a, w, e = why
                self.violate("%s.%s:argument %d" % (kern, op, i), e[3], "operator %s.%s is activated with %s instead of %s (%s)" % (kern, op, a, w, desc), e[4])
        if self.heat and not self.skipped("faceKernels", decided) and any(t.endswith(".isactive") for t in decided):
            one = ("heatFlow", "heatFlux", "htc")[s["n"] % 3]
            ctx.oblige("external heat")
            if not c.acts.get(("faceKernels", "externalHeat")) and c.acts.get(("faceKernels", one)):
                self.violate("externalHeat:%s" % one, f.l, "the external heat is not assembled although %s is active" % one, f)
        # values of coordinates and temperature in Gauss points
        for (kern, op, n), (flag, ops, other) in flags.items():
            for i, e in c.acts.get((kern, op), []):
                if len(e[2]) <= n:
                    continue
                ctx.oblige("needs of %s" % kern)
                for o in ops + ([None] if other else []):
                    if o and any(v is False and t.endswith(".%s.%s" % (o, flag)) for t, v in decided.items()):
                        continue        # this path belongs to operators that do not need it
                    own = set(re.findall(r"(?:configuration|settings)\.\w+", spec[kern, o][0][0])) if o and (kern, o) in spec and spec[kern, o][1] is None else ()

                    def true(t, o=o, own=own):
                        w = show(t)     # an active operator has its expression
                        return bool(o) and (w.endswith(".%s.%s" % (o, flag)) or t[0] == "call" and t[1] == "getExpression" and any(y in w for y in own))
                    r = self.holds(x, e[2][n], true)
                    if r is False:
                        self.violate("%s.%s:%s" % (kern, op, o), e[3], "%s.%s: %s" % (kern, op, "%s of Gauss points are not computed for %s that depends on them (%s)" % (
                            {"needCoordinates": "coordinates", "needTemperature": "temperatures"}[flag], o, desc) if o else "coordinates of Gauss points are not computed (%s, %s coordinate system)" % (desc, s["cs"].lower())), e[4])
        for loc, n, fn in p.flags:
            o = (owner(loc[1]), loc[1][2]) if loc[1][0] == "m" else None
            if o in c.acts and o in spec and c.acts[o][0][0] >= n and spec[o][1] in (True, None):
                self.violate("%s.%s:early" % o, c.acts[o][0][1][3], "%s of %s.%s is read before the operator is activated" % ((loc[2],) + o), fn)
        # the area of boundary regions
        if self.heat:
            ar = [(i, e) for i, e in enumerate(p.events) if e[0] == "set" and e[1][0] == "m" and e[1][2] == "area" and owner(e[1]) == "faceKernels"]
            if not ar:
                self.violate("externalHeat.area", f.l, "the area of regions is not set for heat flows", f)
            for i, e in ar:
                ctx.oblige("areas of regions")
                v = x.value(e[2][0])
                if i < pre:
                    self.violate("externalHeat.area:early", e[3], "the area of regions is set before it is computed", e[4])
                if v[0] == "m" and v[2] == "surface" and owner(v) == "faceKernels":
                    self.violate("externalHeat.area:interval", e[3], "heat flows are divided by the area of an interval instead of the whole region", e[4])
                if not any(y[0] == "allReduce" and pre < j < i for j, y in enumerate(p.events)):
                    self.violate("externalHeat.area:process", e[3], "heat flows are divided by the area of the part of the region that belongs to a process", e[4])
            it = [i for i, e in enumerate(p.events) if e[0] == "set" and norm(show(e[1])) == "Results::initialTemperature.data"]
            if not any(i > pre for i in it):
                self.violate("initialTemperature", f.l, "the initial temperature is not stored after it was evaluated", f)

    def selected(self, decided, cond):
        """the path depends on the pointer in another way"""
        return cond not in decided and any(re.search(re.escape(cond) + r"\b", t) for t in decided)

    def allocated(self, p, cond):
        return any(e[0] == "set" and norm(show(e[1])) == cond for e in p.events)

    def skipped(self, kern, decided):
        """regions without faces, empty maps"""
        return kern == "faceKernels" and any(t.endswith(".dimension") and v is False for t, v in decided.items())

    def compare(self, x, e, nm, want, name):
        a = e[2]
        for i, w in enumerate(want):
            if w is ANY:
                continue
            if i >= len(a):
                return None
            got = named(x.value(a[i]), nm)
            if w.endswith("[].second"):
                m = re.match(r"each\((.*)\)\.second$", got) or re.match(r"(.*)\[.*\]\.second$", got)
                if m and m.group(1) == w[:-len("[].second")]:
                    continue
                if atoms(got) >= atoms(w.replace("[]", "")):
                    continue
                return i, got, w[:-len("[].second")], e
            if got == w:
                self.oks.add(name + (i,))
                continue
            if re.match(r"-?\d+$", w) and not re.match(r"-?\d+$", got):
                continue            # not a constant here: undecided
            if atoms(got) == atoms(w) and not re.match(r"-?\d+$", w):
                continue
            if re.match(r"^[$\w.\[\]:()+, ]*$", got) is None:
                continue
            return i, got, w, e
        return None

    def holds(self, x, t, true):
        """value of a condition when one flag is set and all others are not"""
        t = x.value(t)
        if t[0] == "c":
            return bool(t[1])
        if t[0] == "op":
            if t[1] == "!":
                r = self.holds(x, t[2], true)
                return None if r is None else not r
            if t[1] in ("||", "|"):
                r = [self.holds(x, y, true) for y in t[2:]]
                return True if True in r else None if None in r else False
            if t[1] in ("&&", "&"):
                r = [self.holds(x, y, true) for y in t[2:]]
                return False if False in r else None if None in r else True
            if t[1] == "!=" and t[3] == Z:
                return self.holds(x, t[2], true)
            return None
        if true(t):
            return True
        if t[0] == "m" and t[2] in symx.FLAGS or t[0] == "call" and t[1] in ("needCoordinates", "needTemperature", "getExpression"):
            return False
        return None

    # ------------------------------------------------------------------ connect
    FILL = {
        "HeatTransfer": [({"K": "K", "M": "M", "f": "f", "nf": "nf", "dirichlet": "dirichlet"}, {
            ("elementKernels", "Kfiller"): ("K", 0), ("elementKernels", "Mfiller"): ("M", 0), ("elementKernels", "RHSfiller"): ("f", 0), ("elementKernels", "nRHSfiller"): ("nf", 0),
            ("faceKernels", "RHSfiller"): ("f", 0), ("nodeKernels", "dirichlet"): ("dirichlet", "temperature")}, ["K", "M", "f", "nf", "dirichlet"])],
        "StructuralMechanics": [
            (None, {("elementKernels", "Kfiller"): ("K", 0), ("elementKernels", "Mfiller"): ("M", 0), ("elementKernels", "reRHSfiller"): ("f", 0), ("elementKernels", "reNRHSfiller"): ("nf", 0),
                    ("faceKernels", "reRHSfiller"): ("f", 0), ("nodeKernels", "reRHSfiller"): ("f", 0), ("nodeKernels", "reDirichlet"): ("dirichlet", "displacement")}, ["K", "M", "f", "nf", "dirichlet"]),
            (None, {("elementKernels", "Kfiller"): ("K", 0), ("elementKernels", "Mfiller"): ("M", 0), ("elementKernels", "Cfiller"): ("C", 0),
                    ("elementKernels", "reRHSfiller"): ("ref", 0), ("elementKernels", "imRHSfiller"): ("imf", 0), ("elementKernels", "reNRHSfiller"): ("renf", 0), ("elementKernels", "imNRHSfiller"): ("imnf", 0),
                    ("faceKernels", "reRHSfiller"): ("ref", 0), ("faceKernels", "imRHSfiller"): ("imf", 0), ("nodeKernels", "reRHSfiller"): ("ref", 0), ("nodeKernels", "imRHSfiller"): ("imf", 0),
                    ("nodeKernels", "reDirichlet"): ("reDirichlet", "displacement")}, ["K", "M", "C", "ref", "imf", "renf", "imnf", "reDirichlet", "imDirichlet"])],
    }
    # connect and evaluate take their matrices and vectors in this order (the callers pass them by position)

    def variant(self, name, k):
        """overload for the system in time (0) or in frequencies (1), with its parameters named by position"""
        names = self.FILL[self.cls][k][2]
        for f in self.fn(name):
            q = [p for p in f.p if "Matrix_Base" in f.T[p["t"]] or "Vector_Base" in f.T[p["t"]]]
            mats = [p for p in q if "Matrix_Base" in f.T[p["t"]]]
            if (len(q) >= 9) != (k == 1) or len(q) < 5 and k == 0:
                continue
            args = []
            m = {p["id"]: n for p, n in zip(q, names)}
            for p in f.p:
                args.append(("p", m.get(p["id"], p.get("n") or "?")))
            return f, args
        raise symx.Undecided("%s of %s" % (name, self.cls))

    def run_connect(self):
        for k in range(len(self.FILL[self.cls])):
            f, args = self.variant("connect", k)
            fill = self.FILL[self.cls][k][1]
            for dim in (2, 3):
                for bem in (0, 1):
                    x = self.exe({"info::mesh.dimension": dim})
                    isbem = lambda t: "BEM" in show(t)
                    p = x.sample(f, lambda t: bool(bem) if isbem(t) else True, args=args)
                    self.ctx.count("settings_of_connect")
                    c = Case(p, None)
                    for (kern, op), (what, src) in fill.items():
                        self.ctx.oblige("fillers")
                        evs = c.acts.get((kern, op), [])
                        if not evs:
                            if not (bem and op in ("Kfiller", "Mfiller")):
                                self.violate("%s.%s:filler missing:%d" % (kern, op, k), f.l, "connect: %s.%s is not connected to %s" % (kern, op, what), f)
                            continue
                        for i, e in evs:
                            nm = self.naming(kern, e)
                            if nm is None:
                                continue
                            self.full(kern, e, f)
                            a = [named(x.value(y), nm) for y in e[2]]
                            if not a:
                                continue
                            n = 1 if kern == "elementKernels" else 2
                            tgt = e[2][-1]
                            if tgt[0] == "p" and tgt[1] in self.FILL[self.cls][k][2] and tgt[1] != what:
                                self.violate("%s.%s:target:%d" % (kern, op, k), e[3], "connect: %s.%s fills %s instead of %s" % (kern, op, tgt[1], what), e[4])
                            dofs = a[n]
                            if re.match(r"\d+$", dofs) and dofs != str(1 if self.heat else dim):
                                self.violate("%s.%s:dofs:%d" % (kern, op, k), e[3], "connect: %s.%s fills %s unknowns for each node in %dD" % (kern, op, dofs, dim), e[4])
                            ids = a[:n]
                            want = ["$i"] if n == 1 else ["$r", "$i" if kern == "faceKernels" else "$t"]
                            if ids != want and all(y.startswith("$") or re.match(r"\d+$", y) for y in ids):
                                self.violate("%s.%s:interval:%d" % (kern, op, k), e[3], "connect: %s.%s fills the positions of interval %s instead of its own" % (kern, op, ids), e[4])
                            if src:
                                r = indices(e[1][1])[0]
                                maps = re.findall(r"configuration\.(\w+)", show(r))
                                if maps and set(maps) != {src}:
                                    self.violate("%s.%s:region:%d" % (kern, op, k), e[3], "connect: %s.%s is connected for the regions of %s" % (kern, op, maps[0]), e[4])
                    if k == 0 and not bem:
                        self.constants(f, args, dim)

    LISTS = {"K": ["elementKernels.node", "elementKernels.gp"], "M": ["elementKernels.node", "elementKernels.gp"], "f": ["elementKernels.node", "elementKernels.gp", "faceKernels.node", "faceKernels.gp"],
             "nf": None, "dirichlet": ["nodeKernels.node"]}

    def constants(self, f, args, dim):
        """a matrix or vector is assembled only once if nothing it depends on changes"""
        mode = enums(self.P, "LoadStepSolverConfiguration::MODE")

        def isconst(t, false):
            """value of isConst() when only the expressions of one list change"""
            w = show(t)
            if any(y[0] == "idx" and y[2][0] == "c" and y[1][0] == "m" and y[1][2] in ("node", "gp") for y in subterms(t)):
                return True         # one expression only
            return not (false and owner(t[2][0]) == false[0] and (".%s[" % false[1] in w or "expressions.%s)" % false[1] in w))

        def ev(t, false):
            if t[0] == "c":
                return bool(t[1])
            if t[0] == "op" and len(t) == 4 and t[1] in ("&", "&&"):
                return ev(t[2], false) and ev(t[3], false)
            if t[0] == "op" and len(t) == 4 and t[1] in ("|", "||"):
                return ev(t[2], false) or ev(t[3], false)
            if t[0] == "op" and t[1] == "!":
                return not ev(t[2], false)
            if t[0] == "op" and len(t) == 4 and t[1] in ("==", "!=") and Z in t[2:]:
                return ev(t[2] if t[3] == Z else t[3], false) == (t[1] == "!=")
            if t[0] == "call" and t[1] == "isConst":
                return isconst(t, false)
            return True

        def final(false, md):
            x = self.exe({"info::mesh.dimension": dim, "configuration.mode": mode[md]})
            p = x.sample(f, lambda t: False if "BEM" in show(t) else ev(t, false), args=args)
            return {n: ev(p.final[("m", ("p", n), "constant")], false) for n in self.LISTS if ("m", ("p", n), "constant") in p.final}
        fixed = final(None, "NONLINEAR")
        if fixed.get("nf"):
            self.violate("constant:nf", f.l, "connect: nf is assembled only once, but it depends on the solution", f)
        if fixed.get("K"):
            self.violate("constant:K:mode", f.l, "connect: K is assembled only once in the non-linear mode", f)
        for l in sorted({l for v in self.LISTS.values() if v for l in v}):
            r = final(tuple(l.split(".")), "LINEAR")
            for name, lists in self.LISTS.items():
                if lists and name in r:
                    self.ctx.oblige("constant matrices and vectors")
                if lists and l in lists and r.get(name):
                    self.violate("constant:%s:%s" % (name, l), f.l, "connect: %s is assembled only once although expressions of %s change" % (name, l), f)

    # ------------------------------------------------------------------ evaluate
    ACTIVE = {
        "HeatTransfer": [{("elementKernels", "Kfiller"): "K", ("elementKernels", "Mfiller"): "M", ("elementKernels", "RHSfiller"): "f", ("elementKernels", "nRHSfiller"): "nf", ("elementKernels", "K"): "K", ("elementKernels", "M"): "M",
                          ("faceKernels", "RHSfiller"): "f", ("nodeKernels", "dirichlet"): "dirichlet"}],
        "StructuralMechanics": [
            {("elementKernels", "Kfiller"): "K", ("elementKernels", "Mfiller"): "M", ("elementKernels", "reRHSfiller"): "f", ("elementKernels", "reNRHSfiller"): "nf",
             ("faceKernels", "reRHSfiller"): "f", ("nodeKernels", "reRHSfiller"): "f", ("nodeKernels", "reDirichlet"): "dirichlet"},
            {("elementKernels", "Kfiller"): "K", ("elementKernels", "Mfiller"): "M", ("elementKernels", "reRHSfiller"): "ref", ("elementKernels", "imRHSfiller"): "imf", ("elementKernels", "reNRHSfiller"): "renf", ("elementKernels", "imNRHSfiller"): "imnf",
             ("faceKernels", "reRHSfiller"): "ref", ("faceKernels", "imRHSfiller"): "imf", ("nodeKernels", "reRHSfiller"): "ref", ("nodeKernels", "imRHSfiller"): "imf", ("nodeKernels", "reDirichlet"): "reDirichlet"}],
    }

    def run_evaluate(self):
        for k in range(len(self.FILL[self.cls])):
            f, args = self.variant("evaluate", k)
            names = self.FILL[self.cls][k][2]
            x = self.exe({})
            p = x.sample(f, lambda t: True, args=args)
            self.ctx.count("settings_of_evaluate")
            ev = p.events
            at = [i for i, e in enumerate(ev) if e[0] == "assemble"]
            if not at:
                self.violate("evaluate:assemble:%d" % k, f.l, "evaluate: nothing is assembled", f)
                continue
            action = enums(self.P, "SubKernel::Action")
            a0 = x.value(ev[at[0]][2][0])
            if action and a0[0] == "c" and a0[1] != action.get("ASSEMBLE"):
                self.violate("evaluate:action:%d" % k, ev[at[0]][3], "evaluate: the kernels run another action than ASSEMBLE", f)
            # time and substep (frequency) of all expressions
            tm = next((q.get("n") for q in f.p if "Time" in f.T[q["t"]] or "Frequency" in f.T[q["t"]]), None)
            want = [("getFrequency", "%s.current" % tm)] if k == 1 else [("getTime", "%s.current" % tm), ("getSubstep", None)]
            for kern in ("elementKernels", "faceKernels", "nodeKernels"):
                for lst in ("node", "gp") if kern != "nodeKernels" else ("node",):
                    for fn, val in want:
                        self.ctx.oblige("parameters of expressions")
                        got = [(i, e) for i, e in enumerate(ev) if e[0] == "set" and e[1][0] == "call" and e[1][1] == fn and owner2(e[1][2][0]) == kern and "expressions.%s" % lst in show(e[1][2][0])]
                        nmv = {"getTime": "time", "getSubstep": "substep", "getFrequency": "frequency"}[fn]
                        if not got or min(i for i, e in got) > at[0]:
                            self.violate("evaluate:%s:%s:%s:%d" % (fn, kern, lst, k), f.l if not got else got[0][1][3], "evaluate: expressions %s.expressions.%s are evaluated without the current %s" % (kern, lst, nmv), f)
                            continue
                        e = got[-1][1]
                        v = x.value(e[2][0])
                        if val is not None and show(v) != val and re.match(r"^[\w.]+$", show(v)):
                            self.violate("evaluate:%s value:%s:%s:%d" % (fn, kern, lst, k), e[3], "evaluate: %s of expressions is %s" % (nmv, show(v)), f)
                        if len(e[1][2]) > 1 and e[1][2][1][0] == "c":
                            self.violate("evaluate:%s thread:%s:%s:%d" % (fn, kern, lst, k), e[3], "evaluate: %s is set for one thread only" % nmv, f)
                        if len(e[1][2]) > 1 and e[1][2][1][0] == "iter" and (e[1][2][1][1] != Z or show(e[1][2][1][2]) != "info::env::threads"):
                            if e[1][2][1][1][0] == "c" and e[1][2][1][1] != Z:
                                self.violate("evaluate:%s threads:%s:%s:%d" % (fn, kern, lst, k), e[3], "evaluate: %s is not set for all threads" % nmv, f)
                        if any(y[0] == "idx" and y[2][0] == "c" and y[1][0] == "m" and y[1][2] == lst for y in subterms(e[1][2][0])):
                            self.violate("evaluate:%s index:%s:%s:%d" % (fn, kern, lst, k), e[3], "evaluate: %s is set for one of the expressions only" % nmv, f)
                        if fn == "getSubstep":
                            try:
                                w = eval(re.sub(r"\([a-z ]+\)", "", show(v).replace("step.substeps", "8").replace("step.substep", "3")), {"__builtins__": {}})
                            except Exception:
                                w = .5
                            if w != .5:
                                self.violate("evaluate:substep value:%s:%s:%d" % (kern, lst, k), e[3], "evaluate: substep of expressions is %s" % show(v), f)
                        for y in subterms(e[1][2][0]):
                            if y[0] == "iter" and y[1][0] == "c" and y[1] != Z and not (kern != "elementKernels" and y[1][1] == 1 and "Kernels" in show(y[2]) and "expressions" not in show(y[2])):
                                self.violate("evaluate:%s from:%s:%s:%d" % (fn, kern, lst, k), e[3], "evaluate: the %s of the first expression is not set" % nmv, f)
            for e in ev:
                if e[0] == "set" and e[1][0] == "m" and e[1][2].startswith("timeIntegrationConstant"):
                    v = x.value(e[2][0])
                    if v[0] == "m" and v[2] != e[1][2]:
                        self.violate("evaluate:%s" % e[1][2], e[3], "evaluate: %s is %s" % (e[1][2], show(v)), f)
            # what is assembled
            for (kern, op), what in self.ACTIVE[self.cls][k].items():
                self.ctx.oblige("activity of fillers")
                got = [(i, e) for i, e in enumerate(ev) if e[0] == "set" and e[1][0] == "m" and e[1][2] == "isactive" and e[1][1][0] == "m" and e[1][1][2] == op and owner(e[1][1]) == kern]
                for i, e in got:
                    v = e[2][0]
                    t = [y[2][-1] for y in subterms(v) if y[0] == "call" and y[1] == "isactive"]
                    if t and t[0][0] == "p" and t[0][1] in names and t[0][1] != what:
                        self.violate("evaluate:isactive:%s.%s:%d" % (kern, op, k), e[3], "evaluate: %s.%s is switched by %s instead of %s" % (kern, op, t[0][1], what), f)
                    if i > at[0]:
                        self.violate("evaluate:isactive late:%s.%s:%d" % (kern, op, k), e[3], "evaluate: %s.%s is switched after the assembly" % (kern, op), f)
                if not got and "filler" in op:
                    self.violate("evaluate:isactive missing:%s.%s:%d" % (kern, op, k), f.l, "evaluate: %s.%s is not switched on again when %s has to be assembled" % (kern, op, what), f)
            # reset, assemble, update
            for fn, before in (("reset", True), ("update", False)):
                got = [(i, e) for i, e in enumerate(ev) if e[0] == fn and (i < at[0]) == before]
                have = {y[1] for i, e in got for y in e[2] if y[0] == "p"}
                miss = [n for n in names if n not in have]
                if miss and (k == 1 or True):
                    self.violate("evaluate:%s:%d" % (fn, k), f.l, "evaluate: %s is not %s the assembly" % (", ".join(miss), "cleared before" if before else "completed (synchronized) after"), f)
                if fn == "reset" and any(e[0] == "reset" and i > at[0] for i, e in enumerate(ev)):
                    self.violate("evaluate:reset late:%d" % k, f.l, "evaluate: the assembled values are cleared", f)

    # ------------------------------------------------------------------ assemble
    def run_assemble(self):
        """every interval of elements, boundary regions and nodes is visited exactly once"""
        fs = [f for f in self.P.functions if f.q == "espreso::Assembler::assemble" and f.b]
        if not fs:
            raise symx.Undecided("assemble")
        f = fs[0]
        action = enums(self.P, "SubKernel::Action")
        for act in ("PREPROCESS", "ASSEMBLE", "SOLUTION"):
            for thr in (0, 1):
                for bem in (0, 1):
                    x = symx.Exec(self.P, {"threaded": thr, "action": action.get(act)}, events={"elements", "boundary", "nodes", "bem"}, leaves={"size"}, noise=NOISE, inline=lambda g: g.f == f.f)
                    args = [("p", "action") if "Action" in f.T[q["t"]] else ("p", q.get("n") or "?") for q in f.p]
                    p = x.sample(f, lambda t: bool(bem) if "BEM" in show(t) else True, args=args)
                    self.ctx.count("settings_of_assemble")
                    have = {}
                    for e in p.events:
                        have.setdefault(e[0], []).append(e)
                    how = "%s, %s" % (act.lower(), "threads" if thr else "one thread")
                    if bem and act == "ASSEMBLE":
                        want = ("bem", "boundary", "nodes")
                    else:
                        want = ("elements", "boundary", "nodes")
                    for n in want:
                        self.ctx.oblige("visited intervals")
                        if n not in have:
                            self.violate("assemble:%s:%s:%d" % (n, act, thr), f.l, "assemble: %s are not visited (%s)" % (n, how), f)
                        elif len(have[n]) > 1 and len({tuple(show(x.value(a)) for a in e[2]) for e in have[n]}) < len(have[n]):
                            self.violate("assemble:%s:twice:%s:%d" % (n, act, thr), have[n][1][3], "assemble: %s are visited twice (%s)" % (n, how), f)
                    for n, es in have.items():
                        for e in es:
                            a = [x.value(y) for y in e[2]]
                            if a and a[0][0] == "c" and a[0][1] != action.get(act):
                                self.violate("assemble:%s:action" % n, e[3], "assemble: %s run another action" % n, f)
                            if n != "bem" and any(t[0] == "c" for t in a[2:]):
                                self.violate("assemble:%s:index" % n, e[3], "assemble: only one interval of %s is visited again and again (%s)" % (n, how), f)
                            for t in a:
                                for y in subterms(t):
                                    if y[0] == "iter":
                                        self.bounds(n, y, e, f, how)

    def bounds(self, n, y, e, f, how):
        """loops over [first, last) of a distribution, from zero to the size"""
        lo, hi, op = y[1], y[2], y[3]
        one = lambda t: t[0] == "op" and len(t) == 4 and t[1] == "+" and t[3] == ("c", 1)
        bad = None
        if lo[0] == "c" and lo[1] > 0 and not (lo[1] == 1 and ("egion" in show(hi) or "boundary" in show(hi) or "Kernels" in show(hi))):
            bad = "starts from %d" % lo[1]
        elif lo[0] == "c" and hi[0] == "op" and hi[1] == "-" and op == "<":
            bad = "ends before the last one"
        elif op == "<=" and hi[0] != "op":
            bad = "goes behind the last one"
        elif lo[0] == "op" and len(lo) == 4 and lo[3][0] == "c" and lo[2][0] == "idx":
            bad = "skips the first one"
        elif hi[0] == "op" and len(hi) == 4 and hi[3][0] == "c" and hi[2][0] == "idx" and op == "<":
            bad = "goes to %s" % show(hi)
        elif hi[0] == "op" and hi[1] == "-" and hi[3][0] == "c" and op == "<":
            bad = "ends before the last one"
        elif lo[0] == "idx" and hi[0] == "idx":
            if lo[1] != hi[1]:
                bad = "begins in %s, ends in %s" % (show(lo[1]), show(hi[1]))
            elif not (one(hi[2]) and hi[2][2] == lo[2]):
                bad = "goes from [%s] to [%s]" % (show(lo[2]), show(hi[2]))
        if bad:
            self.violate("assemble:%s:bounds" % n, e[3], "assemble: the loop over %s %s (%s)" % (n, bad, how), f)

    def run_state(self):
        """isactive, reset and update of assembled matrices and vectors"""
        for n in ("isactive", "reset", "update"):
            fs = [f for f in self.P.functions if f.q == "espreso::" + n and f.b and f.tm != "pat" and f.f.endswith("assembler/assembler.h")]
            for f in [f for f in fs if len(f.p) == 1][:1]:
                for k in range(16):
                    nul, fi, co, up = k >> 3 & 1, k >> 2 & 1, k >> 1 & 1, k & 1
                    x = symx.Exec(self.P, {"t.filled": fi, "t.constant": co, "t.updated": up}, events={"set", "synchronize"}, inline=lambda g: g.f == f.f)
                    p = x.sample(f, lambda t: not nul, args=[("p", "t")])
                    self.ctx.count("states_of_matrices")
                    on = not nul and (not fi or not co)
                    acts = [e for e in p.events if e[0] in ("set", "synchronize")]
                    assigned = {e[1][2]: e[2][0] for e in acts if e[0] == "set" and e[1][0] == "m" and e[1][1] == ("p", "t")}
                    zero = [e for e in acts if e[0] == "set" and e[1] == ("p", "t")]
                    sync = [e for e in acts if e[0] == "synchronize"]
                    st = "%s, %s, %s" % ("not given" if nul else "given", "filled" if fi else "empty", "constant" if co else "variable")
                    ret = p.ret
                    if n != "update" and ret is not None and ret[0] == "c" and bool(ret[1]) != on:
                        self.violate("%s:value:%s" % (n, st), f.l, "%s returns %s for a matrix (vector) that is %s" % (n, bool(ret[1]), st), f)
                    if n == "reset" and bool(zero) != on:
                        self.violate("reset:set:%s" % st, f.l, "a matrix (vector) that is %s is %scleared" % (st, "not " if on else ""), f)
                    if n == "reset" and not nul:
                        v = assigned.get("updated", ("c", up))
                        if v[0] == "c" and bool(v[1]) != on:
                            self.violate("reset:updated:%s" % st, f.l, "a matrix (vector) that is %s is %smarked as updated" % (st, "not " if on else ""), f)
                    if n == "update" and not nul:
                        v = assigned.get("filled", ("c", fi))
                        if up and v == Z:
                            self.violate("update:filled", f.l, "an assembled matrix (vector) is not marked as filled", f)
                        if up and not sync:
                            self.violate("update:synchronize", f.l, "an assembled matrix (vector) is not synchronized", f)
                        if not up and sync:
                            self.violate("update:synchronize twice", f.l, "a constant matrix (vector) is synchronized again (values of the neighbors are added twice)", f)
            for f in [f for f in fs if len(f.p) > 1][:1]:
                args = [("p", "t%d" % i) for i in range(len(f.p))]
                x = symx.Exec(self.P, {}, events={"set", "synchronize"}, leaves={n}, inline=lambda g: False)
                p = x.sample(f, lambda t: True, args=args)
                self.ctx.count("states_of_matrices")

    # ------------------------------------------------------------------ solution
    def run_solution(self):
        """the solution is stored before results are computed from it"""
        action = enums(self.P, "SubKernel::Action")
        main = "temperature" if self.heat else "displacement"
        todo = [("updateSolution", "SOLUTION"), ("nextIteration", "ITERATION")]
        for name, act in todo:
            for f in self.fn(name):
                vecs = [q for q in f.p if "Vector_" in f.T[q["t"]] and q.get("n")]
                solutions = [q for q in vecs if vecs.index(q) == 0 or len(vecs) == 2 and not any("Matrix_" in f.T[p["t"]] for p in f.p)]
                names = ["cosDisplacement", "sinDisplacement"] if len(solutions) == 2 else [main]
                m = {q["id"]: "solution%d" % i for i, q in enumerate(solutions)}
                args = [("p", m.get(q["id"], q.get("n") or "?")) for q in f.p]
                x = self.exe({})
                p = x.sample(f, lambda t: False if "BEM" in show(t) else True, args=args)
                self.ctx.count("paths_of_updates")
                asm = [i for i, e in enumerate(p.events) if e[0] == "assemble"]
                if not asm:
                    self.violate("%s:assemble" % name, f.l, "%s: results are not computed" % name, f)
                    continue
                a0 = x.value(p.events[asm[-1]][2][0])
                if action and a0[0] == "c" and a0[1] != action.get(act):
                    self.violate("%s:action" % name, p.events[asm[-1]][3], "%s: kernels run another action than %s" % (name, act), f)
                for i, n in enumerate(names):
                    self.ctx.oblige("stored solutions")
                    st = [(j, e) for j, e in enumerate(p.events) if e[0] == "storeTo" and e[1] == ("p", "solution%d" % i) and e[2]]
                    tg = [norm(show(x.value(e[2][0]))) for j, e in st if j < asm[-1]]
                    if "Results::%s.data" % n not in tg and all(re.match(r"Results::\w+\.data$", t) for t in tg):
                        self.violate("%s:store:%s" % (name, n), f.l, "%s: the solution is not stored to %s before %s" % (name, n, "results are computed" if act == "SOLUTION" else "the next iteration"), f)
        for name, n in (("getInitialTemperature", "initialTemperature"), ("getInitialVelocity", "initialVelocity")):
            for f in self.fn(name):
                x = self.exe({})
                p = x.sample(f, lambda t: True, args=[("p", "x")])
                self.ctx.count("paths_of_updates")
                got = [norm(show(x.value(e[2][0]))) for e in p.events if e[0] == "setFrom" and e[2]]
                if got and got[-1] != "Results::%s.data" % n and re.match(r"Results::\w+\.data$", got[-1]):
                    self.violate(name, f.l, "%s: values of %s are returned" % (name, got[-1]), f)

    # ------------------------------------------------------------------ constructors
    def run_construct(self):
        """each kernel gets the number of elements and chunks of its own interval and the code of its elements"""
        found = []
        for cls in ("Assembler", self.cls):
            for f in [g for g in self.P.functions if g.q == "espreso::%s::%s" % (cls, cls) and g.b and g.tm != "pat"]:
                for odd in (True, False):
                    x = symx.Exec(self.P, {}, events={"resize"}, leaves={"size"}, noise=NOISE, inline=lambda g: g.f.startswith("src/analysis/assembler/") and "print" not in g.n)
                    p = x.sample(f, lambda t: odd if "%" in show(t) else True)
                    self.ctx.count("paths_of_constructors")
                    for e in p.events:
                        for y in [z for t in [e[1]] + list(e[2]) if t is not None for z in subterms(t)]:
                            if y[0] == "iter":
                                self.bounds("intervals", y, e, e[4], "constructor")
                    for e in p.events:
                        if e[0] == "set" and e[1][0] == "m" and owner(e[1]) in ("elementKernels", "faceKernels", "nodeKernels"):
                            found.append((e, owner(e[1]), e[1][2], x.value(e[2][0]), odd))
                        if e[0] == "set" and e[1][0] == "m" and e[1][2] == "thread" and "eintervals" in show(e[1]):
                            self.ctx.oblige("threads of intervals")
                            th = [y for y in subterms(e[1]) if y[0] == "iter" and show(y[2]) == "info::env::threads"]
                            v = x.value(e[2][0])
                            if th and v != th[0]:
                                self.violate("thread", e[3], "the thread of an interval is %s" % show(v), e[4])
        sizes = [y[3][1] for e, k, n, v, o in found if n == "chunks" for y in subterms(v) if y[0] == "op" and len(y) == 4 and y[1] in ("/", "%") and y[3][0] == "c"]
        S = max(set(sizes), key=sizes.count) if sizes else None
        for e, kern, field, v, odd in found:
            self.ctx.oblige("%s of kernels" % field)
            nm = self.naming(kern, e)
            if nm is None:
                continue
            own = {"elementKernels": ELEM, "faceKernels": REG + ".eintervals[$i]", "nodeKernels": "size(datatarray(%s.nodes), $t)" % REG}[kern]
            num = own if kern == "nodeKernels" else "(%s.end - %s.begin)" % (own, own)
            w = named(v, nm)
            if field == "elements" and w != num and re.match(r"^[$\w.\[\]:()+\-, ]*$", w):
                self.violate("%s.elements" % kern, e[3], "%s: the number of elements is %s" % (kern, w), e[4])
            if field == "code" and kern != "nodeKernels" and w != own + ".code" and re.match(r"^[$\w.\[\]:, ]*$", w):
                self.violate("%s.code" % kern, e[3], "%s: the code of elements is %s" % (kern, w), e[4])
            if field == "chunks" and S:
                for N in [k for k in range(1, 4 * S + 1) if (k % S != 0) == odd]:
                    r = number(w.replace(num, str(N)))
                    if r is not None and r != -(-N // S):
                        self.violate("%s.chunks" % kern, e[3], "%s: %d elements are processed in %d chunks of %d" % (kern, N, r, S), e[4])
                        break

    def run(self):
        for part in (self.run_analyze, self.run_connect, self.run_evaluate, self.run_assemble, self.run_state, self.run_construct, self.run_solution):
            try:
                part()
            except (symx.Undecided, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
                self.ctx.sample("not decided", "%s %s: %s %s" % (self.cls, part.__name__, type(e).__name__, e))
                self.ctx.count("not_decided")


def number(w):
    """value of an expression of integers (division of integers)"""
    w = re.sub(r"(?<![|&])/", "//", w.replace("?", " "))
    if not re.match(r"^[\d()+\-*/% ]+$", w):
        return None
    try:
        return int(eval(w))
    except Exception:
        return None


def owner2(t):
    while True:
        if t[0] in ("idx", "each"):
            t = t[1]
        elif t[0] == "m" and t[1] != ("this",):
            t = t[1]
        else:
            return t[2] if t[0] == "m" else show(t)
