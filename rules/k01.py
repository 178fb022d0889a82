"""K01: every configuration keyword is bound to exactly the parameter it names."""
from facts import walk, text, strip, AnalysisBroken
import ecf

EXPLANATION = """
Static registry analysis. Every call that registers a configuration parameter in the current tree is
resolved (keyword literal -> bound member, type-checked AST). For each one the rule compares keyword and
bound member, looks for a second registration of the same keyword or the same member in one object
(including inherited registrations), and checks that every user-facing data member of every configuration
class is registered. The verdict covers all keywords, not the ones an .ecf file in the test suite uses.
"""
RULE = """keyword K registered for member M  =>  normalised(K) == name(M) or (K, M) is a confirmed alias;
no object registers one keyword or one member twice; every non-exempt member of a configuration class is registered."""
ASSUMPTIONS = ["keyword lookup is by name (ECFObject::_getNamedParameter), first match wins",
               "aliases and exempt members listed in rules/k01.py were confirmed by reading the code"]

# (class, keyword) -> member expression, for keywords that intentionally differ from the member name
ALIAS = {
    ("ElasticityPropertiesConfiguration", "MIXY"): "this.poisson_ratio.get(0,0)",
    ("ElasticityPropertiesConfiguration", "EX"): "this.young_modulus.get(0,0)",
    ("MaterialBaseConfiguration", "dens"): "this.density",
    ("MaterialBaseConfiguration", "CP"): "this.heat_capacity",
}
for i, a in enumerate("XYZ"):
    for j, b in enumerate("XYZ"):
        ALIAS[("ThermalConductivityConfiguration", "K" + a + b)] = "this.values.get(%d,%d)" % (i, j)
    ALIAS[("ThermalExpansionConfiguration", "TE" + a)] = "this.thermal_expansion.get(%d,%d)" % (i, i)
    ALIAS[("*", "min_" + a.lower())] = "this.min[%d]" % i
    ALIAS[("*", "max_" + a.lower())] = "this.max[%d]" % i

# data members that are not user parameters (internal state, or registration deliberately disabled)
EXEMPT = {
    ("AutoOptimizationConfiguration", "somat3a"), ("ContactInterfaceConfiguration", "found_interfaces"),
    ("ECF", "ecffile"), ("ECF", "exe"), ("ECF", "name"), ("ECF", "outpath"),
    ("ECFDescription", "ecfdescription"), ("ECFExpressionVector", "data"),
    ("ElasticityPropertiesConfiguration", "shear_modulus"), ("ElasticityPropertiesConfiguration", "anisotropic"),
    ("InputConfiguration", "insert_midpoints"), ("InputConfiguration", "insert_orientation"),
    ("LoadStepSolverConfiguration", "sequential"),
    ("MaterialBaseConfiguration", "physical_model"), ("PhysicsConfiguration", "physical_model"),
    ("CorotatingRotorConfiguration", "rotating_damping"), ("StructuralMechanicsLoadStepConfiguration", "harmonic_acceleration"),
    ("DataRead", "force"), ("DataRead", "pressure"), ("DataRead", "stress"), ("DataWrite", "displacement"), ("DataWrite", "velocity"),
}
# members of members that DataExchangeConfiguration registers directly
NESTED = {("DataExchangeConfiguration", "read"): ["force", "pressure", "stress"], ("DataExchangeConfiguration", "write"): ["displacement", "velocity"]}


def short(q):
    return q.split("::")[-1]


def member(t):
    """last component of a member expression"""
    return t.split(".")[-1]


def run(ctx):
    P = ctx.program("src/config/*", "src/esinfo/*")
    regs = ecf.registrations(P)
    classes = ecf.config_classes(P)
    byc = {}
    for r in regs:
        byc.setdefault(r.cls, []).append(r)
        ctx.oblige("registrations")
        if r.name is None:
            # composed keyword: the variable part must belong to the bound member ("first"/"second")
            parts = [x["n"].lower() for x in walk(r.namenode) if x["k"] == "Ref" and x.get("d") == "p"]
            ok = all(("first" in p) == ("first" in r.target) and ("second" in p) == ("second" in r.target) for p in parts)
            lits = "".join(ecf.literals(r.namenode)).strip("_").split("_")
            ok = ok and all(l in r.target for l in lits if l)
            ctx.count("composed_keywords")
            if not ok:
                ctx.violate("bind:%s:%s" % (short(r.cls), r.target), r.where, "composed keyword %s is bound to %s" % (text(r.namenode), r.target))
            continue
        al = ALIAS.get((short(r.cls), r.name)) or ALIAS.get(("*", r.name))
        if al is not None:
            ok = r.target == al
            ctx.count("aliases")
        else:
            ok = ecf.norm(member(r.target)) == ecf.norm(r.name)
        if not ok:
            ctx.violate("bind:%s:%s" % (short(r.cls), r.name), r.where,
                        "keyword %s of %s is bound to %s" % (r.name.upper(), short(r.cls), r.target))

    # one keyword / one member at most once per object; ctor of a derived class adds to its bases
    def bases(q):
        out = []
        for rec in P.records.get(q, [])[:1]:
            for b in rec["bases"]:
                b = b.split("<")[0]
                if b in P.records and b != ecf.BASE:
                    out += [b] + bases(b)
        return out

    for cls, rs in byc.items():
        inherited = [x for b in bases(cls) for x in byc.get(b, [])]
        seenk, seenm = {}, {}
        for r in inherited + rs:
            if r.name is None:
                continue
            k = ecf.norm(r.name)
            key = (r.func.q, r.target)
            if k in seenk and r in rs and seenk[k] is not r and not exclusive(r, seenk[k]):
                ctx.violate("dupkey:%s:%s" % (short(cls), k), r.where, "keyword %s of %s is registered twice (also %s); the second one can never be reached" % (r.name.upper(), short(cls), seenk[k].where))
            if r.target in seenm and r in rs and seenm[r.target] is not r and not exclusive(r, seenm[r.target]):
                ctx.violate("dupmem:%s:%s" % (short(cls), r.target), r.where, "%s of %s is bound to two keywords (also %s)" % (r.target, short(cls), seenm[r.target].where))
            seenk.setdefault(k, r)
            seenm.setdefault(r.target, r)
        ctx.oblige("objects")

    # completeness
    for q in sorted(classes):
        for rec in P.records.get(q, [])[:1]:
            if not rec["f"].startswith("src/config/"):
                continue
            got = set()
            for r in byc.get(q, []):
                p = r.target.split(".")
                if p[0] == "this" and len(p) > 1:
                    got.add(p[1].split("[")[0])
                for x in walk(r.tnode):
                    if x["k"] == "Mem":
                        got.add(x["n"])
            for fl in rec["fields"]:
                n, t = fl["n"], fl["t"]
                if t.endswith("*") or t.endswith("&") or (short(q), n) in EXEMPT:
                    continue
                ctx.oblige("members")
                if n not in got:
                    ctx.violate("unreg:%s:%s" % (short(q), n), "%s:%d" % (rec["f"], fl["l"]), "parameter %s of %s has no keyword" % (n, short(q)))
                elif (short(q), n) in NESTED:
                    for sub in NESTED[(short(q), n)]:
                        if not any(r.target == "this.%s.%s" % (n, sub) for r in byc.get(q, [])):
                            ctx.violate("unreg:%s:%s.%s" % (short(q), n, sub), "%s:%d" % (rec["f"], fl["l"]), "parameter %s.%s has no keyword" % (n, sub))
    lookup(ctx, P)
    ctx.floor("registrations", 880)
    ctx.floor("members", 850)


def exclusive(a, b):
    """registrations in different branches of one if (never both executed)"""
    if a.func is not b.func:
        return False
    for n in walk(a.func.b):
        if n["k"] == "If" and n.get("el"):
            th = list(walk(n["th"])); el = list(walk(n["el"]))
            ia, ib = any(x is a.call for x in th), any(x is b.call for x in th)
            ea, eb = any(x is a.call for x in el), any(x is b.call for x in el)
            if (ia and eb) or (ib and ea):
                return True
    return False


def lookup(ctx, P):
    """the registration/lookup primitives keep name, object and metadata together"""
    for f in P.fn("espreso::ECFObject::_getNamedParameter"):
        ctx.oblige("lookup_functions")
        rets = [n for n in walk(f.b) if n["k"] == "Return"]
        cmp = [c for c in walk(f.b) if c["k"] == "Call" and (c.get("n") or "").startswith("caseInsensitive")]
        if not any(c.get("n") == "caseInsensitiveEq" for c in cmp) and cmp:
            ctx.violate("lookup:%s" % f.cls, f.where(), "keyword lookup is not an exact case-insensitive match")
