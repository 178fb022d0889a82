"""D01  Every option selects its implementation; nothing is silently ignored."""
import itertools, json, os
from facts import walk, strip, AnalysisBroken, VERIF
import dispatch
from dispatch import mempath, unalias

EXPLANATION = """
All functions that create objects (solvers, operators, preconditioners, projectors, loaders, writers, physics, generators), call partitioners or
fill internal parameter structures depending on enumerated settings of the configuration are explored over all their paths, the state being split by
option; helpers and local lambdas are inlined, the function is sliced to the outcome of interest.
"""
RULE = """
For each combination of options the set of possible outcomes (class created / worker called / constant stored, an error report, or nothing) agrees with
the reviewed table data/dispatch.json: no other implementation or value, and never nothing (null result, silently ignored setting) unless the table says so.
"""
ASSUMPTIONS = ["the table is the reviewed meaning of the option names; choices behind AUTO options are free",
               "conditions that are not enumerated settings may evaluate either way"]
TABLE = os.path.join(VERIF, "data", "dispatch.json")
WORKERS = ("espreso::METIS::call", "espreso::ParMETIS::call", "espreso::PTScotch::call", "espreso::Scotch::call", "espreso::KaHIP::call",
           "espreso::mesh::getSFCDecomposition")
PATTERNS = ["src/analysis/analysis.cpp", "src/analysis/physics/heat*.cpp", "src/feti/*", "src/math/operations/*", "src/gpu/operations/*", "src/mesh/mesh.cpp",
            "src/mesh/preprocessing/decomposition.cpp", "src/mesh/preprocessing/pure.cpp", "src/output/output.cpp",
            "src/input/parsers/meshgenerator/*", "src/autoopt/*", "src/wrappers/metis/*"]
FREE = ("AUTO", "autoselect")


def qname(f):
    """qualified name without template arguments"""
    out, d = "", 0
    for ch in f.q:
        d += (ch == "<") - (ch == ">")
        if d == 0 and ch != ">":
            out += ch
    if f.n == "setup_config" and f.cls is None:
        out += "@" + os.path.basename(f.f)
    return out


def setup(ctx):
    P = ctx.program(*PATTERNS)
    enums = {q: [tuple(c) for c in e["c"]] for q, e in P.enums.items() if e["f"].startswith("src/config/") or q.endswith("implementation_selector")}
    return P, dispatch.Dispatch(P, enums, WORKERS)


def functions(P):
    seen = {}
    for f in P.functions:
        if f.tm == "pat" or not f.b or "complex" in f.q:
            continue
        seen.setdefault(qname(f), []).append(f)
    return seen


def outcomes(res, sels, vocab=None):
    """combination of the selectors -> set of outcome strings"""
    keys = sorted(sels)
    out = {}
    for combo in itertools.product(*[sels[k] for k in keys]):
        c = dict(zip(keys, combo))
        o = set()
        for facts, ev in res:
            if all(k not in c or c[k] in v for k, v in facts):
                o.add("+".join(sorted(e for e in ev if vocab is None or e in vocab)))
        out[";".join("%s=%s" % kv for kv in sorted(c.items()))] = o
    return out


def run(ctx):
    table = json.load(open(TABLE))
    P, D = setup(ctx)
    fs = functions(P)
    for key, entry in sorted(table.items()):
        name, target = key.split("#")
        target = target or None
        cand = fs.get(name)
        if not cand:
            ctx.count("functions_absent")
            continue
        ctx.count("dispatchers")
        for f in cand[:1]:
            try:
                res = D.explore(f, target)
            except AnalysisBroken:
                ctx.count("undecided")
                continue
            # settings known to the table that the function does not read (any more) do not constrain it
            vocab = {a for o in entry["map"].values() for x in o for a in x.split("+")} | {"error"} if target is None else None
            got = outcomes(res, entry["selectors"], vocab)
            if target is not None and all(o <= {""} for o in got.values()) and handed(f, target):
                ctx.count("undecided")
                continue
            for combo, exp in sorted(entry["map"].items()):
                ctx.oblige("option_combinations")
                o = got.get(combo, set())
                if any("?" in x for x in o):
                    ctx.count("undecided_values")
                    continue
                exp = set(exp)
                expc, oc = exp - {"", "error"}, o - {"", "error"}
                why = None
                if not o:
                    why = "is not handled"
                elif expc and not oc:
                    why = "leads to %s instead of %s" % ("nothing" if "" in o else "an error", "/".join(sorted(expc)))
                elif expc and oc - expc:
                    why = "leads to %s instead of %s" % ("/".join(sorted(oc - expc)), "/".join(sorted(expc)))
                elif "" in o and "" not in exp:
                    why = "can lead to nothing (neither an implementation nor an error) instead of %s" % "/".join(sorted(exp))
                elif not expc and oc and "error" not in exp:
                    why = "leads to %s instead of nothing" % "/".join(sorted(oc))
                if why:
                    ctx.violate("%s:%s:%s" % (name, target or "", combo), f.where(), "%s: %s %s%s" % (f.q, combo or "(no option)", why, " [%s]" % target if target else ""))
    ctx.floor("dispatchers", 40)


def handed(f, target):
    """the object holding the target is handed to a function we do not see through"""
    root = target.split(".")[0]
    for x in walk(f.b):
        if x["k"] == "Call" and (x.get("q") or "").startswith("espreso::"):     # library calls do not know the options
            for a in x["a"]:
                p = mempath(a)
                if p and p[0] == root:
                    return True
        if x["k"] in ("Bin", "OpCall") and x.get("op") == "=":
            y = x["x"] if x["k"] == "Bin" else x["a"][0]
            p = mempath(y)
            if p and target.startswith(".".join(p) + "."):
                return True
    return False
