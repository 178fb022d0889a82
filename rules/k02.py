"""K02: an option name selects the enumerator of that name."""
import re
from facts import walk, text, strip, val, AnalysisBroken
import ecf

EXPLANATION = """
Static table analysis. For every enumerated configuration parameter the ordered option list given at its
registration is compared with the enumerators of the bound enum type (values taken from the type-checked
program): the i-th option must name the enumerator with value i (OPTION) or 2^i (ENUM_FLAGS), because the
holder stores the position. The holder itself is checked to store the matched position unchanged and to
read names back through the same position, and to bound numeric input by the number of options.
"""
RULE = """options[i] names enumerator with value i (or 1<<i for flag sets); number of options <= number of enumerators;
holder: value = E(matched index), bounded index."""
ASSUMPTIONS = ["option text and enumerator are the same word up to case and punctuation, except for the aliases listed in rules/k02.py"]

ALIAS = {  # (enum suffix, option) -> enumerator
    ("FORMAT", "NETGEN"): "NETGET",
    ("OCTAVE_BAND", "1"): "BAND_1", ("OCTAVE_BAND", "1/2"): "BAND_2", ("OCTAVE_BAND", "1/3"): "BAND_3",
    ("OCTAVE_BAND", "1/6"): "BAND_6", ("OCTAVE_BAND", "1/12"): "BAND_12", ("OCTAVE_BAND", "1/24"): "BAND_24",
}


def run(ctx):
    P = ctx.program("src/config/*", "src/esinfo/*")
    n = 0
    for r in ecf.registrations(P):
        t = r.type
        m = re.match(r"std::(?:map<.*, |vector<)(espreso::[\w:]+)>$", t)
        e = P.enums.get(t) or (m and P.enums.get(m.group(1)))
        if not e or r.unresolved:
            continue
        flags = "ENUM_FLAGS" in r.datatypes
        ctx.oblige("enumerated_parameters")
        ctx.sample("parameter", "%s %s: %d options / %d enumerators" % (r.where, r.name, len(r.options), len(e["c"])), 40)
        ek = e["q"].split("::")[-1]
        byval = {}
        for nm, v in e["c"]:
            byval.setdefault(v, []).append(nm)
        kid = "%s:%s" % (r.cls.split("::")[-1], r.name)
        if not r.options:
            ctx.violate("noopt:" + kid, r.where, "enumerated parameter %s offers no option" % r.name)
            continue
        if len({ecf.norm(o) for o in r.options}) != len(r.options):
            ctx.violate("dupopt:" + kid, r.where, "parameter %s offers one option twice: %s" % (r.name, r.options))
        for i, o in enumerate(r.options):
            ctx.oblige("options")
            v = (1 << i) if flags else i
            names = byval.get(v)
            if names is None:
                ctx.violate("noenum:%s:%s" % (kid, o), r.where, "option %s of %s selects value %d which is no enumerator of %s" % (o, r.name, v, e["q"]))
                continue
            want = ALIAS.get((ek, o), o)
            if not {ecf.norm(want), ecf.norm(o)} & {ecf.norm(x) for x in names}:
                ctx.violate("option:%s:%s" % (kid, o), r.where, "option %s of %s selects enumerator %s" % (o, r.name, "/".join(names)))
    ctx.floor("enumerated_parameters", 170)
    ctx.floor("options", 600)
    holder(ctx, P)


def holder(ctx, P):
    fs = [f for f in P.functions if f.cls and f.cls.startswith("espreso::ECFEnumHolder") and f.n in ("_setValue", "getValue") and f.tm == "inst"]
    if not fs:
        raise AnalysisBroken("enum holder not found")
    for f in fs[:2] if len(fs) >= 2 else fs:
        pass
    done = set()
    for f in fs:
        if f.n in done:
            continue
        done.add(f.n)
        ctx.oblige("holder_functions")
        loops = {}
        for x in walk(f.b):
            if x["k"] == "For" and x.get("init") and x["init"]["k"] == "Decl":
                for v in x["init"]["c"]:
                    loops[v["id"]] = (x, v)
        for x in walk(f.b):
            if x["k"] == "Bin" and x["op"] == "<<" and f.t(x) in ("int", "unsigned int", "long", "unsigned long"):
                b = strip(x["x"])
                i = strip(x["y"])
                if b.get("v") != 1 or i["k"] != "Ref":
                    ctx.violate("holder:%s:shift" % f.n, f.where(x), "flag bit of an option is %s, not 1 << position" % text(x))
            if x["k"] == "OpCall" and x["op"] == "[]" and text(x["a"][0]).endswith("metadata.options"):
                i = strip(x["a"][1])
                if i["k"] not in ("Ref", "Mem"):
                    ctx.violate("holder:%s:index" % f.n, f.where(x), "option name is looked up at %s" % text(i))
                elif i.get("id") in loops:
                    lp, v = loops[i["id"]]
                    if val(strip(v.get("i"))) != 0:
                        ctx.violate("holder:%s:loop" % f.n, f.where(lp), "the option list is not searched from its first entry")
        if f.n == "_setValue":
            # numeric fallback must be bounded by the number of options
            casts = [x for x in walk(f.b) if x["k"] == "Cast" and strip(x["e"])["k"] == "Ref" and strip(x["e"]).get("d") == "v" and "espreso::" in f.t(x)]
            ids = {strip(x["e"])["id"] for x in casts}
            bounded = set()
            for x in walk(f.b):
                if x["k"] == "Bin" and x["op"] in ("<", ">=", ">", "<=") :
                    for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                        if strip(a)["k"] == "Ref" and "options.size()" in text(b):
                            bounded.add(strip(a).get("id"))
            for i in ids:
                if i not in bounded:
                    ctx.violate("holder:_setValue:bound", f.where(), "a numeric value outside the option list is stored as an enumerator")
