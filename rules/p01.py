"""P01  Linear-algebra operations refuse to run without their inputs and preparation steps."""
from facts import walk, strip, AnalysisBroken
import opclass
from opclass import base_name, close

EXPLANATION = """
Typestate analysis of all operation classes (math::operations, gpu::operations and their library back ends).
For every concrete class every public method is explored over all its paths (virtual calls on `this` resolved to
the class and inlined). On each path the analysis knows which inputs were tested to be set and which step flags hold;
a step flag stands for the facts that hold wherever the flag is set.
"""
RULE = """
(1) a dereference of an input pointer happens only where the input is known to be set; (2) a member produced only by a
step (a method that sets a flag when it completes) is used by another public method only if every path to the end of that
method knows the flag; (3) a destructor dereferences an owned object only if it was created by every constructor or tested.
"""
ASSUMPTIONS = ["an explicitly passed null pointer counts as set by the caller for inputs guarded by a step flag",
               "members modified only through other operation objects are guarded by those operations"]
# (class, input): one of two mandatory inputs may be missing; which one is decided by a counted test the facts cannot express
EXEMPT = {("schur_csx_dny_spsolver", "A12"): "either A12 or A21 is set (counted test in schur_csx_dny::preprocess)",
          ("schur_csx_dny_spsolver", "A21"): "either A12 or A21 is set (counted test in schur_csx_dny::preprocess)"}


def run(ctx):
    P = ctx.program(*opclass.PATTERNS)
    C = opclass.Classes(P)
    undecided = 0
    for q in C.concrete():
        name = base_name(q)
        r = opclass.analyse(C, q)
        cl = r["client"]
        ctx.count("classes")
        undecided += len(r.get("broken", []))
        for (mn, ar, l), (f, ex) in r["exit"].items():
            ctx.count("public_methods")
        imp = r["imp"]
        seen = set()
        for (f, n, p, s) in r["deref"]:
            k = (f.f, f.l, p, n.get("l"))
            if k not in seen:
                seen.add(k)
                ctx.oblige("input_dereferences")
            if ("nn", p) in s or ("nn", p) in close(s, imp):
                continue
            if (name, p) in EXEMPT:
                ctx.count("exempt")
                continue
            ctx.violate("%s::%s:%s" % (name, f.n, p), f.where(n), "%s::%s uses input %s without testing that it was set (and no completed step implies it)" % (name, f.n, p))
        steps(ctx, C, q, name, r, cl, imp)
    destructors(ctx, P, C)
    ctx.counts["methods_undecided"] = undecided
    ctx.floor("classes", 60)
    ctx.floor("input_dereferences", 300)
    ctx.floor("step_uses", 40)


def steps(ctx, C, q, name, r, cl, imp):
    setters = {}
    for (f, n, (p, v), s) in r["set"]:
        if p in cl.flags and v not in (0, ord("_"), "_"):
            setters.setdefault((f.n, len(f.p), f.l), set()).add((p, v))
    wr = {}
    for (f, n, p, s) in r["write"]:
        wr.setdefault(p.split(".")[0], set()).add((f.n, len(f.p), f.l))
    for m, ms in sorted(wr.items()):
        if m in cl.inputs or m in cl.flags or m.startswith("$") or m not in cl.fld:
            continue
        if base_name(cl.fld[m]["t"]) in {base_name(x) for x in C.rec}:
            continue
        fl = set.intersection(*[setters.get(x, set()) for x in ms])
        if not fl:
            continue
        bym = {}
        for (f, n, p, s) in r["read"]:
            if p == m and (f.n, len(f.p), f.l) not in ms:
                bym.setdefault((f.n, len(f.p), f.l), []).append((f, n, s))
        for k, evs in bym.items():
            if k not in r["exit"]:
                continue
            f, ex = r["exit"][k]
            for (F, v) in sorted(fl, key=str):
                ctx.oblige("step_uses")

                def holds(s):
                    c = close(s, imp)
                    return ("is", F, v) in c or any(x[0] == "not" and x[1] == F for x in c) or any(x[0] == "is" and x[1] == F and x[2] not in (0, 95, "_") for x in c)
                if all(holds(s) for s in ex):
                    continue
                bad = [(n, s) for (_, n, s) in evs if not holds(s)]
                if bad:
                    ctx.violate("%s::%s:%s:%s" % (name, k[0], m, F), f.where(bad[0][0]),
                                "%s::%s uses %s, which is produced only by the step setting %s, without requiring that step" % (name, k[0], m, F))


def destructors(ctx, P, C):
    from flow import Flow
    for q in sorted(C.rec):
        ds = [f for f in C.methods.get(q, []) if f.n.startswith("~")]
        for f in ds:
            cl = opclass.OpClient(C, q)
            owned = {n for n, fl in cl.fld.items() if "unique_ptr" in fl["t"]}
            made = None
            for c in C.methods.get(q, []):
                if c.n == base_name(q) and not (len(c.p) == 1 and base_name(c.T[c.p[0]["t"]]) == base_name(q)):
                    w = set()
                    for x in walk(c.b):
                        if x["k"] == "OpCall" and x["op"] == "=" and len(x["a"]) == 2 and cl.fresh(x["a"][1]):
                            w.add(strip(x["a"][0]).get("n"))
                    for i in c.init:
                        if i.get("e") is not None and cl.fresh(i["e"]):
                            w.add(i.get("n"))
                    made = w if made is None else made & w
            cl.inputs = owned
            bad = []

            def log(kind, n, p, s):
                if kind == "deref" and p in owned:
                    ctx.oblige("destructor_uses")
                    fl = {("is", x) for x in ()}
                    if p not in (made or ()) and ("nn", p) not in s and not any(x[0] == "is" and x[2] not in (0, 95, "_") for x in s):
                        bad.append((n, p))
            cl.log = log
            try:
                Flow(cl).run(f, {frozenset()})
            except AnalysisBroken:
                continue
            for n, p in bad:
                ctx.violate("%s::~:%s" % (base_name(q), p), f.where(n), "destructor of %s dereferences %s, which may never have been created" % (base_name(q), p))
