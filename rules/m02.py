"""M02  Every process of a communicator enters every collective operation."""
from facts import walk, text, strip
from uniform import Uniform, COLLECTIVE

EXPLANATION = """
All functions that reach a collective MPI operation (through calls, virtual methods and constructors) are computed from the call graph. Every call of them is control-dependent on the
enclosing conditions and loop bounds and on the conditions of earlier returns, breaks and continues. Each condition is classified by an interprocedural dependence
analysis (data and control): uniform (configuration, number of processes, results of collectives), local to the process (rank, sizes and contents of the process part of mesh,
matrices, neighbours and of everything computed from them), or not known. Conditions passed to a function as arguments are followed from the callers.
"""
RULE = """
A collective operation does not depend on a condition that is local to the process, unless the condition selects the processes of the communicator used
(first processes of the 'within' groups form 'across'). No collective operation is reached from an OpenMP parallel region.
"""
ASSUMPTIONS = ["conditions whose origin is not known (members set elsewhere) are uniform", "MPI_File operations on MPI_COMM_SELF are not collective"]


def run(ctx):
    P = ctx.program("src/*")
    U = Uniform(P)
    # values local to the process passed as arguments
    todo = [f for f in U.fs if (f.f, f.l) in U.has]
    for _ in range(3):
        before = len(U.paramL)
        for f in todo:
            for n, conds in U.contexts(f):
                if n["k"] != "Call":
                    continue
                d = U.definition(n)
                if d is None or (d.f, d.l) not in U.has or d.f.startswith("src/wrappers/mpi"):
                    continue
                for p, a in zip(d.p, n["a"]):
                    t = d.T[p["t"]] if isinstance(p.get("t"), int) else ""
                    if t.endswith("*"):
                        continue
                    if U.cls(f, a) == "L":
                        U.paramL[(d.f, d.l, p["n"])] = "%s:%s" % (f.f, n.get("l"))
        U.vc.clear()
        if len(U.paramL) == before:
            break
    ctx.count("functions_with_collectives", len(U.has))
    for f in todo:
        if f.f.startswith("src/wrappers/mpi") and f.n in ("serialize",):
            continue
        for n, conds in U.contexts(f):
            c = U.collective(n)
            if not c:
                continue
            ctx.count("collective_call_sites")
            for e in conds:
                ctx.oblige("conditions_of_collectives")
                k = U.cls(f, e)
                ctx.count({"U": "uniform", "?": "not_known", "L": "local"}[k])
                if k != "L":
                    continue
                te = text(e)
                args = " ".join(text(a) for a in n.get("a", []))
                if "within.rank" in te and ("across" in args or c.startswith("MPI_File")):
                    ctx.count("selects_the_communicator")
                    continue
                if c.startswith("MPI_File") and "chunk" in te:
                    continue
                ctx.violate("%s:%s:%s" % (f.q, n.get("n") or n.get("q"), te[:120]), f.where(n),
                            "%s: %s (reaches %s) is entered only by processes with %s, which differs among the processes" % (f.q, n.get("n") or n.get("q"), c, te[:200]))
    # threads: a collective is not entered by several threads of a process
    for f in todo:
        for x in walk(f.b):
            if x["k"] == "OMP" and "parallel" in x["n"]:
                ctx.oblige("parallel_regions")
                for y in walk(x.get("b")):
                    c = U.collective(y)
                    if c:
                        ctx.violate("%s:omp:%s" % (f.q, y.get("n") or y.get("q")), f.where(y), "%s: %s (reaches %s) is called by all threads of a parallel region" % (f.q, y.get("n") or y.get("q"), c))
    ctx.floor("collective_call_sites", 100)
