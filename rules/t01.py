"""T01  Threads never conflict: the result does not depend on the number of threads or their scheduling."""
import glob, os
import facts
from facts import walk, strip
import race

EXPLANATION = """
Every OpenMP parallel region of the program is interpreted abstractly: all values and locations carry their dependence on the iteration (or thread) and
whether the location is shared. Functions called from the region (also virtual methods, lambdas, std algorithms and container mutators) are followed with their abstract
arguments.
"""
RULE = """
A write to memory shared by the threads must go to a location that depends on the iteration, or be protected (atomic, critical, single, master, condition selecting one
iteration, lock, reduction clause), or store the same value in all threads, and what is written under atomic, critical or a lock is not read without it; an accumulation through a map shared by several domains (D2C, D2C0, permutationF0) must be atomic.
"""
ASSUMPTIONS = ["locations that depend on the iteration are disjoint (distributions are partitions, index maps not in the list are injective)",
               "memory reached only through objects selected by the iteration belongs to that iteration", "library functions and containers of other threads are not modified behind the scenes"]


WHAT = {"same": "is written by all threads at once", "map": "accumulates contributions of several domains or elements without atomic",
        "read": "is accessed without the protection (atomic, critical, lock) that its other accesses have",
        "range": "is written in overlapping ranges of neighbouring threads",
        "next": "are accessed by neighbouring iterations while one of them writes"}


def report(ctx, ws, region):
    for w in ws:
        ctx.violate("%s:%s" % (plain(w[5]), w[3]), "%s:%d" % (w[0], w[1]), "%s: %s %s (parallel region %s)" % (plain(w[5]), w[3], WHAT[w[2]], region))


def plain(q):
    """name without template arguments"""
    r, d = "", 0
    for c in q:
        d += c == "<"
        if not d:
            r += c
        d -= c == ">"
    return r


def activated(P):
    """classes of operators that are activated somewhere"""
    r = set()
    for f in P.functions:
        if f.tm != "pat" and f.b and f.f.startswith("src/analysis/"):
            for x in walk(f.b):
                if x["k"] == "Call" and x.get("n") == "activate" and x.get("o") is not None:
                    r.add((x.get("q") or "").rsplit("::", 1)[0].split("<")[0])
                    t = f.t(x["o"]) if "t" in x["o"] else ""
                    r.add(t.replace("const ", "").split("<")[0].strip(" &*"))
    return r


def kernels(ctx, P):
    """the kernels of the assembler: called by Assembler::assemble for the intervals of the domains of a thread"""
    act = activated(P)
    sites = set()
    for d in ("heattransfer", "structuralmechanics"):
        for u in sorted(glob.glob(os.path.join(facts.REPO, "src/analysis/assembler", d, "kernel.*.cpp"))):
            tu = os.path.relpath(u, facts.REPO)
            K = facts.Program([tu], allinst="src/analysis/assembler/")
            R = race.Race(K)
            R.active = act if "espreso::Coordinates" in act else None
            for f in K.functions:
                if f.q in ("espreso::runElement", "espreso::runBoundary", "espreso::runNode") and f.b and f.tm != "pat" and f.f == tu:
                    args = [race.V(race.DATA, True, race.DIRECT, p["n"]) for p in f.p]
                    ws = R.run_function(f, args)
                    ctx.count("kernels_of_the_assembler")
                    ctx.count("functions_called_in_kernels", len(R.ncalls))
                    sites |= R.sites
                    report(ctx, ws, "of Assembler::assemble, kernel %s %s" % (f.q, tu))
    ctx.oblige("writes_in_kernels", len(sites))


def threaded(ctx, P):
    """the kernels add to the global vectors without protection unless every domain has its own: only FETI may assemble in parallel"""
    par = False
    for f in P.byq.get("espreso::Assembler::assemble", []):
        for x in walk(f.b) if f.b else ():
            par = par or x["k"] == "OMP" and "parallel" in x["n"]
    if not par:
        return
    for f in P.functions:
        if f.tm == "pat" or not f.f.startswith("src/analysis/"):
            continue
        for x in list(walk(f.b) if f.b else ()):
            if x["k"] == "Bin" and x["op"] == "=" and strip(x["x"])["k"] == "Mem" and strip(x["x"]).get("q") == "espreso::Assembler::threaded":
                ctx.oblige("conditions of parallel assembly")
                v = strip(x["y"])
                if v["k"] == "Bin" and v["op"] in ("!=", "||") or v["k"] == "Bool" and v.get("v") in (True, 1) and not any(
                        y["k"] in ("If", "Switch", "Cond") for y in walk(f.b)):
                    ctx.violate("threaded:%s" % f.q, f.where(x), "%s: parallel assembly is allowed for solvers with one shared matrix, threads add to the same entries without atomic" % f.q)
                elif v["k"] == "Bin" and v["op"] == "==":
                    e = [y["n"] for y in walk(v) if y["k"] == "Ref" and y.get("d") == "e"]
                    if e and e != ["FETI"]:
                        ctx.violate("threaded:%s" % f.q, f.where(x), "%s: parallel assembly for the solver %s with one shared matrix, threads add to the same entries without atomic" % (f.q, e[0]))


def run(ctx):
    P = ctx.program("src/*")
    R = race.Race(P)
    seen = set()
    data = 0
    for f in P.functions:
        if f.tm == "pat" or not f.b:
            continue
        for x in R.regions(f):
            loc = (f.f, x.get("l"), f.q)
            if loc in seen:
                continue
            seen.add(loc)
            ctx.count("parallel_regions")
            ws = R.run(f, x)
            data += R.ndata
            ctx.sample("region", "%s:%s" % (f.f, x.get("l")))
            report(ctx, ws, "%s:%s in %s" % (f.f, x.get("l"), f.q))
    ctx.oblige("writes_in_regions", len(R.sites))
    ctx.oblige("ranges_of_threads_disjoint", R.ranges)
    threaded(ctx, P)
    kernels(ctx, P)
    ctx.count("functions_called_in_regions", len({k[0] for k in R.memo}))
    ctx.count("data_dependent_locations_assumed_disjoint", data)
    ctx.floor("parallel_regions", 150)
