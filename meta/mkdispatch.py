"""Proposes data/dispatch.json from the current tree (for review; never run by a check)."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, H + "/rules")
import check, d01
from d01 import *
ctx = check.Ctx("D01", "quick")
P, D = setup(ctx)
FACT = ["Analysis::run", "DualOperator::create", "IterativeSolver::create", "Preconditioner::create", "Projector::create", "setSolver", "BlockGenerator::BlockGenerator",
        "Mesh::load", "math::operations::schur_csx_dny::make", "math::operations::solver_csx::make", "gpu::operations::schur_hcsx_ddny::make", "Output::Output",
        "OptimizationProxy::OptimizationProxy", "mesh::computeElementsDecomposition", "mesh::callParallelDecomposer", "MeshGenerator::load"]
tab = {}
for name, cand in functions(P).items():
    f = cand[0]
    D.func = f
    todo = []
    if name.replace("espreso::", "", 1) in FACT:
        todo.append(None)
    b = unalias(f.b, f.t)
    D.target = "x"
    tg = set()
    hit = False
    for sw in walk(b):
        if sw["k"] == "Switch" and D.sel(sw["e"]):
            for x in walk(sw["b"]):
                if x["k"] == "Bin" and x["op"] == "=" and D.cst(x["y"]) is not None:
                    p = mempath(x["x"])
                    if p and strip(x["x"])["k"] != "Ref":
                        tg.add(".".join(p)); hit = True
    if name.endswith(("Regularization::analyze", "BlockGenerator::BlockGenerator", "MaterialStructuralMechanics::init")):
        tg = set()
    if hit:
        for x in walk(b):
            if x["k"] == "Bin" and x["op"] == "=" and strip(x["y"])["k"] == "Mem":
                p, y = mempath(x["x"]), mempath(x["y"])
                if p and y and strip(x["x"])["k"] != "Ref" and len(p) > 1 and y[0] in ("options", "ecf", "info"):
                    tg.add(".".join(p))
    for t in todo + sorted(tg):
        try:
            res = D.explore(f, t)
        except Exception as e:
            print("ERR", name, t, e); continue
        en = {}
        allk = {}
        for facts, ev in res:
            for k, v in facts:
                allk.setdefault(k, set()).update(v)
        if t is None and not allk:
            continue
        sels = {k: sorted(v) for k, v in allk.items()}
        m = {}
        for combo, o in outcomes(res, sels).items():
            if any(x.split("=")[-1] in FREE for x in combo.split(";")) or any("?" in x for x in o):
                continue
            m[combo] = sorted(o)
        tab["%s#%s" % (name, t or "")] = {"selectors": sels, "map": m}
json.dump(tab, open(H + "/data/dispatch.json", "w"), indent=0, sort_keys=True)
print(len(tab), sum(len(v["map"]) for v in tab.values()))
for k, v in sorted(tab.items()):
    print(k)
    for c, o in sorted(v["map"].items()):
        print("     ", c, "->", o)
