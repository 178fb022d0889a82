"""Proposes data/preconditions.json from the current tree (for review; never run by a check)."""
import sys, os, json, itertools
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, H + "/rules")
import check, p02
ctx = check.Ctx("P02", "quick")
ex, wh, fl, br = p02.extract(ctx)
SZ = ("nrows", "ncols", "size", "order", "nnz", "uplo", "symm", "num_rows", "num_cols")
tab = {}
for k, S in sorted(ex.items()):
    S = [set(s) for s in S]
    if not S:
        continue
    allf = set().union(*S)
    com = set.intersection(*S)
    req = []
    def ok(x):
        if x[0] == "eq":
            return not x[1].startswith("#") or x[2].split(".")[-1] in ("uplo",)
        if x[0] == "t":
            return x[2] is True
        return x[0] == "rel" and not x[1].startswith("#") and not x[3].startswith("#") and not x[1].startswith("$ws") and "max()" not in x
    for x in sorted(com, key=str):
        if ok(x):
            req.append({"fact": list(x)})
    # uplo restricted to a set of values
    ups = {x[2] for x in allf if x[0] == "eq" and x[1].startswith("#") and x[2].endswith(".uplo")}
    for u in sorted(ups):
        vals = [{x[1] for x in s if x[0] == "eq" and x[2] == u and x[1].startswith("#")} for s in S]
        if all(vals) and len(set().union(*vals)) > 1:
            req.append({"fact": ["in", u, sorted(int(v[1:]) for v in set().union(*vals))]})
    lits = [x for x in allf if x[0] == "nn" or (x[0] == "is" and x[1] in ("mode", "called_set_matrix"))]
    for x in sorted(allf - com, key=str):
        if not ok(x) or (x[0] == "eq" and x[1].startswith("#")) or x[0] == "rel":
            continue
        if not any(t in " ".join(map(str, x)) for t in SZ) and x[0] != "t":
            continue
        have = [s for s in S if p02.holds(x, s)]
        for n in (1, 2):
            c = [L for L in itertools.combinations(sorted(lits, key=str), n)
                 if any(set(L) <= s for s in S) and all(p02.holds(x, s) for s in S if set(L) <= s)]
            if c:
                # prefer literals about the operands of the relation
                ops = {p.split(".")[0] for p in str(x[1:]).replace("(", " ").replace("'", " ").replace(",", " ").split()}
                c.sort(key=lambda L: (-sum(l[1] in ops for l in L), str(L)))
                if any(l[1] in ops or l[0] == "is" for l in c[0]):
                    req.append({"fact": list(x), "when": [list(l) for l in c[0]]})
                break
    if req:
        tab[k] = req
json.dump(tab, open(H + "/data/preconditions.json", "w"), indent=0)
print(len(tab), sum(map(len, tab.values())), sum("when" in r for v in tab.values() for r in v))
