#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY> [--tier quick|thorough]

exit 0  the property holds on everything analysed (known findings are printed)
exit 1  VIOLATION property=<id> replay=<file>
exit 2  the analysis itself could not be carried out (no verdict)
"""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rules"))
from facts import Program, AnalysisBroken, REPO, VERIF, prune_cache


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.thorough = pid, tier, tier == "thorough"
        self.obligations = 0
        self.violations, self.counts, self.samples, self.assumptions, self.notes = {}, {}, {}, [], []

    def program(self, *patterns):
        self.P = Program(list(patterns))
        self.counts["translation_units_parsed"] = len(self.P.tus)
        self.counts["functions_loaded"] = len(self.P.functions)
        return self.P

    def violate(self, key, where, msg):
        """key: stable identity (no line numbers); where: file:line; msg: what is broken"""
        self.violations.setdefault(key, {"key": key, "where": where, "message": msg})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, name, item, limit=60):
        l = self.samples.setdefault(name, [])
        if len(l) < limit:
            l.append(item)

    def oblige(self, name, n=1):
        """one proof obligation of the rule (counted as discharged unless a violation is recorded)"""
        self.obligations += n
        self.count(name, n)

    def floor(self, name, minimum):
        """instances confirmed by hand: fewer means the rule lost its subject"""
        if self.counts.get(name, 0) < minimum:
            raise AnalysisBroken("only %d instances of '%s' found, at least %d expected" % (self.counts.get(name, 0), name, minimum))


def known(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln:
                d = json.loads(ln)
                if d.get("property") == pid and d.get("status") == "known":
                    out[d["key"]] = d
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module(a.property.lower())
    ctx = Ctx(a.property, a.tier)
    ev = os.path.join(HERE, "evidence", a.property + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        mod.run(ctx)
    except AnalysisBroken as e:
        # a violation already established stands even if a later part lost its subject
        print("ANALYSIS-INCOMPLETE property=%s %s" % (a.property, e))
        if not ctx.violations:
            print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
            return 2
    kn = known(a.property)
    new = [v for k, v in sorted(ctx.violations.items()) if k not in kn]
    old = [kn[k] for k in sorted(ctx.violations) if k in kn]
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    doc = {
        "property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": mod.EXPLANATION.strip(),
            "rule": getattr(mod, "RULE", "").strip(),
            "counts": ctx.counts,
            "obligations": ctx.obligations, "discharged": ctx.obligations - len(ctx.violations),
            "samples": [{"kind": k, "item": x} for k, v in sorted(ctx.samples.items()) for x in v],
            "known_findings_reported": [k["key"] for k in old],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
        "violations": len(new),
    }
    rc = 0
    if new:
        rep = os.path.join(HERE, "evidence", a.property + ".violations.json")
        with open(rep, "w") as f:
            json.dump(new, f, indent=1)
        doc["coverage"]["violations"] = [v["where"] + ": " + v["message"] for v in new]
        for v in new:
            print("%s: %s  [%s]" % (v["where"], v["message"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (a.property, rep))
        rc = 1
    else:
        print("OK property=%s %s (%.1fs)" % (a.property, json.dumps(ctx.counts), time.time() - t0))
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("ANALYSIS-BROKEN internal error")
        sys.exit(2)
