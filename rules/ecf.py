"""Shared model of the configuration registry: which keyword is bound to which
member, with which option list and which default."""
from facts import walk, text, strip, val, kids

BASE = "espreso::ECFDescription"


def config_classes(P):
    der = {BASE}
    changed = True
    while changed:
        changed = False
        for q, rs in P.records.items():
            if q in der:
                continue
            for r in rs:
                if any(b.split("<")[0] in der for b in r["bases"]):
                    der.add(q)
                    changed = True
    return der


def literals(n):
    return [y["v"] for y in walk(n) if y["k"] == "Str"]


class Reg:
    __slots__ = ("func", "call", "cls", "name", "namenode", "target", "tnode", "type", "options", "datatypes", "where", "unresolved")


def local_init(f, ref):
    """initialiser of a local variable referenced by `ref`"""
    for n in walk(f.b):
        if n["k"] == "Var" and n.get("id") == ref.get("id"):
            return n
    return None


def chain_calls(f, md):
    """member calls applied to the metadata expression in evaluation order"""
    out = []

    def rec(n):
        n = strip(n)
        if n is None:
            return
        if n["k"] == "Call" and n.get("o") is not None:
            rec(n["o"])
            out.append(n)
        elif n["k"] == "Ctor" and len(n["a"]) == 1:
            rec(n["a"][0])
        elif n["k"] == "Ref" and n.get("d") == "v":
            v = local_init(f, n)
            if v is not None and v.get("i"):
                rec(v["i"])
            # later calls on the variable, in source order
            for c in walk(f.b):
                if c["k"] == "Call" and c.get("o") is not None and c["o"]["k"] == "Ref" and c["o"].get("id") == n.get("id"):
                    out.append(c)
    rec(md)
    return out


def registrations(P):
    regs = []
    for f in P.functions:
        if f.tm == "pat":
            continue
        for c in walk(f.b):
            if not (c["k"] == "Call" and c.get("n") == "registerParameter" and c.get("q", "").startswith("espreso::ECFObject")):
                continue
            if len(c["a"]) < 3:
                continue
            sig = f.T[c["sig"]]
            second = sig[sig.index("(") + 1:].split(", ", 1)[1] if ", " in sig else ""
            if second.startswith("espreso::ECFParameter *"):
                continue
            r = Reg()
            r.func, r.call, r.cls = f, c, f.cls or f.q
            r.namenode = c["a"][0]
            lit = literals(r.namenode)
            dyn = [x for x in walk(r.namenode) if x["k"] in ("Ref", "Mem") and x.get("d") != "f" and "basic_string" in f.t(x) ]
            r.name = lit[0] if len(lit) == 1 and not dyn else None
            r.tnode = strip(c["a"][1])
            r.target = text(r.tnode)
            r.type = f.t(r.tnode)
            r.where = f.where(c)
            r.options, r.datatypes, r.unresolved = [], [], False
            for m in chain_calls(f, c["a"][2]):
                if m.get("n") == "addoption":
                    nm = [x for x in walk(m["a"][0]) if x["k"] == "Call" and x.get("n") == "setname"]
                    if len(nm) == 1 and len(literals(nm[0]["a"][0])) == 1:
                        r.options.append(literals(nm[0]["a"][0])[0])
                    else:
                        r.unresolved = True
                elif m.get("n") == "setdatatype":
                    r.datatypes = [x["n"] for x in walk(m["a"][0]) if x["k"] == "Ref" and x.get("d") == "e" and "ECFDataType" in x.get("q", "")]
            regs.append(r)
    return regs


def norm(s):
    return "".join(ch for ch in s.upper() if ch.isalnum())
