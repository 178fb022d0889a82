"""M01  A message carries exactly the data that is sent: datatype, count, tag and completion agree."""
from facts import walk, strip, text, val
from flow import Flow, FactClient
from mpi import *

EXPLANATION = """
Every call of an MPI transfer (point-to-point, collective, file) and of the void* wrappers of espreso::Communication in all instantiated code: the element type of the buffer
is compared with the datatype, the count with the unit of the datatype; the table MPITools::getType is compared with the C types; in every function with point-to-point
messages the tags, communicators, probe/count/receive triples, request numbers and completion on all paths are checked; every type transferred as raw bytes is searched
for pointers and containers.
"""
RULE = """
datatype of a buffer of T = the MPI type of T, or bytes with the count multiplied by sizeof(T); MPITools::getType<T> maps T to the MPI type of T; a probed message is received
from the probed source, tag and communicator with the probed count into a buffer resized to it; sends and receives of one function use the same tag; every request is
completed on every path and every posted request is counted; messages probed from any source are separated from those of the next call by a collective.
"""
ASSUMPTIONS = ["MPI implementation is conforming", "buffers given as void* parameters are checked at the callers"]


def element_type(f, e):
    e = strip(e)
    while e is not None and e["k"] == "Cast":
        e = strip(e["e"])
    return pointee(f.t(e)) if e is not None else None


class Types:
    def __init__(self, P):
        self.P = P
        self.blob = {}      # text of a datatype variable -> sizeof type
        for f in P.functions:
            if f.tm == "pat" or not f.b:
                continue
            for x in walk(f.b):
                if name(x) == "MPI_Type_contiguous":
                    c, t, o = strip(x["a"][0]), predefined(x["a"][1]), strip(x["a"][2])
                    if t == "byte" and o["k"] == "Un" and o["op"] == "&":
                        key = self.key(f, strip(o["e"]))
                        self.blob[key] = c.get("at") if c["k"] == "Sizeof" else None
                        if isinstance(self.blob[key], int):
                            self.blob[key] = f.T[self.blob[key]]

    def key(self, f, e):
        e = strip(e)
        if e["k"] == "Mem":
            return ("m", e["n"])
        return ("v", f.f, f.q, e.get("n")) if e.get("d") in ("v", "p") else ("g", e.get("q"))

    def datatype(self, f, e, loc):
        """('native', ctype) ('byte',) ('espreso', T, text of MPIType) ('blob', T) or None"""
        p = predefined(e)
        if p == "byte":
            return ("byte",)
        if p:
            return ("native", p) if p != "?" else None
        e = loc.resolve(e)
        p = predefined(e)
        if p:
            return ("byte",) if p == "byte" else ("native", p) if p != "?" else None
        if e["k"] == "Mem" and e["n"] == "mpitype":
            b = loc.resolve(e["b"])
            if b["k"] == "Call" and b.get("n") == "getType":
                t = b.get("ta")
                if t:
                    return ("espreso", unconst(t[1:-1].strip()), text(strip(e["b"])))
            return None
        t = self.blob.get(self.key(f, e))
        return ("blob", unconst(t)) if t else None


def getType_table(ctx, P):
    n = 0
    native = set()
    for f in P.fn("espreso::MPITools::getType"):
        if f.tm == "pat" or f.p or not f.cta:
            continue
        T = unconst(f.cta[1:-1])
        loc = Locals(f)
        for x in walk(f.b):
            if x["k"] == "Ctor" and x.get("q") == "espreso::MPIType::MPIType" and not (x.get("cp") or x.get("mv")):
                p = predefined(x["a"][0])
                size = x["a"][1] if len(x["a"]) > 1 else None
                n += 1
                ctx.oblige("getType_entries")
                if p == "byte":
                    s = strip(size) if size else None
                    at = s.get("at") if s is not None and s["k"] == "Sizeof" else None
                    at = f.T[at] if isinstance(at, int) else at
                    if s is None or (s["k"] == "Sizeof" and unconst(at or "") != T and NATIVE.get(T, (None,))[0] != val(s)):
                        ctx.violate("getType<%s>" % T, f.where(x), "MPITools::getType<%s> describes the type by %s bytes" % (T, text(size) if size else "1"))
                elif p and p != "?":
                    native.add(T)
                    if NATIVE.get(T) != NATIVE.get(p):
                        ctx.violate("getType<%s>" % T, f.where(x), "MPITools::getType<%s> returns the MPI type of %s" % (T, p))
    ctx.floor("getType_entries", 10)
    return native


def travels(P, T, seen=()):
    """field of T that makes no sense in another process, or None"""
    T = unconst(T)
    if T in NATIVE or T in seen:
        return None
    if T.endswith("*") or T.endswith("&"):
        return "a pointer"
    for c in ("std::vector<", "std::basic_string<", "std::map<", "std::set<", "std::unordered_map<", "std::list<", "std::deque<", "std::shared_ptr<", "std::unique_ptr<", "std::function<"):
        if T.startswith(c):
            return T.split("<")[0]
    if T.startswith("std::pair<"):
        inner = T[len("std::pair<"):-1]
        d, parts, cur = 0, [], ""
        for ch in inner:
            d += ch in "<(" ; d -= ch in ">)"
            if ch == "," and d == 0:
                parts.append(cur); cur = ""
            else:
                cur += ch
        for p in parts + [cur]:
            r = travels(P, p.strip(), seen + (T,))
            if r:
                return r
        return None
    base, ta = T.split("<")[0], T[len(T.split("<")[0]):]
    for r in P.records.get(base, []) + P.records.get(T, []):
        if ta and r.get("ta") and r["ta"] != ta:
            continue
        for fl in r.get("fields", r.get("m", [])):
            t = fl.get("t")
            t = r["T"][t] if isinstance(t, int) else t
            if not t or fl.get("st"):
                continue
            x = travels(P, t.split("[")[0], seen + (T,))
            if x:
                return x
    return None


def check_types(ctx, P, TY, native, f, x, nm):
    loc = Locals(f)
    if nm.startswith("espreso") and (len(x["a"]) < 4 if "broadcast" not in nm else len(x["a"]) < 3):
        return
    for b, c, t in TRANSFER[nm]:
        if max(b, t) >= len(x["a"]):
            return
        if "ompi_datatype_t" not in f.t(x["a"][t]):
            return
        buf = strip(x["a"][b])
        if buf is None or buf["k"] in ("Nul", "Int") or val(buf) is not None:
            continue
        T = element_type(f, buf)
        D = TY.datatype(f, x["a"][t], loc)
        if T is None or T == "void" or D is None:
            ctx.count("passed_through")
            continue
        ctx.oblige("typed_transfers")
        who = "%s in %s" % (nm.split("::")[-1], f.q)
        key = "%s:%s:%s" % (f.q, nm.split("::")[-1], text(buf))
        cnt = x["a"][c] if c is not None else None
        fs = factors(cnt, loc) if cnt is not None else []
        sizeofs = [y for y in fs if y["k"] == "Sizeof"]
        bytewise = False
        if D[0] == "espreso":
            U = D[1]
            ok = U == T or (U in native and NATIVE.get(U) == NATIVE.get(T))
            if not ok and (U in NATIVE) and (T in NATIVE):
                ctx.violate(key, f.where(x), "%s transfers a buffer of %s as %s" % (who, T, U))
                continue
            if not ok and not (U in NATIVE or T in NATIVE):
                ctx.violate(key, f.where(x), "%s transfers a buffer of %s as %s" % (who, T, U))
                continue
            if not ok:
                ctx.count("undecided")
                continue
            bytewise = U not in native
            ctx.sample("transfer", "%s %s as getType<%s>" % (who, T, U))
        elif D[0] == "native":
            if T in NATIVE:
                if NATIVE[T] != NATIVE[D[1]]:
                    ctx.violate(key, f.where(x), "%s transfers a buffer of %s as %s" % (who, T, D[1]))
            else:
                ctx.count("undecided")
            continue
        elif D[0] == "blob":
            if T != D[1] and not T.endswith("::" + D[1]) and not D[1].endswith("::" + T):
                if T in NATIVE or D[1] in NATIVE:
                    ctx.count("undecided")
                else:
                    ctx.violate(key, f.where(x), "%s transfers a buffer of %s as blocks of the size of %s" % (who, T, D[1]))
            continue
        else:
            bytewise = True
        if not bytewise or cnt is None:
            continue
        if D[0] == "byte" and NATIVE.get(T, (0,))[0] == 1:
            continue
        # the count is in bytes
        good = False
        for y in fs:
            if y["k"] == "Sizeof":
                at = y.get("at")
                at = unconst(f.T[at] if isinstance(at, int) else (at or ""))
                if at == T or (T in NATIVE and val(y) == NATIVE[T][0]) or at.endswith("::" + T) or T.endswith("::" + at):
                    good = True
                elif at in NATIVE and T in NATIVE and NATIVE[at][0] != NATIVE[T][0]:
                    ctx.violate(key, f.where(x), "%s transfers a buffer of %s in units of %s" % (who, T, at))
                    good = True
                else:
                    good = good or None
            elif y["k"] == "Mem" and y["n"] == "mpisize":
                b = loc.resolve(y["b"])
                good = True if (b["k"] == "Call" and b.get("ta") and (D[0] != "espreso" or unconst(b["ta"][1:-1].strip()) == D[1])) else (good or None)
            elif y["k"] == "Ref" and y.get("d") in ("v", "p") or y["k"] in ("OpCall", "Idx", "Bin", "Cond", "Mem"):
                good = good or None        # computed elsewhere
            elif y["k"] == "Call" and y.get("n") not in ("size",):
                good = good or None
        if good is False:
            ctx.violate(key, f.where(x), "%s transfers a buffer of %s by bytes but the count '%s' is not multiplied by the size of the type" % (who, T, text(cnt)))
        if good is None:
            ctx.count("undecided")


class Done(FactClient):
    """requests completed, any-source probes separated, on every path"""
    inline_lambdas = True

    def __init__(self, P):
        super().__init__(P)
        self.coll = {}

    def collective(self, d, depth=4):
        k = (d.f, d.l)
        if k not in self.coll:
            self.coll[k] = False
            for y in walk(d.b):
                if y["k"] == "Call":
                    if name(y) in COLLECTIVE:
                        self.coll[k] = True
                        break
                    g = self.definition(y)
                    if depth and g and g.b and "Communication" in (g.cls or "") and self.collective(g, depth - 1):
                        self.coll[k] = True
                        break
        return self.coll[k]

    def inline(self, call, func):
        if func.f.startswith("src/wrappers/mpi") and any(name(y) in PEER or name(y) in ("MPI_Waitall", "MPI_Wait") for y in walk(func.b)):
            return not self.collective(func)
        return False

    def expr(self, n, s):
        nm = name(n)
        if nm in ("MPI_Isend", "MPI_Irecv", "MPI_Issend"):
            r = strip(n["a"][6])
            return (s | {("req", self.reqname(r))},)
        if nm in ("MPI_Waitall", "MPI_Waitany", "MPI_Waitsome", "MPI_Testall"):
            k = self.reqname(strip(n["a"][1]))
            return (frozenset(z for z in s if z != ("req", k)),)
        if nm in ("MPI_Wait", "MPI_Test", "MPI_Request_free"):
            k = self.reqname(strip(n["a"][0]))
            return (frozenset(z for z in s if z != ("req", k)),)
        if nm in PROBE and val(strip(n["a"][0])) == -1:
            return (s | {("any",)},)
        if nm in COLLECTIVE or (n["k"] == "Call" and nm and nm.startswith("espreso::Communication::") and self.definition(n) and self.collective(self.definition(n))):
            return (frozenset(z for z in s if z[0] != "any"),)
        return (s,)

    def reqname(self, e):
        """variable holding the requests"""
        for y in walk(e):
            if y["k"] in ("Ref", "Mem") and y.get("d") != "f":
                return y["n"] if y["k"] == "Ref" else text(y)
        return text(e)


def loop_bounds(n, path=()):
    """yield (call, enclosing loops, branch path)"""
    if n is None:
        return
    if n["k"] in ("For", "While", "Range", "Do"):
        b = None
        if n["k"] == "For" and n.get("e") is not None:
            e = strip(n["e"])
            if e["k"] == "Bin" and e["op"] in ("<", "!="):
                b = text(strip(e["y"]))
                init = n.get("init")
                st = None
                for y in walk(init) if init else ():
                    if y["k"] == "Var" and y.get("i") is not None:
                        st = val(strip(y["i"])) if st is None else st
                if st != 0:
                    b = None
        elif n["k"] == "Range":
            b = text(strip(n["e"])) + ".size()"
        for c in kids(n):
            yield from loop_bounds(c, path + (("loop", b, id(n)),) if c is n.get("b") else path)
        return
    if n["k"] == "If":
        for i, c in enumerate((n.get("th"), n.get("el"))):
            if c:
                yield from loop_bounds(c, path + (("if", id(n), i),))
        return
    if n["k"] == "Call":
        yield n, path
    for c in kids(n):
        yield from loop_bounds(c, path)


def exclusive(a, b):
    for x in a:
        for y in b:
            if x[0] == "if" and y[0] == "if" and x[1] == y[1] and x[2] != y[2]:
                return True
    return False


def check_requests(ctx, f):
    posts, waits = [], []
    for x, path in loop_bounds(f.b):
        nm = name(x)
        if nm in ("MPI_Isend", "MPI_Irecv", "MPI_Issend"):
            posts.append((x, path))
        elif nm == "MPI_Waitall":
            waits.append((x, path))
    if not posts:
        return
    loc = Locals(f)
    slots = {}
    for x, path in posts:
        e = text(strip(x["a"][6]))
        for e2, p2, x2 in slots.get(e, []):
            if exclusive(path, p2):
                continue
            # the same slot of the same loop variable: a request is lost unless completed in between
            ref = [y for y in walk(x["a"][6]) if y["k"] == "Ref" and y.get("d") == "v"]
            ref2 = [y for y in walk(x2["a"][6]) if y["k"] == "Ref" and y.get("d") == "v"]
            if any(loc.writes.get(y.get("id"), 0) > 1 for y in ref + ref2):
                continue
            if any(y.get("post") is not None or y["op"] in ("++", "--") for y in walk(x["a"][6]) if y["k"] == "Un"):
                continue
            order = [z for z, _ in loop_bounds(f.b)]
            i, j = sorted((next(k for k, z in enumerate(order) if z is x), next(k for k, z in enumerate(order) if z is x2)))
            if any(name(z) in ("MPI_Waitall", "MPI_Wait") for z in order[i:j]):
                continue
            if any(p[0] == "if" and p not in p2 for p in path) or any(p[0] == "if" and p not in path for p in p2):
                continue        # the conditions may exclude each other
            ctx.violate("%s:slot:%s" % (f.q, e), f.where(x), "%s stores two requests at %s: the first one is never completed" % (f.q, e))
        slots.setdefault(e, []).append((e, path, x))
    ctx.oblige("request_posts", len(posts))
    for w, wp in waits:
        if any(p[0] == "loop" for p in wp):
            continue
        base = text(strip(w["a"][1]))
        per = {}
        for x, path in posts:
            loops = [p for p in path if p[0] == "loop"]
            if len(loops) != 1 or loops[0][1] is None:
                per = None
                break
            ifs = tuple(p for p in path if p[0] == "if" and p not in wp)
            per.setdefault(loops[0][1], []).append((path, ifs))
        if not per or len(per) != 1:
            ctx.count("undecided")
            continue
        bound, ps = next(iter(per.items()))
        # most posts per iteration
        need = 0
        for path, ifs in ps:
            if not ifs:
                need += 1
        cond = [p for p, ifs in ps if ifs]
        if cond:
            need += 1 if need == 0 else 0
        fs = factors(w["a"][0], loc)
        k, rest = 1, []
        for y in fs:
            if val(y) is not None:
                k *= val(y)
            else:
                rest.append(text(y))
        if rest == [bound]:
            ctx.oblige("wait_counts")
            if k < need:
                ctx.violate("%s:waitcount" % f.q, f.where(w), "%s waits for %s of %d*%s posted requests" % (f.q, text(w["a"][0]), need, bound))
        else:
            ctx.count("undecided")


def rank_guard(f, x, cond, truth):
    """'<' or '>' when the guard compares the peer with the own rank"""
    peer = text(strip(x["a"][3]))
    c = strip(cond)
    if c["k"] == "Bin" and c["op"] == "&&" and truth:
        return rank_guard(f, x, c["x"], truth) or rank_guard(f, x, c["y"], truth)
    if c["k"] == "Un" and c["op"] == "!":
        return rank_guard(f, x, c["e"], not truth)
    if c["k"] != "Bin" or c["op"] not in ("<", ">", "<=", ">="):
        return None
    a, b, op = text(strip(c["x"])), text(strip(c["y"])), c["op"][0]
    if not truth:
        op = {"<": ">", ">": "<"}[op]
    if a == peer and b.endswith("rank"):
        return op
    if b == peer and a.endswith("rank"):
        return {"<": ">", ">": "<"}[op]
    return None


def offset(e):
    """c of a peer 'rank + c'"""
    e = strip(e)
    if e["k"] == "Bin" and e["op"] in ("+", "-") and text(strip(e["x"])).endswith("rank") and val(strip(e["y"])) is not None:
        return val(strip(e["y"])) * (1 if e["op"] == "+" else -1)
    return None


def check_mirror(ctx, f):
    """who is sent to and who is received from are mirror images"""
    send, recv, so, ro = {}, {}, {}, {}

    def rec(n, gs):
        if n is None:
            return
        if n["k"] == "If":
            rec(n.get("th"), gs + [(n["e"], True)])
            rec(n.get("el"), gs + [(n["e"], False)])
            return
        if n["k"] in ("For", "While") and n.get("e") is not None:
            for c in kids(n):
                rec(c, gs + [(n["e"], True)] if c is n.get("b") else gs)
            return
        nm = name(n)
        if nm in SEND or nm in RECV:
            g = [r for r in (rank_guard(f, n, c, t) for c, t in gs) if r]
            (send if nm in SEND else recv).setdefault(g[0] if g else None, n)
            (so if nm in SEND else ro).setdefault(offset(n["a"][3]), n)
        for c in kids(n):
            rec(c, gs)

    rec(f.b, [])
    if send and recv and None not in send and None not in recv:
        ctx.oblige("mirrored_peers")
        if {"<": ">", ">": "<"}[sorted(send)[0]] not in recv and len(send) == 1 and len(recv) == 1:
            ctx.violate("%s:mirror" % f.q, f.where(next(iter(recv.values()))), "%s sends to the processes with rank %s own and receives from the processes with rank %s own: nobody sends to the receiver"
                        % (f.q, sorted(send)[0], sorted(recv)[0]))
    if so and ro and None not in so and None not in ro:
        ctx.oblige("mirrored_peers")
        if set(so) != {-c for c in ro}:
            ctx.violate("%s:mirror" % f.q, f.where(next(iter(ro.values()))), "%s sends to rank%+d and receives from rank%+d" % (f.q, sorted(so)[0], sorted(ro)[0]))


def check_protocol(ctx, f):
    tags_s, tags_r, tags_w = {}, {}, None
    probe, count, resized = None, {}, {}
    loc = Locals(f)
    grp = [p for p in f.p if "MPIGroup" in (f.T[p["t"]] if isinstance(p.get("t"), int) else str(p.get("t")))]
    for x in walk(f.b):
        nm = name(x)
        if nm in COMM and grp and COMM[nm] < len(x["a"]):
            c = text(strip(x["a"][COMM[nm]]))
            ctx.oblige("communicators")
            if "info::mpi" in c:
                ctx.violate("%s:%s:comm" % (f.q, nm), f.where(x), "%s communicates on %s instead of the given group" % (f.q, c))
        if nm in PEER:
            src, tag, comm = (x["a"][i] for i in PEER[nm])
            t, c = text(loc.resolve(tag)), text(strip(comm))
            (tags_s if nm in SEND else tags_r).setdefault(c, {}).setdefault(t, x)
        if nm in PROBE:
            st = strip(x["a"][3 if nm == "MPI_Probe" else 4])
            probe = (text(strip(x["a"][0])), text(loc.resolve(x["a"][1])), text(strip(x["a"][2])), text(st).lstrip("&"), val(strip(x["a"][0])) == -1)
            resized = {}
        elif nm == "MPI_Get_count":
            st = text(strip(x["a"][0])).lstrip("&")
            cv = strip(x["a"][2])
            cv = strip(cv["e"]) if cv["k"] == "Un" else cv
            count[text(cv)] = (st, text(strip(x["a"][1])), probe)
        elif x["k"] == "Call" and x.get("n") == "resize" and x.get("o") is not None and x["a"]:
            resized[text(strip(x["o"]))] = text(x["a"][0])
        elif x["k"] == "Call" and x.get("n") == "emplace_back" and x.get("o") is not None:
            resized[text(strip(x["o"])) + ".back()"] = ",".join(text(a) for a in x["a"])
        elif x["k"] == "Call" and x.get("n") == "push_back" and x.get("o") is not None:
            resized[text(strip(x["o"])) + ".back()"] = ",".join(text(a) for a in x["a"])
        elif x["k"] == "Var" and x.get("i") is not None and strip(x["i"])["k"] == "Ctor" and "std::vector" in f.t(x):
            resized[x["n"]] = text(strip(x["i"]))
        elif nm == "MPI_Recv":
            cnt = loc.resolve(x["a"][1])
            if cnt["k"] != "Ref" or text(cnt) not in count:
                continue
            st, ty, pr = count[text(cnt)]
            if pr is None or pr[3] != st:
                continue
            ctx.oblige("probed_receives")
            src, tag, comm = text(strip(x["a"][3])), text(loc.resolve(x["a"][4])), text(strip(x["a"][5]))
            k = "%s:probed" % f.q
            if src != st + ".MPI_SOURCE" and (pr[4] or src != pr[0]):
                ctx.violate(k, f.where(x), "%s receives from '%s' the message probed from '%s'" % (f.q, src, pr[0]))
            if tag not in (pr[1], st + ".MPI_TAG"):
                ctx.violate(k, f.where(x), "%s probes tag %s and receives tag %s" % (f.q, pr[1], tag))
            if comm != pr[2]:
                ctx.violate(k, f.where(x), "%s probes on %s and receives on %s" % (f.q, pr[2], comm))
            if text(strip(x["a"][2])) != ty:
                ctx.violate(k, f.where(x), "%s counts the message in %s and receives it as %s" % (f.q, ty, text(strip(x["a"][2]))))
            b = strip(x["a"][0])
            off = None
            if b["k"] == "Bin" and b["op"] == "+":
                off, b = text(b["y"]), strip(b["x"])
            if b["k"] == "Call" and b.get("n") == "data" and b.get("o") is not None:
                o = text(strip(b["o"]))
                r = resized.get(o)
                if r is not None:
                    ctx.oblige("receive_buffers")
                    if text(cnt) not in r:
                        ctx.violate("%s:buffer" % f.q, f.where(x), "%s receives %s items into '%s' resized to %s" % (f.q, text(cnt), o, r))
                elif not off and o not in resized and not any(z["k"] == "Call" and z.get("n") in ("reserve", "assign", "insert", "swap") for z in walk(f.b)):
                    ctx.oblige("receive_buffers")
                    ctx.violate("%s:buffer" % f.q, f.where(x), "%s receives %s items into '%s' that was not resized after the probe" % (f.q, text(cnt), o))
    for c in tags_s:
        if c in tags_r:
            ctx.oblige("tag_pairs")
            for t, x in tags_s[c].items():
                if t not in tags_r[c]:
                    ctx.violate("%s:tag:%s" % (f.q, t), f.where(x), "%s sends with tag %s but receives with %s" % (f.q, t, ", ".join(sorted(tags_r[c]))))
            for t, x in tags_r[c].items():
                if t not in tags_s[c]:
                    ctx.violate("%s:tag:%s" % (f.q, t), f.where(x), "%s receives with tag %s but sends with %s" % (f.q, t, ", ".join(sorted(tags_s[c]))))


def run(ctx):
    P = ctx.program("src/*")
    native = getType_table(ctx, P)
    TY = Types(P)
    raw = {}
    D = Done(P)
    for f in P.functions:
        if f.tm == "pat" or not f.b:
            continue
        p2p = False
        for x in walk(f.b):
            if x["k"] != "Call":
                continue
            nm = name(x)
            if nm in TRANSFER:
                check_types(ctx, P, TY, native, f, x, nm)
            if nm in PEER:
                p2p = True
            if x.get("n") == "getType" and x.get("ta") and "MPITools" in (x.get("q") or ""):
                raw.setdefault(unconst(x["ta"][1:-1].strip()), f.where(x))
        if p2p:
            ctx.count("functions_with_messages")
            check_requests(ctx, f)
            check_protocol(ctx, f)
            check_mirror(ctx, f)
            for s in Flow(D).run(f, [frozenset()]):
                for z in s:
                    if z[0] == "req":
                        ctx.violate("%s:incomplete" % f.q, f.where(), "%s returns on some path without completing the requests in '%s'" % (f.q, z[1]))
                    if z[0] == "any":
                        ctx.violate("%s:anysource" % f.q, f.where(), "%s probes messages from any source and returns without a collective: it can take a message of the next call" % f.q)
            ctx.oblige("completion")
    for T, where in sorted(raw.items()):
        ctx.oblige("transferred_types")
        t = travels(P, T)
        if t:
            ctx.violate("type:%s" % T, where, "objects of type %s are sent as raw bytes but contain %s" % (T, t))
    ctx.floor("typed_transfers", 100)
    ctx.floor("functions_with_messages", 15)
