"""S01: what a packed object writes is exactly what its size announces and its reader reads."""
import re
from facts import walk, kids, text, strip, val, AnalysisBroken
import flow

EXPLANATION = """
Static protocol comparison. For every serialisable class (and the generic helpers they are built from) the
three functions of a protocol - size, writer, reader - are reduced to a regular expression over stream items
(member fields, nested objects, counters, raw copies; loops and conditions kept, helpers of the same class
inlined). Writer and reader must produce the same item sequence with the same types and the same members; the
size must contain every item the writer emits under a condition that is not stronger; every raw copy must be
followed by an advance of the cursor by exactly the copied amount; and the members transferred by each
protocol must be at least those confirmed by review of the pinned tree.
"""
RULE = "tokens(writer) == tokens(reader); bag(size) >= bag(writer); copy n bytes => advance n bytes; required members present"
ASSUMPTIONS = ["both sides of a transfer run the same binary", "a serialised local of the reader is used for the item it was read from"]

def norm_type(t):
    t = re.sub(r"\bconst\b", "", t).replace("&", "").replace("  ", " ").strip()
    return t.replace(" *", "*").strip()


SIZES = {"bool": 1, "char": 1, "int": 4, "unsigned int": 4, "float": 4, "double": 8, "unsigned long": 8, "long": 8, "size_t": 8}


class Item:
    def __init__(self, kind, what, typ, line, conds, loops, arg=None):
        self.kind, self.what, self.typ, self.line, self.conds, self.loops, self.arg = kind, what, typ, line, tuple(conds), tuple(loops), arg
        self.obj = ""

    def __repr__(self):
        return "%s(%s:%s)%s%s" % (self.kind, self.what, self.typ, list(self.conds) or "", list(self.loops) or "")


def norm_path(s):
    s = s.replace("this.", "")
    return re.sub(r"\[[^\[\]]*\]", "[*]", s)


def is_cursor_t(t):
    return norm_type(t) in ("char*",)


class Extract:
    """items of one protocol function"""

    def __init__(self, P, f, mode):
        self.P, self.f, self.mode = P, f, mode
        self.items, self.problems = [], []
        self.c = flow.Client(P)
        self.depth = 0
        self.locals = {}
        self.aliases = {}
        self.cnt = 0
        self.seen = {f.q}

    # -- classification of an argument
    def field(self, a, conds, loops, node):
        a = strip(a)
        if a["k"] == "Un" and a["op"] == "&":
            a = strip(a["e"])
        t = norm_type(self.f.t(a))
        if a["k"] == "Mem" or (a["k"] in ("OpCall", "Idx") and self.root(a)) or (a["k"] == "Un" and a["op"] == "*" and strip(a["e"])["k"] == "Mem"):
            r = self.root(a)
            if r:
                return Item("F", norm_path(text(a)), t, self.f.where(node), conds, loops, text(a))
        if a["k"] == "Ref" and a.get("d") == "p":
            return Item("F", "#arg" if not a["n"].startswith("other") else a["n"], t, self.f.where(node), conds, loops, text(a))
        if a["k"] == "OpCall" and strip(a["a"][0]).get("d") == "p":
            return Item("F", "#arg[*]", t, self.f.where(node), conds, loops, text(a))
        return Item("L", "#", t, self.f.where(node), conds, loops, text(a))

    def root(self, a):
        while a:
            a = strip(a)
            if a["k"] == "Mem":
                b = strip(a["b"])
                if b["k"] == "This":
                    return True
                a = b
            elif a["k"] == "Idx":
                a = a["b"]
            elif a["k"] == "OpCall" and a["op"] in ("[]", "->", "*"):
                a = a["a"][0]
            else:
                return False
        return False

    def run(self):
        for i in self.f.init:
            if i.get("e"):
                self.stm(i["e"], [], [])
        self.stm(self.f.b, [], [])
        return self

    def emit(self, it, nm=""):
        it.dir = "w" if nm.startswith("pack") else "r"
        self.items.append(it)

    # -- statements
    def stm(self, n, conds, loops):
        if not n:
            return
        k = n["k"]
        if k == "Block":
            cs = n["c"]
            i = 0
            for i, c in enumerate(cs):
                self.stm(c, conds, loops)
                if c["k"] == "If" and not c.get("el") and self.exits(c["th"]):
                    # early return: the rest runs under the negated condition
                    conds = conds + [self.condtext(c["e"], True)]
            return
        if k == "If":
            self.expr(n["e"], conds, loops)
            ct = self.condtext(n["e"])
            self.stm(n["th"], conds + [ct], loops)
            if n.get("el"):
                self.stm(n["el"], conds + [self.condtext(n["e"], True)], loops)
            return
        if k in ("For", "While", "Do", "Range"):
            if k == "Range":
                b = norm_path(text(n["e"]))
                b = self.aliases.get(b, b)
                lid = b
                if n.get("var"):
                    self.aliases[n["var"]["n"]] = b + "[*]"
            else:
                b = ""
                if n.get("init"):
                    self.stm(n["init"], conds, loops)
                if n.get("e"):
                    e = strip(n["e"])
                    if e["k"] == "Bin" and e["op"] in ("<", "!="):
                        b = text(e["y"])
                lid = norm_path(re.sub(r"\.(size|end)\(\)$", "", b))
            self.stm(n["b"], conds, loops + [lid])
            return
        if k == "Decl":
            for v in n["c"]:
                if v.get("i"):
                    if self.mode == "size" and "int" not in norm_type(self.f.t(v)) and "long" not in norm_type(self.f.t(v)):
                        continue
                    if self.mode == "size":
                        self.sizeexpr(v["i"], conds, loops)
                    else:
                        self.expr(v["i"], conds, loops)
            return
        if k == "Return":
            if n.get("e"):
                if self.mode == "size":
                    self.sizeexpr(n["e"], conds, loops)
                else:
                    self.expr(n["e"], conds, loops)
            return
        if k == "OMP":
            self.stm(n["b"], conds, loops)
            return
        if k == "Try":
            self.stm(n["b"], conds, loops)
            return
        if self.mode == "size":
            s = n
            if s["k"] == "Bin" and s["op"] in ("+=", "="):
                y = s["y"]
                self.sizeexpr(y, conds, loops)
            return
        self.expr(n, conds, loops)

    def exits(self, n):
        if n["k"] == "Block":
            return bool(n["c"]) and self.exits(n["c"][-1])
        return n["k"] in ("Return", "Continue", "Break")

    def condtext(self, e, neg=False):
        e = strip(e)
        while e["k"] == "Un" and e["op"] == "!":
            neg = not neg
            e = strip(e["e"])
        if e["k"] == "Bin" and e["op"] in ("!=", "==", ">") and (val(e["y"]) == 0 or strip(e["y"])["k"] == "Nul" or text(e["y"]) in ("nullptr", "0")):
            if e["op"] == "==":
                neg = not neg
            e = strip(e["x"])
        if e["k"] == "Call" and e.get("n") == "empty":
            neg = not neg
            return ("!" if neg else "") + norm_path(text(e["o"])) + ".size()"
        t = norm_path(text(e))
        for a, b in self.aliases.items():
            t = re.sub(r"^%s\b" % re.escape(a), b, t)
        return ("!" if neg else "") + t

    # -- expressions of writers and readers
    def cursor_arg(self, n):
        for a in n.get("a", []):
            s = strip(a)
            if s["k"] in ("Ref", "Mem") and is_cursor_t(self.f.t(s)):
                return s
        return None

    def expr(self, n, conds, loops):
        if not n:
            return
        k = n["k"]
        if k == "Lambda":
            return
        for c in kids(n):
            self.expr(c, conds, loops)
        if k == "Ctor" or k == "New":
            if k == "Ctor" and self.cursor_arg(n) is not None:
                cls = n.get("q", "").split("::")[-2] if "::" in n.get("q", "") else n.get("q", "")
                if "basic_string" in n.get("q", ""):
                    self.emit(Item("R", self.bytes(n["a"][1]) if len(n["a"]) > 1 else "?", "", self.f.where(n), conds, loops, text(n["a"][1]) if len(n["a"]) > 1 else ""))
                else:
                    self.emit(Item("N", "#obj", cls, self.f.where(n), conds, loops))
            return
        if k == "Bin" and k != "":
            if n["op"] == "+=" and is_cursor_t(self.f.t(strip(n["x"]))) and strip(n["x"])["k"] in ("Ref", "Mem"):
                self.emit(Item("A", self.bytes(n["y"]), "", self.f.where(n), conds, loops, text(n["y"])))
            return
        if k != "Call":
            return
        nm = n.get("n") or n.get("q", "").split("::")[-1]
        if nm in ("memcpy", "copy_n", "memmove"):
            if self.cursor_arg(n) is not None:
                a = n["a"]
                other = a[1] if is_cursor_t(self.f.t(strip(a[0]))) and strip(a[0])["k"] == "Ref" else a[0]
                it = Item("R", self.bytes(a[2]), "", self.f.where(n), conds, loops, text(a[2]))
                o = strip(other)
                if o["k"] == "Un" and o["op"] == "&":
                    o = strip(o["e"])
                if o["k"] == "Call" and o.get("o") is not None and o.get("n") == "data":
                    o = strip(o["o"])
                if self.root(o):
                    it.obj = norm_path(text(o))
                self.emit(it)
            return
        cur = self.cursor_arg(n)
        if cur is None:
            return
        if n.get("o") is None and nm in ("pack", "unpack"):
            it = self.field(n["a"][0], conds, loops, n)
            for a, b in self.aliases.items():
                it.what = re.sub(r"^%s\b" % re.escape(a), b, it.what)
            self.emit(it, nm)
            return
        o = n.get("o")
        d = self.c.definition(n)
        if o is not None and strip(o)["k"] != "This":
            w = norm_path(text(o))
            for a, b in self.aliases.items():
                w = re.sub(r"^%s\b" % re.escape(a), b, w)
            self.emit(Item("N", w, self.kind(nm), self.f.where(n), conds, loops), nm)
            return
        if d is not None and (d.cls == self.f.cls or d.cls is None or d.cls == "") and d.q not in self.seen and self.depth < 4:
            self.inline(n, d, conds, loops)
            return
        if nm.startswith(("pack", "unpack")):
            cls = n.get("q", "").split("::")[-2] if "::" in n.get("q", "") else "?"
            self.emit(Item("N", "<%s>" % cls.split("<")[0], self.kind(nm), self.f.where(n), conds, loops), nm)

    def inline(self, n, d, conds, loops):
        env = {p["id"]: a for p, a in zip(d.p, n["a"])}
        body = flow.subst(d.b, env, n.get("o"))
        self.depth += 1
        self.seen.add(d.q)
        old = self.f
        self.f = Wrap(d, old)
        self.stm(body, conds, loops)
        self.f = old
        self.seen.discard(d.q)
        self.depth -= 1

    def kind(self, nm):
        return re.sub(r"^(packed|unpack|pack)", "", nm).replace("Size", "")

    def bytes(self, n):
        """byte count: constant -> c<k>; variable -> v<unit>"""
        n = strip(n)
        v = val(n)
        if v is not None:
            return "c%d" % v
        if n["k"] == "Call" and (n.get("n") or "") == "packedSize" and n["a"]:
            t = norm_type(self.f.t(strip(n["a"][0])))
            return "c%d" % SIZES[t] if t in SIZES else "t" + t
        if n["k"] == "Bin" and n["op"] == "*":
            for a in (n["x"], n["y"]):
                if val(strip(a)) is not None:
                    return "v%d" % val(strip(a))
                if strip(a)["k"] == "Sizeof":
                    return "vT"
        if n["k"] == "Sizeof":
            return "cT"
        return "v1"

    # -- expressions of size functions
    def sizeexpr(self, n, conds, loops):
        n = strip(n)
        k = n["k"]
        if k == "Bin" and n["op"] == "+":
            self.sizeexpr(n["x"], conds, loops)
            self.sizeexpr(n["y"], conds, loops)
            return
        if k == "Cond":
            self.sizeexpr(n["x"], conds + [self.condtext(n["e"])], loops)
            self.sizeexpr(n["y"], conds + [self.condtext(n["e"], True)], loops)
            return
        if k == "Call":
            nm = n.get("n") or n.get("q", "").split("::")[-1]
            o = n.get("o")
            d = self.c.definition(n)
            if nm == "packedSize" and o is None and n["a"]:
                it = self.field(n["a"][0], conds, loops, n)
                for a, b in self.aliases.items():
                    it.what = re.sub(r"^%s\b" % re.escape(a), b, it.what)
                self.emit(it)
                return
            if nm == "accumulate":
                self.emit(Item("N", "accumulate", "", self.f.where(n), conds, loops))
                return
            if o is not None and strip(o)["k"] != "This":
                if nm.startswith("packed"):
                    w = norm_path(text(o))
                    for a, b in self.aliases.items():
                        w = re.sub(r"^%s\b" % re.escape(a), b, w)
                    self.emit(Item("N", w, self.kind(nm), self.f.where(n), conds, loops))
                else:
                    self.emit(Item("R", "v1", "", self.f.where(n), conds, loops, text(n)))
                return
            if d is not None and (d.cls == self.f.cls or not d.cls) and d.q not in self.seen and self.depth < 4:
                self.inline(n, d, conds, loops)
                return
            if nm.startswith("packed"):
                cls = n.get("q", "").split("::")[-2] if "::" in n.get("q", "") else "?"
                self.emit(Item("N", "<%s>" % cls.split("<")[0], self.kind(nm), self.f.where(n), conds, loops))
            return
        v = val(n)
        if v is not None:
            if v != 0:
                self.emit(Item("R", "c%d" % v, "", self.f.where(n), conds, loops))
            return
        if k == "Ref" and n.get("d") in ("v", "p"):
            return
        if k == "Bin" and n["op"] == "*" or k == "Sizeof":
            self.emit(Item("R", self.bytes(n), "", self.f.where(n), conds, loops))
            return


class Wrap:
    """type table of an inlined function, location of the inlined body"""

    def __init__(self, d, outer):
        self.d, self.outer = d, outer
        self.cls, self.f = d.cls, d.f

    def t(self, n):
        return self.d.t(n) or self.outer.t(n)

    def where(self, n=None):
        return self.d.where(n)


def bag(it):
    """what an item contributes to the size: list of canonical strings"""
    if it.kind == "F":
        return ["F:" + it.what]
    if it.kind == "N":
        return ["N:%s:%s" % (it.what, it.typ)]
    if it.kind == "R":
        return ["R:" + it.what]
    if it.kind == "L":
        t = it.typ
        if t in SIZES:
            return ["R:c%d" % SIZES[t]]
        m = re.match(r"std::vector<([\w ]+)>$", t)
        if m and m.group(1) in SIZES:
            return ["R:c8", "R:v%d" % SIZES[m.group(1)]]
        return ["L:" + t]
    return []


def compare_size(ctx, name, size, pack, where):
    have = [(b, set(i.conds), i.loops) for i in size for b in bag(i)]
    changed = True
    while changed:      # the same item on both branches of a condition is unconditional
        changed = False
        for x in have:
            for y in have:
                if x is not y and x[0] == y[0] and x[2] == y[2]:
                    dx, dy = x[1] - y[1], y[1] - x[1]
                    if len(dx) == len(dy) == 1 and list(dx)[0].lstrip("!") == list(dy)[0].lstrip("!"):
                        have.remove(x); have.remove(y)
                        have.append((x[0], x[1] & y[1], x[2]))
                        changed = True
                        break
            if changed:
                break
    for it in pack:
        if it.kind == "A":
            continue
        for b in bag(it):
            m = None
            for h in have:
                if h[0] == b and h[1] <= set(it.conds) and len(h[2]) == len(it.loops) and loops_eq(h[2], it.loops):
                    m = h
                    break
            if m is None and b.startswith("R:c") and not it.loops:
                # constants can be summed up
                need = int(b[3:]) if b[3:].isdigit() else None
                for h in have:
                    if h[0].startswith("R:c") and h[0][3:].isdigit() and need is not None and int(h[0][3:]) >= need and not h[2] and h[1] <= set(it.conds):
                        m = h
                        have.append(("R:c%d" % (int(h[0][3:]) - need), h[1], h[2]))
                        break
            if m is None:
                ctx.violate("size:%s:%s" % (name, b), it.line, "%s: the writer emits %s%s but the announced size does not contain it" % (
                    name, b.split(":", 1)[1] or b, (" when " + " and ".join(it.conds)) if it.conds else ""))
                return
            have.remove(m)


def loops_eq(a, b):
    for x, y in zip(a, b):
        if x != y and not (x.startswith("#") or y.startswith("#")):
            return False
    return True


def content(items):
    return [i for i in items if i.kind != "A"]


def compare_rw(ctx, name, pack, unpack, where):
    p, u = content(pack), content(unpack)

    def cond_of(i, lst, idx, side):
        out = []
        loops = i.loops
        for c in i.conds:
            raw = c.lstrip("!")
            flag = None
            for j in range(idx - 1, -1, -1):
                q = lst[j]
                at = norm_path(q.arg or "")
                if q.kind == "L" and q.typ == "bool" and at:
                    cl = re.sub(r"^\(|\)$", "", at)
                    if at == raw or cl == raw or re.sub(r"^\(?(.*?)(!=(nullptr|0|NULL|__null))?\)?$", r"\1", at) == raw:
                        flag = "FLAG"
                        break
            out.append(("!" if c.startswith("!") else "") + (flag or raw))
        return out

    for i in range(max(len(p), len(u))):
        a = p[i] if i < len(p) else None
        b = u[i] if i < len(u) else None
        if a is None or b is None:
            x = a or b
            ctx.violate("extra:%s:%s" % (name, x.what), x.line, "%s: %s is %s but never %s" % (name, desc(x), "written" if a else "read", "read" if a else "written"))
            return
        ok = True
        why = ""
        if a.kind == b.kind == "F":
            ok = a.what == b.what and a.typ == b.typ
        elif a.kind == "N" or b.kind == "N":
            if a.kind == b.kind:
                ok = a.what == b.what and a.typ == b.typ or "#obj" in (a.what, b.what)
            else:
                ok = False
        elif a.kind == "R" or b.kind == "R":
            ok = a.kind == b.kind and (a.what == b.what or {a.what, b.what} <= {"v1", "vT"})
            ok = ok and (not a.obj or not b.obj or a.obj == b.obj)
        else:
            ok = a.typ == b.typ
        if not ok:
            ctx.violate("order:%s:%d" % (name, i), b.line, "%s: item %d is written as %s (%s) and read as %s" % (name, i + 1, desc(a), a.line, desc(b)))
            return
        if len(a.loops) != len(b.loops):
            ctx.violate("loop:%s:%d" % (name, i), b.line, "%s: %s is written %s a loop and read %s one" % (name, desc(a), "inside" if len(a.loops) > len(b.loops) else "outside", "inside" if len(b.loops) > len(a.loops) else "outside"))
            return
        if a.loops:
            # a filter inside the loop of the writer selects the counted entries
            continue
        ca, cb = set(cond_of(a, p, i, 0)), set(cond_of(b, u, i, 1))
        if ca != cb:
            ctx.violate("cond:%s:%d" % (name, i), b.line, "%s: %s is written %s and read %s" % (name, desc(a), "when " + " and ".join(sorted(ca)) if ca else "always", "when " + " and ".join(sorted(cb)) if cb else "always"))
            return
    # counters: a loop that follows a written counter X.size() iterates over X
    for lst in (p, u):
        for i in range(1, len(lst)):
            if lst[i].loops and not lst[i - 1].loops and lst[i - 1].kind == "L" and lst[i - 1].arg:
                a = norm_path(lst[i - 1].arg)
                l = lst[i].loops[0]
                if a.endswith(".size()"):
                    a = a[:-7]
                    if l != a and not l.startswith("#"):
                        ctx.violate("counter:%s:%s" % (name, a), lst[i].line, "%s: the counter of %s announces a loop over %s" % (name, a, l))
                elif re.match(r"^\w+$", a) and lst is u and re.match(r"^\w+$", l) and l != a and "." not in l:
                    ctx.violate("counter:%s:%s" % (name, a), lst[i].line, "%s: %d-th loop of the reader runs to %s, the counter was read to %s" % (name, i, l, a))


def desc(i):
    return {"F": "member ", "N": "object ", "R": "raw bytes ", "L": "value of type "}[i.kind] + (i.typ if i.kind == "L" else (i.obj or i.what) + (" (" + i.typ + ")" if i.kind == "F" else ""))


def advance(ctx, name, items):
    pend = None
    for it in items:
        if it.kind == "R" and it.arg is not None:
            if pend is not None:
                ctx.violate("advance:%s" % name, it.line, "%s: two raw copies at the same cursor position" % name)
            pend = it
        elif it.kind == "A":
            if pend is None:
                ctx.violate("advance:%s" % name, it.line, "%s: the cursor skips bytes that were not copied" % name)
            elif pend.what != it.what or (pend.what.startswith("v") and pend.arg != it.arg):
                ctx.violate("advance:%s" % name, it.line, "%s: %s bytes are copied but the cursor moves by %s" % (name, pend.arg, it.arg))
            pend = None
    if pend is not None:
        ctx.violate("advance:%s" % name, pend.line, "%s: the cursor does not move past a raw copy" % name)


TRIPLES = [("full", "packedFullSize", "packFull", "unpackFull"), ("plain", "packedSize", "pack", "unpack"),
           ("header", "packedDataHeaderSize", "packDataHeader", "unpackDataHeader"), ("data", "packedDataSize", "packData", "unpackData")]


def run(ctx):
    P = ctx.program("src/mesh/*", "src/basis/containers/*", "src/basis/utilities/*", "src/input/parsers/distributedscanner*")
    byc = {}
    for f in P.functions:
        if f.b is None or f.tm == "pat" or not f.f.startswith("src/"):
            continue
        byc.setdefault((f.cls or "", f.n), []).append(f)
    classes = sorted({c for c, n in byc if c and n in {x for t in TRIPLES for x in t[1:]}})
    protos = {}
    for cls in classes:
        short = cls.split("::")[-1].split("<")[0]
        for tag, s, p, u in TRIPLES:
            fs, fp, fu = (byc.get((cls, x), [None])[0] for x in (s, p, u))
            if fp is None and fs is None and fu is None:
                continue
            if short in ("PackData",) or cls.startswith("espreso::PackData"):
                continue
            if fu is None and tag == "plain":
                # reader is the constructor taking the cursor
                for f in P.functions:
                    if f.cls == cls and f.raw.get("ctor") and f.tm != "pat" and len(f.p) == 1 and is_cursor_t(f.t(f.p[0])):
                        fu = f
            if fs is None or fp is None or fu is None:
                miss = [n for n, f in ((s, fs), (p, fp), (u, fu)) if f is None]
                if miss:
                    ctx.count("incomplete_protocols")
                    continue
            protos[(short, tag)] = (cls, fs, fp, fu)
    # generic helpers: group by the type of the first parameter
    gen = {}
    for n in ("packedSize", "pack", "unpack"):
        for f in P.functions:
            if f.b is not None and not f.cls and f.n == n and f.tm != "pat" and f.q == "espreso::utils::" + n and f.p:
                gen.setdefault((f.f, f.l), f)
    groups = {}
    for f in gen.values():
        t = norm_type(f.t(f.p[0]))
        g = "vector<string>" if re.match(r"std::vector<(std::__cxx11::basic_string|std::string|std::basic_string)", t) else "string" if "basic_string" in t.split("<")[0] or t.startswith("std::string") or t.startswith("std::__cxx11::basic_string") else \
            "vector" if t.startswith("std::vector") else "serializededata*" if "serializededata" in t else "value"
        groups.setdefault(g, {})[f.n] = f
    for g, d in sorted(groups.items()):
        if len(d) == 3:
            protos[("utils", g)] = ("utils", d["packedSize"], d["pack"], d["unpack"])
    fields = {}
    for (short, tag), (cls, fs, fp, fu) in sorted(protos.items()):
        name = "%s.%s" % (short, tag)
        S = Extract(P, fs, "size").run().items
        W = Extract(P, fp, "pack").run().items
        R = Extract(P, fu, "unpack").run().items
        ctx.oblige("protocols")
        ctx.oblige("stream_items", len(content(W)))
        ctx.sample("protocol", "%s: %d items written (%s), %d read (%s)" % (name, len(content(W)), fp.where(), len(content(R)), fu.where()), 60)
        if short == "utils" and tag == "value":
            # one memcpy of packedSize(data) bytes each side
            advance(ctx, name, W); advance(ctx, name, R)
            if [i.what for i in W] != [i.what for i in R]:
                ctx.violate("order:" + name, fu.where(), "generic value is written and read with different sizes")
            continue
        compare_size(ctx, name, S, W, fs.where())
        guard(W, R, S)
        compare_rw(ctx, name, W, R, fp.where())
        advance(ctx, name, W)
        advance(ctx, name, R)
        fields[name] = {i.what for i in W if i.kind in ("F", "N") and not i.what.startswith(("#", "<"))} | {i.what for i in W if i.what.startswith("<")} | {
            "#" + i.typ for i in W if i.kind == "L" and i.typ.startswith("std::vector")} | {i.obj for i in W if i.obj}
        # one filter per container
        filt = {}
        for src in (W, S):
            for i in src:
                if i.loops and i.conds:
                    filt.setdefault(i.loops[-1], set()).add(i.conds)
        fields.setdefault("filters", {}).setdefault(cls, []).append((name, {l: c for l, c in filt.items()}, fp.where()))
    mesh(ctx, P, fields)
    filters = fields.pop("filters", {})
    for cls, l in filters.items():
        allc = {}
        for name, d, w in l:
            for loop, cs in d.items():
                for c in cs:
                    allc.setdefault(loop, {}).setdefault(c, (name, w))
        for loop, cs in allc.items():
            if len(cs) > 1:
                ctx.violate("filter:%s:%s" % (cls.split("::")[-1], loop), list(cs.values())[0][1], "%s: entries of %s are selected by different conditions in different parts of the protocol: %s" % (
                    cls.split("::")[-1], loop, "; ".join("%s (%s)" % (" and ".join(c), v[0]) for c, v in cs.items())))
    required(ctx, P, fields)
    ctx.floor("protocols", 20)
    ctx.fields = fields


def guard(W, R, S):
    """an object that writes nothing at all (and announces size 0) under one guard: drop the guard"""
    for c in set.intersection(*[set(i.conds) for i in W]) if W else ():
        if all(c in i.conds for i in S) and not any(c in i.conds for i in R):
            for i in W:
                i.conds = tuple(x for x in i.conds if x != c)


def mesh(ctx, P, fields):
    ms = P.fn("espreso::Mesh::meshSize")
    du = P.fn("espreso::Mesh::duplicate")
    S = Extract(P, ms[0], "size").run().items
    A = Extract(P, du[0], "pack").run().items
    # the writer runs on instance 0, the reader on the others
    W = [i for i in A if i.dir == "w"]
    R = [i for i in A if i.dir == "r"]
    for l in (W, R):
        for i in l:
            i.conds = tuple(c for c in i.conds if "rank" not in c)
    if not W or not R:
        raise AnalysisBroken("writer/reader halves of the mesh duplication not recognised")
    ctx.oblige("protocols")
    ctx.oblige("stream_items", len(W))
    compare_rw(ctx, "Mesh.duplicate", W, R, du[0].where())
    compare_size(ctx, "Mesh.duplicate", S, W, ms[0].where())
    fields["Mesh.duplicate"] = {i.what for i in W if i.kind in ("F", "N")}


def required(ctx, P, fields):
    import json, os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "s01_fields.json")
    if os.environ.get("S01_WRITE"):
        with open(p, "w") as f:
            json.dump({k: sorted(v) for k, v in sorted(fields.items())}, f, indent=1)
    req = json.load(open(p))
    for name, want in req.items():
        if name not in fields:
            raise AnalysisBroken("protocol %s not found" % name)
        ctx.oblige("required_members", len(want))
        for w in want:
            if w not in fields[name]:
                # renamed or removed members are not a loss of data
                cls = name.split(".")[0]
                leaf = re.sub(r"\[\*\]", "", w.strip("<>")).split(".")[0]
                known = any(fl["n"] == leaf for q, rs in P.records.items() if q.split("::")[-1] == cls for r in rs for fl in r["fields"])
                known = known or any(fl["n"] == leaf for q, rs in P.records.items() if q.split("::")[-1] in bases(P, cls) for r in rs for fl in r["fields"])
                if known or w.startswith(("<", "#")):
                    ctx.violate("member:%s:%s" % (name, w), "src/mesh/store", "%s: member %s is no longer transferred" % (name, w))


def bases(P, cls):
    out, todo = set(), [cls]
    while todo:
        c = todo.pop()
        for q, rs in P.records.items():
            if q.split("::")[-1] == c:
                for b in rs[0]["bases"]:
                    s = b.split("<")[0].split("::")[-1]
                    if s not in out:
                        out.add(s)
                        todo.append(s)
    return out
