"""Abstract interpretation of the element kernels in the field of rational functions.

The kernels of the assembler are straight-line algebra over symbolic inputs (node
coordinates, shape functions, material parameters ...) with concrete loop bounds and
array indices.  This module evaluates the type-checked syntax tree of those kernels
with every floating point quantity replaced by an element of Q(symbols), represented by
its image in Z_p under random ring homomorphisms (value numbering by random
interpretation, Gulwani & Necula; p = 2^61-1): two expressions get the same value number
iff they are the same rational function, up to a collision probability below 2^-45 per
comparison and homomorphism.  Integers (indices, bounds, enums) stay concrete; a branch
on a symbolic quantity is not decided and makes the scenario `Undecided`.
Transcendental functions are uninterpreted function symbols, except that cos/sin satisfy
cos^2+sin^2=1, sqrt(x)^2=x and log has the derivative 1/x (dual numbers).
No code of /repo is compiled to run or linked: only its syntax tree is evaluated.
"""
import hashlib, re, struct
from fractions import Fraction
import facts

PRIME = (1 << 61) - 1
LANES = 2


class Undecided(Exception):
    pass


class ErrorCall(Exception):
    """the kernel ends the run with an error message"""


class F2:
    """a + b*i with i^2 = -1: the square roots of the non-residues of Z_p (p = 3 mod 4)"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __add__(self, o):
        return F2(self.a + o.a, self.b + o.b) if type(o) is F2 else F2(self.a + o, self.b)
    __radd__ = __add__

    def __neg__(self):
        return F2(-self.a, -self.b)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return F2(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a) if type(o) is F2 else F2(self.a * o, self.b * o)
    __rmul__ = __mul__

    def __mod__(self, p):
        a, b = self.a % p, self.b % p
        return F2(a, b) if b else a

    def __eq__(self, o):
        return (self.a, self.b) == (o.a, o.b) if type(o) is F2 else (self.b == 0 and self.a == o)

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return "%d+%di" % (self.a, self.b)

    def __lt__(self, o):
        return repr(self) < repr(o)

    def __gt__(self, o):
        return repr(self) > repr(o)


def inv(x):
    if type(x) is F2:
        n = inv((x.a * x.a + x.b * x.b) % PRIME)
        return F2(x.a * n, -x.b * n) % PRIME
    if type(x) is Dual:
        i = inv(x.a)
        return Dual(i, -x.b * i * i % PRIME)
    x %= PRIME
    if x == 0:
        raise Undecided("division by zero")
    return pow(x, PRIME - 2, PRIME)


PI = int.from_bytes(hashlib.blake2b(b"pi", digest_size=16).digest(), "little") % PRIME


def number(v):
    """the rational number (or rational multiple of pi) meant by a floating point literal"""
    f = Fraction(v)
    for unit, image in ((Fraction(1), 1), (Fraction("3.14159265358979323846"), PI)):
        q = (f / unit).limit_denominator(3600)
        if f and abs(q * unit - f) <= abs(f) * Fraction(1, 10**15) * 2:
            return q.numerator * inv(q.denominator) * image % PRIME
    return f.numerator * inv(f.denominator) % PRIME


class Dual:
    """a + b*eps with eps^2 = 0 (derivatives)"""
    __slots__ = ("a", "b")

    def __init__(self, a, b=0):
        self.a, self.b = a, b

    def __add__(self, o):
        return Dual(self.a + o.a, self.b + o.b) if type(o) is Dual else Dual(self.a + o, self.b)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return Dual(self.a * o.a, self.a * o.b + self.b * o.a) if type(o) is Dual else Dual(self.a * o, self.b * o)
    __rmul__ = __mul__

    def __mod__(self, p):
        return Dual(self.a % p, self.b % p)

    def __eq__(self, o):
        return (self.a, self.b) == (o.a, o.b) if type(o) is Dual else (self.b == 0 and self.a == o)

    def __hash__(self):
        return hash((self.a, self.b))


class S(list):
    """a SIMD register: LANES independent values"""
    __slots__ = ()


class Obj:
    __slots__ = ("f", "rec", "tu")

    def __init__(self, rec, tu):
        self.f, self.rec, self.tu = {}, rec, tu

    def __getitem__(self, name):
        return self.f[self.tu.names(self.rec)[name]]

    def __setitem__(self, name, v):
        self.f[self.tu.names(self.rec)[name]] = v

    def has(self, name):
        return name in self.tu.names(self.rec)


class Ptr:
    __slots__ = ("a", "o")

    def __init__(self, a, o):
        self.a, self.o = a, o

    def __eq__(self, x):
        return type(x) is Ptr and x.a is self.a and x.o == self.o

    def __hash__(self):
        return id(self.a) ^ hash(self.o)


class Vec(list):
    __slots__ = ()


class Path:
    """an opaque object of the surrounding program, identified by how it is reached"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return type(o) is Path and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "<%s>" % self.s


class Eval:
    """an expression evaluator: an unknown function of temperature and coordinates (or a constant)"""
    __slots__ = ("s", "cell", "const")

    def __init__(self, s, const):
        self.s, self.const, self.cell = s, const, {}


class EIter:
    """position in the list of the elements' nodes; node n of element e is the node e*nodes+n"""
    __slots__ = ("e", "nodes")

    def __init__(self, e, nodes):
        self.e, self.nodes = e, nodes

    def __eq__(self, o):
        return type(o) is EIter and o.e == self.e


class Closure:
    __slots__ = ("node", "env", "tu")

    def __init__(self, node, env, tu):
        self.node, self.env, self.tu = node, env, tu


ARR = re.compile(r"^(.*?)\s*((?:\[\d+\])+)$")
INTS = {"int", "unsigned int", "long", "unsigned long", "size_t", "short", "char", "unsigned char", "long long", "unsigned long long", "unsigned short", "signed char"}
FLT = {"double", "float"}
KINDS = {}


def base_type(t):
    t = t.strip()
    while True:
        if t.endswith("&"):
            t = t[:-1].rstrip()
        elif t.endswith(" const"):
            t = t[:-6].rstrip()
        elif t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        else:
            return t


def kind(t):
    """f floating, i integer/bool, p pointer, A array, S SIMD, o other"""
    k = KINDS.get(t)
    if k is None:
        b = base_type(t)
        if b in FLT: k = "f"
        elif b in INTS or b == "bool": k = "i"
        elif b.endswith("*") or b.endswith("* const"): k = "p"
        elif ARR.match(b): k = "A"
        elif b == "SIMD": k = "S"
        else: k = "o"
        KINDS[t] = k
    return k


class TU:
    """one translation unit with every instantiation, compiled to closures on demand"""

    def __init__(self, doc):
        self.doc = doc
        self.name = doc["tu"]
        self.T = doc["types"]
        self.fn = {}
        for f in doc["functions"]:
            if f["tm"] != "pat":
                self.fn.setdefault(f["fid"], f)
        self.rec = {r["id"]: r for r in doc["records"]}
        self.glob = {}
        for g in doc["globals"]:
            self.glob.setdefault(g["q"], g)
        self.enums = {e["q"] for e in doc["enums"]}
        self.fref, self.finfo = set(), {}
        for r in doc["records"]:
            for f in r["fields"]:
                self.finfo[f["id"]] = f
                if f["t"].rstrip().endswith("&"):
                    self.fref.add(f["id"])
        self.defctor = {}
        for f in self.fn.values():
            if f.get("ctor") and not f["p"]:
                self.defctor[f["cid"]] = f
        self._names = {}
        self.code = {}
        self.m = None          # current Machine
        self.calls = set()
        self.cur = None

    def names(self, rec):
        k = rec["id"]
        n = self._names.get(k)
        if n is None:
            n = {}
            for b in rec["bid"]:
                if b in self.rec:
                    n.update(self.names(self.rec[b]))
            for f in rec["fields"]:
                n[f["n"]] = f["id"]
            self._names[k] = n
        return n

    def find(self, q, targs=None, n=None):
        """functions by qualified name (and a predicate on the template arguments)"""
        return [f for f in self.fn.values() if f["q"] == q and (targs is None or targs(f["cta"]))]

    # ------------------------------------------------------------ objects
    def make(self, t, tr):
        k = kind(t)
        if k == "S":
            return S([0] * LANES)
        if k == "f":
            return self.m.fresh("uninitialised")
        if k == "A":
            mt = ARR.match(base_type(t))
            dims = [int(x) for x in re.findall(r"\[(\d+)\]", mt.group(2))]
            return self._arr(mt.group(1), tr, dims)
        if k == "o" and tr in self.rec and self.is_own(self.rec[tr]):
            return self.construct(self.rec[tr], None, [])
        if k == "o" and base_type(t).startswith("std::vector<"):
            return Vec()
        return None

    def _arr(self, bt, tr, dims):
        if len(dims) > 1:
            return [self._arr(bt, tr, dims[1:]) for _ in range(dims[0])]
        return [self.make(bt, tr) for _ in range(dims[0])]

    def is_own(self, rec):
        return rec["f"].startswith("src/analysis/") and rec["q"] != "SIMD"

    def is_obj(self, t, tr=None):
        """class type whose objects are modelled field by field"""
        return tr in self.rec and self.is_own(self.rec[tr])

    def copy_fields(self, dst, src, rec):
        for b in rec["bid"]:
            if b in self.rec:
                self.copy_fields(dst, src, self.rec[b])
        for f in rec["fields"]:
            dst.f[f["id"]] = self.copy(src.f[f["id"]]) if f["id"] not in self.fref else src.f[f["id"]]

    def copy(self, v):
        t = type(v)
        if t is S:
            return S(v)
        if t is list:
            return [self.copy(x) for x in v]
        if t is Vec:
            return Vec(self.copy(x) for x in v)
        if t is Obj:
            o = Obj(v.rec, v.tu)
            self.copy_fields(o, v, v.rec)
            return o
        return v

    def assign_into(self, dst, src):
        """class assignment: contents of src into the existing dst"""
        if type(dst) is S or type(dst) is list:
            if type(dst) is list:
                for i in range(len(dst)):
                    dst[i] = self.copy(src[i])
            else:
                dst[:] = src
        elif type(dst) is Obj:
            self.copy_fields(dst, src, dst.rec)
        else:
            raise Undecided("assignment")

    def construct(self, rec, fid, args):
        o = Obj(rec, self)
        self.init(o, rec, self.fn.get(fid) if fid is not None else self.defctor.get(rec["id"]), args)
        return o

    def init(self, o, rec, f, args):
        if f is None:
            if len(args) == 1 and type(args[0]) is Obj:       # implicit copy
                self.copy_fields(o, args[0], rec)
                return
            for b in rec["bid"]:
                if b in self.rec:
                    self.init(o, self.rec[b], self.defctor.get(b), [])
            env = {"this": o}
            for fd in rec["fields"]:
                self.field(o, fd, None, env)
            return
        if not f.get("ctor"):
            raise Undecided("constructor")
        env = self.bind(f, args)
        env["this"] = o
        ib = {i["bid"]: i for i in f.get("init", []) if "bid" in i}
        im = {i["id"]: i for i in f.get("init", []) if "id" in i}
        for b in rec["bid"]:
            if b not in self.rec:
                continue
            br = self.rec[b]
            if b in ib:
                e = ib[b]["e"]
                while e and e["k"] in ("Cast", "DefArg"):
                    e = e["e"]
                if e and e["k"] == "Ctor":
                    self.init(o, br, self.fn.get(e["fid"]), self.args(e, env) if e["fid"] in self.fn else [self.expr(a)(env) for a in e["a"]])
                else:
                    self.init(o, br, self.defctor.get(b), [])
            else:
                self.init(o, br, self.defctor.get(b), [])
        for fd in rec["fields"]:
            self.field(o, fd, im.get(fd["id"]), env)
        self.run(f, env)

    def field(self, o, fd, ini, env):
        e = ini["e"] if ini else fd.get("i")
        if fd["id"] in self.fref:
            o.f[fd["id"]] = self.loc(e)(env) if kind(fd["t"]) in "fip" or not self.is_obj(fd["t"], fd["tr"]) and kind(fd["t"]) == "o" else self.expr(e)(env)
            return
        if e is None or e["k"] in ("Zero",):
            v = self.make(fd["t"], fd["tr"])
            if e is not None and kind(fd["t"]) in "fip":
                v = 0 if kind(fd["t"]) != "p" else None
            o.f[fd["id"]] = v
        else:
            o.f[fd["id"]] = self.coerce(self.expr(e)(env), fd["t"], fd["tr"])

    def coerce(self, v, t, tr=None):
        k = kind(t)
        tv = type(v)
        if tv is S or tv is list and k != "p" or tv is Obj and k != "p":
            return self.copy(v)
        if k == "f" and tv is Path:
            return self.m.leaf(v)
        return v

    # ------------------------------------------------------------ calls
    def bind(self, f, vals):
        env = {}
        for p, v in zip(f["p"], vals):
            env[p["id"]] = v
        return env

    def pmode(self, p):
        """how a parameter is passed: r = location, v = value, c = copy of a class value"""
        t = self.T[p["t"]]
        k = kind(t)
        if p.get("ref") or t.rstrip().endswith("&"):
            if k in "fip":
                return "r"
            if k == "o":
                b = base_type(t)
                return "r" if self.valued(b) else "v"
            return "v"
        if k in "So":
            return "c"
        return "v"

    def valued(self, b):
        """class types stored by value in a slot (iterators, std::function, enums ...)"""
        if b.startswith("std::vector<"):
            return False
        return b.startswith("std::") or b.startswith("espreso::serializededata<") or b in self.enums

    def args(self, node, env):
        f = self.fn[node["fid"]]
        out = []
        for p, a in zip(f["p"], node["a"]):
            md = self.pmode(p)
            if md == "r":
                out.append(self.loc(a)(env))
            elif md == "c":
                out.append(self.copy(self.expr(a)(env)))
            else:
                out.append(self.expr(a)(env))
        return out

    def run(self, f, env):
        self.calls.add((f["q"], f["f"], f["l"]))
        b = self.code.get(f["fid"])
        if b is None:
            b = self.code[f["fid"]] = self.stmt(f["b"])
        cur, self.cur = self.cur, f
        r = b(env)
        self.cur = cur
        return env["ret"] if r == 3 else None

    def where(self, line):
        return self.cur["f"] if self.cur else self.name

    def call(self, f, this, vals):
        env = self.bind(f, vals)
        env["this"] = this
        return self.run(f, env)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if n is None:
            return lambda env: 0
        k = n["k"]
        if k == "Block":
            ss = [self.stmt(c) for c in n["c"] if c["k"] != "Null"]
            if len(ss) == 1:
                return ss[0]

            def block(env):
                for s in ss:
                    r = s(env)
                    if r:
                        return r
                return 0
            return block
        if k == "Decl":
            vs = [self.vardecl(v) for v in n["c"]]

            def decl(env):
                for v in vs:
                    v(env)
                return 0
            return decl
        if k == "If":
            c = self.cond(n["e"])
            th, el = self.stmt(n["th"]), self.stmt(n["el"])
            pre = [self.stmt(x) for x in (n.get("init"),) if x]
            if n.get("cv"):
                raise Undecided("condition variable")

            def iff(env):
                for x in pre: x(env)
                return th(env) if c(env) else el(env)
            return iff
        if k == "For":
            ini, inc, b = self.stmt(n.get("init")), (self.stmt(n["inc"]) if n.get("inc") else None), self.stmt(n["b"])
            c = self.cond(n["e"]) if n.get("e") else (lambda env: True)
            m = self

            def loop(env):
                ini(env)
                while c(env):
                    r = b(env)
                    if r == 1:
                        break
                    if r == 3:
                        return 3
                    if inc: inc(env)
                return 0
            return loop
        if k in ("While", "Do"):
            c, b = self.cond(n["e"]), self.stmt(n["b"])
            first = k == "Do"

            def wloop(env):
                go = first or c(env)
                while go:
                    r = b(env)
                    if r == 1:
                        break
                    if r == 3:
                        return 3
                    go = c(env)
                return 0
            return wloop
        if k == "Switch":
            e = self.expr(n["e"])
            items, labels = [], []
            default = [None]

            def flat(x):
                while x and x["k"] in ("Case", "Default"):
                    if x["k"] == "Case":
                        labels.append((facts.val(x) if facts.val(x) is not None else facts.val(x["e"]), len(items)))
                    else:
                        default[0] = len(items)
                    x = x["c"]
                if x:
                    items.append(self.stmt(x))
            body = n["b"]["c"] if n["b"]["k"] == "Block" else [n["b"]]
            for x in body:
                flat(x)
            table = {}
            for v, i in labels:
                table.setdefault(v, i)

            def sw(env):
                v = e(env)
                if type(v) is not int and type(v) is not bool:
                    raise Undecided("switch on a symbolic value")
                i = table.get(v, default[0])
                if i is None:
                    return 0
                for s in items[i:]:
                    r = s(env)
                    if r == 1:
                        return 0
                    if r:
                        return r
                return 0
            return sw
        if k == "Return":
            if n.get("e") is None:
                return lambda env: env.__setitem__("ret", None) or 3
            e = self.expr(n["e"])

            def ret(env):
                env["ret"] = e(env)
                return 3
            return ret
        if k == "Break":
            return lambda env: 1
        if k == "Continue":
            return lambda env: 2
        if k == "Null":
            return lambda env: 0
        if k == "OMP":
            return self.stmt(n.get("b"))
        if k == "Range":
            e, b, vd = self.expr(n["e"]), self.stmt(n["b"]), n["var"]
            vid = vd["id"]
            ref = vd.get("ref") and kind(self.T[vd["t"]]) in "fip"

            def rng(env):
                c = e(env)
                if type(c) not in (list, Vec):
                    raise Undecided("range loop")
                for i in range(len(c)):
                    env[vid] = (c, i) if ref else c[i]
                    r = b(env)
                    if r == 1:
                        break
                    if r == 3:
                        return 3
                return 0
            return rng
        e = self.expr(n)

        def ex(env):
            e(env)
            return 0
        return ex

    def vardecl(self, v):
        t, vid, tr = self.T[v["t"]], v["id"], v.get("tr")
        k = kind(t)
        ini = v.get("i")
        if v.get("ref") or t.rstrip().endswith("&"):
            g = self.loc(ini) if (k in "fip" or k == "o" and self.valued(base_type(t))) else self.expr(ini)

            def rd(env):
                env[vid] = g(env)
            return rd
        if ini is None or ini["k"] == "Zero":
            if k == "i" or k == "p":
                return lambda env: env.__setitem__(vid, 0 if k == "i" and ini else None)
            return lambda env: env.__setitem__(vid, self.make(t, tr))
        g = self.expr(ini)
        if k in "ip":
            return lambda env: env.__setitem__(vid, g(env))
        return lambda env: env.__setitem__(vid, self.coerce(g(env), t, tr))

    # ------------------------------------------------------------ expressions
    def type_of(self, n):
        if n["k"] == "Flt":
            return "double"
        if n["k"] in ("Bool", "Chr", "Sizeof"):
            return "int"
        if n["k"] == "DefArg":
            return self.type_of(n["e"])
        t = n.get("t", 0)
        return self.T[t] if isinstance(t, int) else t

    def kind_of(self, n):
        return kind(self.type_of(n))

    def cond(self, n):
        e = self.expr(n)
        if n["k"] in ("Bin", "Un") and n.get("op") in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "!"):
            return e
        if self.kind_of(n) == "f":
            def bad(env):
                raise Undecided("branch on a symbolic value")
            return bad

        def c(env):
            v = e(env)
            if type(v) in (Path, Obj, Ptr, Eval, Closure, EIter):
                return True
            if v is None:
                return False
            if type(v) in (int, bool):
                return bool(v)
            if type(v) is list:
                return True
            raise Undecided("branch on a symbolic value")
        return c

    def loc(self, n):
        """closure computing the location of an lvalue as (container, key); rvalues get a temporary"""
        k = n["k"]
        if k == "DefArg":
            return self.loc(n["e"])
        if k == "Cast" and n.get("t") is not None and n["e"]["k"] in ("Ref", "Mem", "Idx", "OpCall"):
            return self.loc(n["e"])
        if k == "Ref":
            if n["d"] in ("v", "p", "s", "b"):
                vid = n["id"]
                if self.T[n["t"]].rstrip().endswith("&"):
                    return lambda env: env[vid]

                def lr(env):
                    return (env, vid)
                return lr
            if n["d"] in ("g", "sm"):
                q = n["q"]
                return lambda env: (self.m.globals, self.m.need(self, q))
        if k == "Mem":
            if n.get("sm"):
                q = n["q"]
                return lambda env: (self.m.globals, self.m.need(self, q))
            b = self.expr(n["b"])
            if n.get("dep"):
                nm = n["n"]

                def ld(env):
                    o = b(env)
                    if type(o) is not Obj or not o.has(nm):
                        raise Undecided("member " + nm)
                    return (o.f, self.names(o.rec)[nm])
                return ld
            i = n["id"]
            if i in self.fref:
                return lambda env: self.objf(b(env), n)[i]

            def lm(env):
                o = b(env)
                if type(o) is Obj:
                    return (o.f, i)
                return ([self.member(o, n)], 0)
            return lm
        if k == "Idx" or (k == "OpCall" and n["op"] == "[]"):
            x, y = (n["b"], n["i"]) if k == "Idx" else (n["a"][0], n["a"][1])
            b, ix = self.expr(x), self.expr(y)
            full = n

            def li(env):
                a, i = b(env), ix(env)
                ta = type(a)
                if ta is list or ta is S or ta is Vec:
                    if not 0 <= i < len(a):
                        raise OutOfBounds(self.name, full["l"], i, len(a))
                    return (a, i)
                if ta is Ptr:
                    i += a.o
                    if type(a.a) is not dict and not 0 <= i < len(a.a):
                        raise OutOfBounds(self.name, full["l"], i, len(a.a))
                    return (a.a, i)
                return ([self.index(a, i, full)], 0)
            return li
        if k == "Un" and n["op"] == "*":
            e = self.expr(n["e"])

            def lp(env):
                p = e(env)
                if type(p) is Ptr:
                    if type(p.a) is not dict and not 0 <= p.o < len(p.a):
                        raise OutOfBounds(self.name, n["l"], p.o, len(p.a))
                    return (p.a, p.o)
                if type(p) is list:
                    return (p, 0)
                return ([p], 0)
            return lp
        if k == "Un" and n["op"] in ("++", "--") and not n.get("post"):
            e, l = self.expr(n), self.loc(n["e"])

            def lpre(env):
                e(env)
                return l(env)
            return lpre
        if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            e, l = self.expr(n), self.loc(n["x"])

            def las(env):
                e(env)
                return l(env)
            return las
        if k == "Call":
            e = self.expr(n, wantloc=True)

            def lc(env):
                v = e(env)
                return v if type(v) is tuple else ([v], 0)
            return lc
        e = self.expr(n)
        return lambda env: ([e(env)], 0)

    def objf(self, o, n):
        if type(o) is not Obj:
            raise Undecided("member %s of a non-object" % n["n"])
        return o.f

    def member(self, o, n):
        t = type(o)
        if t is Obj:
            i = n.get("id")
            if n.get("dep") or i not in o.f:
                if o.has(n["n"]):
                    return o[n["n"]]
                raise Undecided("member " + n["n"])
            v = o.f[i]
            if i in self.fref and type(v) is tuple:
                v = v[0][v[1]]
            return v
        if t is Path:
            return self.m.path(Path(o.s + "." + n["n"]), self.type_of(n) if "t" in n else "")
        if t is EIter and n["n"] in ("e",):
            return o
        raise Undecided("member %s of %s" % (n["n"], t.__name__))

    def index(self, a, i, n):
        t = type(a)
        if t is list or t is S or t is Vec:
            if not 0 <= i < len(a):
                raise OutOfBounds(self.name, n["l"], i, len(a))
            return a[i]
        if t is Ptr:
            i += a.o
            if type(a.a) is not dict and not 0 <= i < len(a.a):
                raise OutOfBounds(self.name, n["l"], i, len(a.a))
            return a.a[i]
        if t is Path:
            return self.m.path(Path("%s[%s]" % (a.s, i)), self.type_of(n))
        if a is None:
            raise Undecided("null pointer indexed at line %d" % n["l"])
        raise Undecided("index into %s" % t.__name__)

    def expr(self, n, wantloc=False):
        k = n["k"]
        if k in ("Int", "Bool", "Chr") or ("v" in n and k in ("Ref", "Bin", "Un", "Cast", "Sizeof", "Cond") and not (k == "Bin" and self.kind_of(n) == "f")):
            v = int(n["v"])
            return lambda env: v
        if k == "Flt":
            v = number(n["v"])
            return lambda env: v
        if k == "DefArg":
            return self.expr(n["e"])
        if k == "Nul":
            return lambda env: None
        if k == "Str":
            return lambda env: n["v"]
        if k == "This":
            return lambda env: env["this"]
        if k == "Ref":
            if n["d"] == "e":
                v = n["v"]
                return lambda env: v
            if n["d"] in ("v", "p", "b", "s"):
                vid = n["id"]
                if n["d"] == "s":
                    raise Undecided("static local")
                t = self.T[n["t"]]
                if t.rstrip().endswith("&") and (kind(t) in "fip" or kind(t) == "o" and self.valued(base_type(t))):
                    def rr(env):
                        l = env[vid]
                        return l[0][l[1]] if type(l) is tuple else l
                    return rr

                def rv(env):
                    return env[vid]
                return rv
            if n["d"] in ("g", "sm"):
                q = n["q"]

                def gl(env):
                    return self.m.globals[self.m.need(self, q)]
                return gl
            if n["d"] == "f":
                return lambda env: Path("fn:" + n.get("q", n["n"]))
            raise Undecided("reference " + n["n"])
        if k == "Mem":
            if n.get("sm"):
                q = n["q"]
                return lambda env: self.m.globals[self.m.need(self, q)]
            b = self.expr(n["b"])
            i = n.get("id")
            if i is not None and not n.get("dep") and i not in self.fref:
                def fm(env):
                    o = b(env)
                    if type(o) is Obj:
                        f = o.f
                        if i in f:
                            return f[i]
                    return self.member(o, n)
                return fm
            return lambda env: self.member(b(env), n)
        if k == "Idx":
            b, ix = self.expr(n["b"]), self.expr(n["i"])

            def fi(env):
                a, i = b(env), ix(env)
                if type(a) is list and 0 <= i < len(a):
                    return a[i]
                return self.index(a, i, n)
            return fi
        if k == "Bin":
            return self.binary(n)
        if k == "Un":
            return self.unary(n)
        if k == "Cond":
            c, x, y = self.cond(n["e"]), self.expr(n["x"]), self.expr(n["y"])
            return lambda env: x(env) if c(env) else y(env)
        if k == "Cast":
            if n["e"] is None:
                raise Undecided("cast")
            e = self.expr(n["e"])
            if self.kind_of(n) == "i" and self.kind_of(n["e"]) == "f":
                def bad(env):
                    v = e(env)
                    if type(v) is int and 0 <= v < (1 << 20):
                        return v
                    raise Undecided("truncation of a symbolic value")
                return bad
            return e
        if k == "OpCall":
            return self.opcall(n)
        if k == "Call":
            return self.callexpr(n, wantloc)
        if k == "Ctor":
            return self.ctor(n)
        if k == "Init":
            cs = [self.expr(c) if c else None for c in n["c"]]
            t, tr = self.type_of(n), n.get("tr")
            kk = kind(t)
            if kk == "A":
                def ia(env):
                    a = self.make(t, tr)
                    fl = kind(ARR.match(base_type(t)).group(1)) == "f"
                    if fl and len(re.findall(r"\[", t)) == 1:
                        a = [0] * len(a)
                    for i, c in enumerate(cs):
                        if c is not None:
                            v = c(env)
                            a[i] = self.coerce(v, "double" if fl else "SIMD") if not isinstance(v, list) or isinstance(v, S) else v
                    return a
                return ia
            if kk == "S":
                return cs[0] if cs else (lambda env: S([0] * LANES))
            if kk in "fip":
                return cs[0] if cs else (lambda env: 0 if kk != "p" else None)
            raise Undecided("initialiser list")
        if k == "Zero":
            t = self.type_of(n)
            if kind(t) in "fi":
                return lambda env: 0
            if kind(t) == "p":
                return lambda env: None
            return lambda env: self.make(t, n.get("tr"))
        if k == "New":
            tr = n.get("tr")
            if n.get("arr") or n.get("pl") or tr not in self.rec:
                raise Undecided("new")
            i = n.get("i")
            if i and i["k"] == "Ctor":
                return self.ctor(i, tr)
            return lambda env: self.construct(self.rec[tr], None, [])
        if k == "Lambda":
            return lambda env: Closure(n, env, self)
        raise Undecided("construct %s at line %s" % (n.get("cn", k), n.get("l")))

    def ctor(self, n, tr=None):
        t = self.type_of(n)
        tr = tr or n.get("tr")
        if kind(t) == "S":
            if not n["a"]:
                return lambda env: S([0] * LANES)
            e = self.expr(n["a"][0])

            def cs(env):
                v = e(env)
                if type(v) is not S:
                    raise Undecided("SIMD constructed from %s" % type(v).__name__)
                return S(v)
            return cs
        if tr in self.rec and self.is_own(self.rec[tr]):
            if (n.get("cp") or n.get("mv")) and n["fid"] not in self.fn:
                e = self.expr(n["a"][0])
                return lambda env: self.copy(e(env))
            rec = self.rec[tr]
            if n["fid"] in self.fn:
                return lambda env: self.construct(rec, n["fid"], self.args(n, env))
            return lambda env: self.construct(rec, None, [])
        if kind(t) == "A":
            return lambda env: self.make(t, tr)
        if (n.get("cp") or n.get("mv") or base_type(t).startswith("std::function") or base_type(t).startswith("espreso::serializededata<")) and n["a"]:
            e = self.expr(n["a"][0])
            return lambda env: self.copy(e(env))
        if base_type(t).startswith("std::vector<") and not [a for a in n["a"] if a["k"] != "DefArg"]:
            return lambda env: Vec()
        if base_type(t).startswith("std::function") or base_type(t).startswith("espreso::serializededata<"):
            return lambda env: None

        def bad(env):
            raise Undecided("constructor of " + t)
        return bad

    def binary(self, n):
        op = n["op"]
        kx, ky = self.kind_of(n["x"]), self.kind_of(n["y"])
        if op == "=":
            l, r = self.loc(n["x"]), self.expr(n["y"])
            if kx == "f":
                def asf(env):
                    v = r(env)
                    if type(v) is Path:
                        v = self.m.leaf(v)
                    c, k = l(env)
                    c[k] = v
                    return v
                return asf

            def asg(env):
                v = r(env)
                c, k = l(env)
                c[k] = v
                return v
            return asg
        if op in ("&&", "||"):
            x, y = self.cond(n["x"]), self.cond(n["y"])
            if op == "&&":
                return lambda env: 1 if x(env) and y(env) else 0
            return lambda env: 1 if x(env) or y(env) else 0
        if op == ",":
            x, y = self.expr(n["x"]), self.expr(n["y"])

            def comma(env):
                x(env)
                return y(env)
            return comma
        if op in ("<", ">", "<=", ">=", "==", "!="):
            x, y = self.expr(n["x"]), self.expr(n["y"])
            if "f" in (kx, ky):
                def bad(env):
                    raise Undecided("comparison of symbolic values at line %d" % n["l"])
                return bad
            import operator
            f = {"<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}[op]
            if op in ("==", "!="):
                def eqs(env):
                    a, b = x(env), y(env)
                    if type(a) is list: a = Ptr(a, 0)
                    if type(b) is list: b = Ptr(b, 0)
                    if type(a) is Path and type(b) is Path and a.s != b.s:
                        raise Undecided("comparison of opaque pointers")
                    return f(a, b)
                return eqs

            def cmp(env):
                a, b = x(env), y(env)
                if type(a) not in (int, bool) or type(b) not in (int, bool):
                    raise Undecided("comparison at line %d" % n["l"])
                return f(a, b)
            return cmp
        comp = op.endswith("=")
        o = op[:-1] if comp else op
        flt = self.kind_of(n) == "f" or (comp and "f" in (kx, ky))
        f = self.arith(o, flt, n)
        y = self.expr(n["y"])
        if comp:
            l = self.loc(n["x"])

            def cas(env):
                v = y(env)
                c, k = l(env)
                r = c[k] = f(c[k], v)
                return r
            return cas
        x = self.expr(n["x"])
        if flt:
            if o == "*":
                def mul(env):
                    a, b = x(env), y(env)
                    try:
                        return a * b % PRIME
                    except TypeError:
                        return f(a, b)
                return mul
        elif kx == "i" and ky == "i":
            if o == "+":
                return lambda env: x(env) + y(env)
            if o == "*":
                return lambda env: x(env) * y(env)
        return lambda env: f(x(env), y(env))

    def arith(self, o, flt, n):
        m = self

        def num(v):
            if type(v) is Path:
                return m.m.leaf(v)
            if v is None or type(v) in (S, list, Obj, Ptr, Vec):
                raise Undecided("arithmetic on %s at line %d" % (type(v).__name__, n["l"]))
            return v
        if flt:
            if o == "+": return lambda a, b: (num(a) + num(b)) % PRIME
            if o == "-": return lambda a, b: (num(a) - num(b)) % PRIME
            if o == "*": return lambda a, b: num(a) * num(b) % PRIME
            if o == "/": return lambda a, b: num(a) * inv(num(b)) % PRIME
            raise Undecided("operator " + o)

        def padd(a, b, sg):
            if type(a) is list or type(a) is Vec:
                a = Ptr(a, 0)
            if type(b) is list:
                b = Ptr(b, 0)
            if type(a) is Ptr:
                if type(b) is Ptr:
                    if a.a is not b.a:
                        raise Undecided("difference of pointers")
                    return a.o - b.o
                return Ptr(a.a, a.o + sg * b)
            if type(b) is Ptr:
                return Ptr(b.a, b.o + a)
            if type(a) is Path or type(b) is Path:
                raise Undecided("pointer arithmetic on an opaque object")
            if a is None or b is None:
                raise Undecided("arithmetic on an unset value at line %d" % n["l"])
            return a + b if sg > 0 else a - b
        if o == "+": return lambda a, b: padd(a, b, 1)
        if o == "-": return lambda a, b: padd(a, b, -1)

        def ints(fn):
            def g(a, b):
                if type(a) not in (int, bool) or type(b) not in (int, bool):
                    raise Undecided("integer arithmetic at line %d" % n["l"])
                return fn(int(a), int(b))
            return g
        if o == "*": return ints(lambda a, b: a * b)
        if o == "/": return ints(lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
        if o == "%": return ints(lambda a, b: abs(a) % abs(b) * (1 if a >= 0 else -1))
        if o == "&": return ints(lambda a, b: a & b)
        if o == "|": return ints(lambda a, b: a | b)
        if o == "^": return ints(lambda a, b: a ^ b)
        if o == "<<": return ints(lambda a, b: a << b)
        if o == ">>": return ints(lambda a, b: a >> b)
        raise Undecided("operator " + o)

    def unary(self, n):
        op = n["op"]
        if op in ("++", "--"):
            l = self.loc(n["e"])
            d = 1 if op == "++" else -1
            post = n.get("post")

            def step(env):
                c, k = l(env)
                v = c[k]
                if type(v) is list:
                    v = Ptr(v, 0)
                if type(v) is Ptr:
                    r = Ptr(v.a, v.o + d)
                elif type(v) is int:
                    r = v + d
                else:
                    raise Undecided("increment of %s" % type(v).__name__)
                c[k] = r
                return v if post else r
            return step
        if op == "&":
            e = n["e"]
            if e["k"] in ("Idx",) or e["k"] == "OpCall" and e["op"] == "[]" or self.kind_of(e) in "fip":
                kk = self.kind_of(e)
                if kk in "fipS":
                    l = self.loc(e)

                    def ad(env):
                        c, k = l(env)
                        return Ptr(c, k)
                    return ad
            return self.expr(e)
        e = self.expr(n["e"])
        if op == "*":
            l = self.loc(n)

            def dr(env):
                p = e(env)
                if type(p) in (Obj, Path, Eval, EIter, S):
                    return p
                c, k = l(env)
                return c[k]
            if n["e"]["k"] in ("Un", "OpCall", "Call"):        # evaluate a side effect once
                def dr1(env):
                    p = e(env)
                    if type(p) is Ptr:
                        if type(p.a) is not dict and not 0 <= p.o < len(p.a):
                            raise OutOfBounds(self.name, n["l"], p.o, len(p.a))
                        return p.a[p.o]
                    if type(p) is list:
                        return p[0]
                    return p
                return dr1
            return dr
        if op == "!":
            c = self.cond(n["e"])
            return lambda env: 0 if c(env) else 1
        if op == "-":
            if self.kind_of(n) == "f":
                def ng(env):
                    v = e(env)
                    return (-(self.m.leaf(v) if type(v) is Path else v)) % PRIME
                return ng
            return lambda env: -e(env)
        if op == "+":
            return e
        if op == "~":
            return lambda env: ~e(env)
        raise Undecided("operator " + op)

    def opcall(self, n):
        op, a = n["op"], n["a"]
        if op == "[]":
            b, ix = self.expr(a[0]), self.expr(a[1])
            return lambda env: self.index(b(env), ix(env), n)
        if op == "()":
            f = self.expr(a[0])
            es = [(self.expr(x), self.loc(x)) for x in a[1:]]
            return lambda env: self.invoke(f(env), es, env, n)
        ks = [self.kind_of(x) for x in a]
        if "S" in ks and op in "+-*/" and len(a) == 2:
            x, y = self.expr(a[0]), self.expr(a[1])
            if op == "+":
                def sadd(env):
                    return S([(p + q) % PRIME for p, q in zip(x(env), y(env))])
                return self.guardS(sadd, n)
            if op == "-":
                def ssub(env):
                    return S([(p - q) % PRIME for p, q in zip(x(env), y(env))])
                return self.guardS(ssub, n)
            if op == "*":
                def smul(env):
                    return S([p * q % PRIME for p, q in zip(x(env), y(env))])
                return self.guardS(smul, n)

            def sdiv(env):
                p, q = x(env), y(env)
                return S([self.m.div(u, v, i) for i, (u, v) in enumerate(zip(p, q))])
            return self.guardS(sdiv, n)
        if "S" in ks and op in ("-", "+") and len(a) == 1:
            x = self.expr(a[0])
            if op == "+":
                return lambda env: S(x(env))
            return lambda env: S([-v % PRIME for v in x(env)])
        if op == "=":
            if ks[0] == "S" or "S" in ks:
                x, y = self.expr(a[0]), self.expr(a[1])

                def sas(env):
                    v = y(env)
                    d = x(env)
                    if type(d) is not S or type(v) is not S:
                        raise Undecided("SIMD assignment at line %d" % n["l"])
                    d[:] = v
                    return d
                return sas
            t = base_type(self.type_of(a[0]))
            y = self.expr(a[1])
            l, x = self.loc(a[0]), self.expr(a[0])

            def oas(env):
                v = y(env)
                d = x(env)
                if type(d) is Obj:
                    self.assign_into(d, v)
                    return d
                c, k = l(env)
                c[k] = self.copy(v)
                return c[k]
            return oas
        if op in ("+=", "-=", "*=", "/=") and ks[0] == "S":
            x, y = self.expr(a[0]), self.expr(a[1])
            f = self.arith(op[0], True, n)

            def scomp(env):
                v, d = y(env), x(env)
                d[:] = [f(p, q) for p, q in zip(d, v)]
                return d
            return scomp
        if op in ("++", "--") and ks[0] == "o":
            l = self.loc(a[0])

            def it(env):
                c, k = l(env)
                v = c[k]
                if type(v) is not EIter:
                    raise Undecided("increment of %s" % type(v).__name__)
                c[k] = EIter(v.e + (1 if op == "++" else -1), v.nodes)
                return c[k]
            return it
        if op in ("+=", "-=", "+", "-") and len(a) == 2 and n.get("fid") not in self.fn:
            x, y = self.expr(a[0]), self.expr(a[1])
            l = self.loc(a[0]) if op in ("+=", "-=") else None

            def ia(env):
                v, d = x(env), y(env)
                if type(v) is EIter and type(d) is EIter and op == "-":
                    return v.e - d.e
                if type(v) is not EIter or type(d) is not int:
                    raise Undecided("operator %s at line %d" % (op, n["l"]))
                r = EIter(v.e + (d if op[0] == "+" else -d), v.nodes)
                if l:
                    c, k = l(env)
                    c[k] = r
                return r
            return ia
        if op in ("==", "!=", "<") and n.get("fid") not in self.fn or op in ("==", "!=") and base_type(self.type_of(a[0])).startswith("espreso::serializededata<"):
            x, y = self.expr(a[0]), self.expr(a[1])

            def eq(env):
                p, q = x(env), y(env)
                if type(p) is EIter and type(q) is EIter:
                    return p.e < q.e if op == "<" else (p.e == q.e) == (op == "==")
                raise Undecided("comparison at line %d" % n["l"])
            return eq
        if op in ("->", "*") and len(a) == 1:
            return self.expr(a[0])
        if n.get("fid") in self.fn:
            f = self.fn[n["fid"]]
            if f.get("cid"):
                g = self.expr(a[0])
                rest = {"fid": n["fid"], "a": a[1:]}
                return lambda env: self.call(f, g(env), self.args(rest, env))
            return lambda env: self.call(f, None, self.args(n, env))
        raise Undecided("operator %s at line %d" % (op, n["l"]))

    def guardS(self, f, n):
        def g(env):
            try:
                return f(env)
            except (TypeError, IndexError):
                raise Undecided("SIMD operation at line %d" % n["l"])
        return g

    def invoke(self, c, es, env, n):
        if type(c) is Obj and n.get("fid") in self.fn:
            return self.call(self.fn[n["fid"]], c, [e(env) for e, _ in es])
        if type(c) is not Closure:
            raise Undecided("call of an unknown function object at line %d" % n["l"])
        e2 = dict(c.env) if True else {}
        for cap in c.node["cap"]:
            pass
        # by-reference captures share the enclosing frame
        byref = any(cap.get("r") for cap in c.node["cap"])
        fr = c.env if byref else e2
        for p, (e, l) in zip(c.node["p"], es):
            t = c.tu.T[p["t"]]
            if t.rstrip().endswith("&") and kind(t) in "fip":
                fr[p["id"]] = l(env)
            else:
                fr[p["id"]] = e(env)
        key = ("lambda", id(c.node))
        b = c.tu.code.get(key)
        if b is None:
            b = c.tu.code[key] = c.tu.stmt(c.node["b"])
        if b(fr) == 3:
            return fr["ret"]
        return None

    SIMDF = {"load1", "zeros", "ones", "negate", "sqrt", "rsqrt14", "positive_guarded_recip", "log", "load", "store", "max", "exp", "pow", "abs", "cos", "sin"}

    def callexpr(self, n, wantloc=False):
        q, nm = n.get("q", ""), n.get("n", "")
        m = self
        if n.get("fe") is not None:
            f = self.expr(n["fe"])
            es = [(self.expr(x), self.loc(x)) for x in n["a"]]
            return lambda env: self.invoke(f(env), es, env, n)
        if "o" in n and not q.startswith("espreso::") or "o" in n and n.get("fid") not in self.fn or "o" in n and self.builtin_obj(n):
            o = self.expr(n["o"])
            ol = self.loc(n["o"]) if n["o"]["k"] in ("Ref", "Mem", "Idx") else None
            es = [self.expr(x) for x in n["a"]]
            return lambda env: self.method(o(env), nm, [e(env) for e in es], n, wantloc)
        dl = n.get("dl", "")
        if dl.startswith("src/wrappers/simd/") or nm in self.SIMDF and not q.startswith("espreso::") or q == "espreso::sqrt" or q.startswith("std::") or nm in ("omp_get_thread_num", "fabs", "atan2"):
            es = [self.expr(x) for x in n["a"]]
            return lambda env: self.m.builtin(self, nm, [e(env) for e in es], n)
        if q.startswith("espreso::eslog::"):
            if nm in ("error", "globalerror", "internalFailure"):
                def er(env):
                    raise ErrorCall(nm)
                return er
            return lambda env: None
        if re.match(r"espreso::eigSym\d\d", q):
            es = [self.expr(x) for x in n["a"]]
            return lambda env: self.m.eig(nm, [e(env) for e in es])
        if q.startswith("espreso::BaseFunctions::") or q.endswith("::simd") and "BaseFunctions" in q:
            e = self.expr(n["a"][0])
            return lambda env: self.m.basefunctions(e(env))
        if n.get("fid") in self.fn:
            f = self.fn[n["fid"]]
            o = self.expr(n["o"]) if "o" in n else None

            def cl(env):
                return self.call(f, o(env) if o else None, self.args(n, env))
            return cl

        def unk(env):
            raise Undecided("call of %s at line %d" % (q or nm, n["l"]))
        return unk

    def builtin_obj(self, n):
        cls = n.get("cls", "")
        return cls.startswith("espreso::serializededata") or cls.startswith("espreso::edata") or cls.startswith("espreso::Evaluator") or cls.startswith("espreso::tarray") or cls.startswith("espreso::ECF") or cls.startswith("espreso::Tensor")

    def method(self, o, nm, a, n, wantloc):
        t = type(o)
        if t is Eval:
            if nm == "isConst":
                return 1 if o.const else 0
            if nm == "evaluate":
                return self.m.evaluate(o)
            if nm.startswith("get"):
                loc = (o.cell, nm[3:])
                o.cell.setdefault(nm[3:], 0)
                return loc if wantloc else o.cell[nm[3:]]
            if nm.startswith("need"):
                return 0 if o.const or nm == "needTemperature" and not self.m.temp(o.s) or nm == "needCoordinates" and not self.m.place(o.s) else 1
        if t is EIter:
            if nm in ("at",):
                return o.e * o.nodes + a[0]
            if nm == "size":
                return o.nodes
        if t is Vec or t is list:
            if nm == "size": return len(o)
            if nm == "empty": return 1 if not o else 0
            if nm == "push_back":
                o.append(a[0])
                return None
            if nm == "data": return Ptr(o, 0)
            if nm in ("front", "back"): return o[0 if nm == "front" else -1]
        if t is Path:
            if nm == "get" and all(type(x) is int for x in a):
                return self.m.path(Path("%s.get(%s)" % (o.s, ",".join(map(str, a)))), self.type_of(n))
            return self.m.path(Path("%s.%s(%s)" % (o.s, nm, ",".join(map(str, a)))), self.type_of(n))
        if t is Obj and n.get("fid") in self.fn:
            return self.call(self.fn[n["fid"]], o, a)
        raise Undecided("method %s of %s at line %d" % (nm, t.__name__, n["l"]))


class OutOfBounds(Exception):
    def __init__(self, tu, line, i, size):
        Exception.__init__(self, "%s line %s: index %s of an array of %s" % (tu, line, i, size))
        self.line = line


class Machine:
    """one random homomorphism together with the scenario's configuration"""

    def __init__(self, tu, seed, config=None, const=True):
        self.tu, self.seed, self.cfg, self.const = tu, seed, config or {}, const
        self.globals, self.evals, self.cnt = {}, {}, 0
        self.nodal, self.at2, self.gps = {}, {}, None
        self.temp = self.place = lambda path: True
        tu.m = self

    def sym(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=16).digest()
        return int.from_bytes(h, "little") % (PRIME - 1) + 1

    def fresh(self, what):
        self.cnt += 1
        return self.sym(what, self.cnt)

    def fun(self, name, *args):
        """uninterpreted function"""
        if any(type(a) is Dual for a in args):
            raise Undecided("derivative of " + name)
        return self.sym("fun", name) if not args else self.sym("fun", name, *[a % PRIME for a in args])

    def path(self, p, t):
        if p.s in self.cfg:
            v = self.cfg[p.s]
            return v
        k = kind(t) if t else "o"
        if p.s.endswith(".evaluator") or base_type(t) in ("espreso::Evaluator *",):
            return self.eval(p.s)
        if k == "f":
            return self.leaf(p)
        if k == "i" or base_type(t) in self.tu.enums:
            for suf, v in self.cfg.items():
                if suf.startswith("*") and p.s.endswith(suf[1:]):
                    return v
            raise Undecided("unknown quantity " + p.s)
        return p

    def eval(self, s):
        if s not in self.evals:
            self.evals[s] = Eval(s, self.const is True if not callable(self.const) else self.const(s) is True)
        return self.evals[s]

    def leaf(self, p):
        mt = re.search(r"coordinates.*\[(\d+)\]\[(\d+)\]$", p.s)
        if mt:
            return self.coord(int(mt.group(1)), int(mt.group(2)))
        return self.sym("path", p.s)

    def coord(self, node, d):
        return self.sym("x", node, d)

    def evaluate(self, e):
        if e.const:
            return self.value(e.s)
        c = e.cell
        return self.fun("eval " + e.s, c.get("Temperature", 0) if self.temp(e.s) else 0, *(c.get("Coordinate" + x, 0) if self.place(e.s) else 0 for x in "XYZ"))

    def value(self, s):
        return self.sym("value", s)

    def need(self, tu, q):
        if q not in self.globals:
            if q in ("espreso::info::mesh", "espreso::info::ecf"):
                self.globals[q] = Path(q)
            else:
                g = tu.glob.get(q)
                if g and g["var"].get("i") is not None:
                    self.globals[q] = tu.coerce(tu.expr(g["var"]["i"])({}), tu.T[g["var"]["t"]])
                else:
                    self.globals[q] = Path(q)
        return q

    def div(self, a, b, lane):
        if (b.a if type(b) is Dual else b) % PRIME == 0:
            return self.sym("1/0", lane)      # an unused lane (no element there)
        return a * inv(b) % PRIME

    def sqrt(self, x):
        if type(x) is Dual:
            raise Undecided("derivative of sqrt")
        x %= PRIME
        if type(x) is F2:
            n = self.sqrt((x.a * x.a + x.b * x.b) % PRIME)
            if type(n) is F2:
                raise NotSquare()
            for n in (n, -n):
                a2 = (x.a + n) * inv(2) % PRIME
                a = pow(a2, (PRIME + 1) // 4, PRIME)
                if a * a % PRIME == a2 and a:
                    return F2(a, x.b * inv(2 * a)) % PRIME
            raise NotSquare()
        r = pow(x, (PRIME + 1) // 4, PRIME)
        if r * r % PRIME == x:
            return r
        return F2(0, pow(PRIME - x, (PRIME + 1) // 4, PRIME))

    def trig(self, x):
        x %= PRIME
        if x in self.at2:
            return self.at2[x]
        if type(x) is int and x > PRIME // 2:
            c, s = self.trig(PRIME - x)
            return c, -s % PRIME
        t = self.fun("tan(x/2)", x)
        d = inv(1 + t * t)
        return (1 - t * t) * d % PRIME, 2 * t * d % PRIME

    def f1(self, nm, x):
        if nm == "sqrt":
            return self.sqrt(x)
        if nm == "cos":
            return 1 if type(x) is int and x % PRIME == 0 else self.trig(x)[0]
        if nm == "sin":
            return 0 if type(x) is int and x % PRIME == 0 else self.trig(x)[1]
        if nm == "log":
            if type(x) is Dual:
                return Dual(self.log(x.a), x.b * inv(x.a) % PRIME)
            return self.log(x)
        if nm in ("exp", "fabs", "abs", "tan", "asin", "acos", "atan", "floor", "ceil", "cbrt", "sinh", "cosh", "tanh"):
            return self.fun(nm, x)
        raise Undecided("function " + nm)

    def log(self, x):
        return 0 if x % PRIME == 1 else self.fun("log", x)

    def builtin(self, tu, nm, a, n):
        a = [self.leaf(x) if type(x) is Path else x for x in a]
        if nm == "load1": return S([a[0] % PRIME] * LANES)
        if nm == "zeros": return S([0] * LANES)
        if nm == "ones": return S([1] * LANES)
        if nm == "negate": return S([-v % PRIME for v in a[0]])
        if nm == "omp_get_thread_num": return 0
        if nm == "load":
            p = a[0]
            if type(p) is list: p = Ptr(p, 0)
            if type(p) is not Ptr: raise Undecided("load")
            return S([p.a[p.o + i] for i in range(LANES)])
        if nm == "store":
            p = a[0]
            if type(p) is list: p = Ptr(p, 0)
            for i in range(LANES): p.a[p.o + i] = a[1][i]
            return None
        if nm == "rsqrt14":
            return S([inv(self.sqrt(v)) if v % PRIME else self.sym("1/0", i) for i, v in enumerate(a[0])])
        if nm == "positive_guarded_recip":
            return S([inv(v) if v % PRIME else 0 for v in a[0]])
        if nm in ("min", "max") and len(a) == 2:
            if type(a[0]) is S:
                return S([self.fun(nm, *sorted([x % PRIME, y % PRIME])) for x, y in zip(*a)])
            if kind(tu.type_of(n)) == "i":
                return min(a) if nm == "min" else max(a)
            return self.fun(nm, *sorted(x % PRIME for x in a))
        if nm in ("pow", "atan2") and len(a) == 2:
            if type(a[0]) is S:
                return S([self.f2(nm, x, y) for x, y in zip(a[0], a[1] if type(a[1]) is S else [a[1]] * LANES)])
            return self.f2(nm, a[0], a[1])
        if nm == "move" or nm == "forward":
            return a[0]
        if len(a) == 1:
            if type(a[0]) is S:
                return S([self.f1(nm, x) if x != 0 or nm in ("cos", "sin", "sqrt") else self.sym("0", nm, i) for i, x in enumerate(a[0])])
            return self.f1(nm, a[0])
        raise Undecided("function %s" % nm)

    def f2(self, nm, x, y):
        if nm == "pow" and type(y) is int and 0 <= y < 64:
            r = 1
            for _ in range(y):
                r = r * x % PRIME
            return r
        if nm == "atan2":
            r = self.fun(nm, x, y)
            h = inv(self.sqrt((x * x + y * y) % PRIME)) if (x * x + y * y) % PRIME != 0 else 0
            c1, s1 = y * h % PRIME, x * h % PRIME
            c, s = c1, s1
            for k in range(1, 5):
                self.at2[k * r % PRIME] = (c, s)
                self.at2[-k * r % PRIME] = (c, -s % PRIME)
                c, s = (c * c1 - s * s1) % PRIME, (c * s1 + s * c1) % PRIME
            return r
        return self.fun(nm, x, y)

    def eig(self, nm, a):
        A, val = a[0], a[1]
        dim = 2 if "22" in nm else 3
        def at(p, i):
            return p[i] if type(p) is list else p.a[p.o + i]
        for lane in range(LANES):
            args = [at(A, i)[lane] for i in range(dim * dim)]
            for i in range(dim):
                at(val, i)[lane] = self.fun(nm + " value %d" % i, *args)
            if len(a) > 2:
                for i in range(dim * dim):
                    at(a[2], i)[lane] = self.fun(nm + " vector %d" % i, *args)

    def shape(self, kind, key, n, nodes, *d):
        """base functions sum up to one (their derivatives to zero) in every point"""
        if n < nodes - 1:
            return self.sym(kind, *key, n, *d)
        return ((0 if d else 1) - sum(self.sym(kind, *key, k, *d) for k in range(nodes - 1))) % PRIME

    def basefunctions(self, el):
        w, N, dN, NN, dNN = (el[x] for x in ("w", "N", "dN", "NN", "dNN"))
        self.gps = len(w)
        for g in range(len(w)):
            w[g] = self.sym("w", g)
            for n in range(len(N[g])):
                N[g][n] = self.shape("N", (g,), n, len(N[g]))
                for d in range(len(dN[g][n])):
                    dN[g][n][d] = self.shape("dN", (g,), n, len(N[g]), d)
        for n in range(len(NN)):
            for m in range(len(NN)):
                NN[n][m] = 1 if n == m else 0
                for d in range(len(dNN[n][m])):
                    dNN[n][m][d] = self.shape("dNN", (n,), m, len(NN), d)


class NotSquare(Exception):
    pass
