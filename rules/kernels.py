"""Scenarios for the element kernels: set up the operators of one element interval, interpret the kernel's
syntax tree (algebra.py) and compare every output with the formula of the finite element method."""
import glob, math, multiprocessing, os, re, sys
from fractions import Fraction
import facts
from facts import REPO
import algebra
from algebra import TU, Machine, Undecided, ErrorCall, OutOfBounds, NotSquare, Obj, Ptr, Vec, Path, EIter, S, Dual, LANES, inv
from algebra import PRIME as P

sys.setrecursionlimit(20000)


def transpose(a):
    return [list(x) for x in zip(*a)]


def matmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) % P for c in zip(*b)] for r in a]


def det3(a):
    if len(a) == 1:
        return a[0][0]
    if len(a) == 2:
        return (a[0][0] * a[1][1] - a[0][1] * a[1][0]) % P
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) % P


def inverse(a):
    d = inv(det3(a))
    if len(a) == 1:
        return [[d]]
    if len(a) == 2:
        return [[a[1][1] * d % P, -a[0][1] * d % P], [-a[1][0] * d % P, a[0][0] * d % P]]
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            c[j][i] = (a[i1][j1] * a[i2][j2] - a[i1][j2] * a[i2][j1]) * d % P
    return c


def group(cls, pid, tier, physics, fn, args):
    ctx = cls(pid, tier)
    r = Run(ctx, physics)
    fn(r, *args)
    return {"counts": ctx.counts, "samples": ctx.samples, "violations": ctx.violations, "obligations": ctx.obligations}, r.undecided, r.funcs, {t[0].name for t in r.tus.values() if t}


class Run:
    def __init__(self, ctx, physics):
        self.ctx, self.physics, self.tus, self.undecided, self.funcs, self.names = ctx, physics, {}, {}, set(), set()

    def all(self, jobs, workers=8):
        """run scenario groups (function, arguments...) in parallel processes and merge what they found"""
        with multiprocessing.get_context("fork").Pool(workers) as pool:
            res = [pool.apply_async(group, (type(self.ctx), self.ctx.pid, self.ctx.tier, self.physics, fn, args)) for fn, *args in jobs]
            for r in res:
                c, und, funcs, names = r.get()
                for k, v in c["counts"].items():
                    self.ctx.count(k, v)
                for k, v in c["samples"].items():
                    for x in v:
                        self.ctx.sample(k, x, 400)
                for k, v in c["violations"].items():
                    self.ctx.violations.setdefault(k, v)
                self.ctx.obligations += c["obligations"]
                self.undecided.update(und)
                self.funcs |= funcs
                self.names |= names

    def tu(self, what, code):
        """the translation unit that specialises run<what><code>"""
        k = (what, code)
        if k in self.tus:
            return self.tus[k]
        cand = []
        for f in sorted(glob.glob(os.path.join(REPO, "src/analysis/assembler", self.physics, "*.cpp"))):
            if re.search(r"CODE::%s\b" % code, open(f, errors="replace").read()):
                cand.append(os.path.relpath(f, REPO))
        r = None
        for doc in facts.extract(cand, 8, allinst="src/analysis/assembler/") if cand else []:
            t = next((x for x in self.tus.values() if x and x[0].name == doc["tu"]), None)
            t = t[0] if t else TU(doc)
            fs = [f for f in t.find("espreso::run" + what) if f.get("b") and re.search(r"CODE::%s\b" % code, f["cta"] or f.get("ta") or "")]
            if fs:
                r = (t, fs[0])
        self.tus[k] = r
        return r

    def case(self, title, make, body):
        """interpret one scenario (again with another homomorphism when a square root leaves the field)"""
        for seed in range(1, 40):
            s = None
            try:
                s = make(seed)
                s.title = title
                body(s)
                self.done(s)
                return
            except NotSquare:
                continue
            except OutOfBounds as e:
                self.ctx.oblige("quantities compared")
                self.ctx.violate("%s: index out of bounds" % title, "%s:%s" % (s.tu.where(e.line) if s else "?", e.line), "%s: %s" % (title, e))
                return
            except (Undecided, ErrorCall) as e:
                self.undecided[title] = "%s %s" % (type(e).__name__, e)
                self.ctx.count("scenarios not decided")
                if s: self.funcs |= s.tu.calls
                return
            except RecursionError:
                self.undecided[title] = "recursion"
                self.ctx.count("scenarios not decided")
                return
            except (KeyError, TypeError, IndexError, AttributeError, ValueError) as e:
                if os.environ.get("VP_DEBUG"):
                    raise
                self.undecided[title] = "%s %s" % (type(e).__name__, e)
                self.ctx.count("scenarios not decided")
                return
        self.undecided[title] = "no homomorphism"

    def done(self, s):
        c = self.ctx
        c.count("scenarios decided")
        c.oblige("quantities compared", s.compared)
        c.sample("scenarios", "%s: %d quantities" % (s.title, s.compared), 200)
        self.funcs |= s.tu.calls
        for key, msg, op in s.known:
            c.violate(key, s.find_op(op), msg)
        groups = {}
        for label, op, got, want in s.bad:
            groups.setdefault((label.split(" of ")[0], op), []).append(label)
        for (lab, op), ls in groups.items():
            op = op or next((o for l, o in s.ops_of if re.match(l, lab)), None)
            w = s.find_op(op)
            c.violate("%s: %s" % (s.title, lab), w, "%s: %s computed by %s %s not the term of the formula (%s%s)" % (s.title, lab, (op or "the kernel").strip("^$").split("|")[0], "is" if len(ls) < 2 else "are", "; ".join(ls[:3]), "; ..." if len(ls) > 3 else ""))

    def finish(self, floor):
        c = self.ctx
        c.counts["kernel functions interpreted"] = len(self.funcs)
        c.counts["translation units parsed"] = len(self.names | {t[0].name for t in self.tus.values() if t})
        for f in sorted({"%s (%s:%d)" % x for x in self.funcs}):
            c.sample("functions", f, 400)
        for k, v in self.undecided.items():
            c.sample("not decided", "%s: %s" % (k, v), 200)
        if not c.violations:
            c.floor("scenarios decided", floor)


class Scenario:
    ops_of = ()
    what = "Element"
    opname = None
    E = 3

    def __init__(self, run, code, const, seed, ndim=None, cfg=None):
        self.runner, self.code, self.const = run, code, const
        r = run.tu(self.what, code)
        if r is None:
            raise Undecided("no run%s<%s>" % (self.what, code))
        self.tu, self.entry = r
        self.tu.calls = set()
        self.nodes = int(re.search(r"\d+$", code).group())
        vol = not re.match(r"POINT|LINE|TRIANGLE|SQUARE", code)
        if self.what == "Element":
            self.ndim = self.edim = 3 if vol else 2
        elif self.what == "Boundary":
            self.ndim = 2 if code.startswith("LINE") else 3
            self.edim = self.ndim - 1
        else:
            self.ndim, self.edim = ndim, 0
        self.m = Machine(self.tu, seed, config={"*isset": 1, "espreso::info::mesh.dimension": self.ndim,
                         "espreso::info::mesh.elements.eintervals[0].begin": 0, "espreso::info::mesh.elements.eintervals[0].end": self.E}, const=const)
        self.m.temp, self.m.place = self.temp, self.place
        if cfg:
            self.m.cfg.update(cfg)
        rec = [x for x in self.tu.rec.values() if x["q"] == "espreso::%s%sOperators" % (self.prefix, self.opname or self.what)]
        if not rec:
            raise Undecided("operators")
        self.ops = self.tu.construct(rec[0], None, [])
        self.bufs, self.bufs0, self.shapes = {}, {}, {}
        self.bad, self.known, self.compared, self._geo = [], [], 0, {}

    def temp(self, path):
        """expressions that may depend on the temperature: materials and volume loads"""
        return self.what == "Element" and not path.startswith(("init", "thickness")) and self.kind(path) in (False, "T")

    def place(self, path):
        return self.kind(path) in (False, "X")

    def kind(self, path):
        """True: a constant, "X" / "T" / "t": a function of coordinates / temperature / time only, False: a function of both"""
        return self.m.const(path) if callable(self.m.const) else self.m.const

    # ---------------------------------------------------------------- set up
    def it(self, e):
        return EIter(e, self.nodes)

    def enum(self, q, name):
        for e in self.tu.doc["enums"]:
            if e["q"] == "espreso::" + q:
                for n, v in e["c"]:
                    if n == name:
                        return v
        raise Undecided("enum %s::%s" % (q, name))

    def action(self, name):
        return self.enum("SubKernel::Action", name)

    def buf(self, name, size, sym):
        self.bufs[name] = [self.m.sym(sym, i) for i in range(size)]
        self.bufs0[name] = list(self.bufs[name])
        return Ptr(self.bufs[name], 0)

    def load(self, name, sym):
        for i in range(len(self.bufs[name])):
            self.bufs[name][i] = self.m.sym(sym, i)

    def named(self, name, dim):
        p = self.buf(name, (self.E + 2) * dim, "old " + name)
        self.m.cfg[name + ".data.data()"] = p
        self.m.cfg[name + ".data.size()"] = (self.E + 2) * dim
        return Path(name)

    def chain(self, rec):
        yield rec["id"]
        for b in rec["bid"]:
            if b in self.tu.rec:
                yield from self.chain(self.tu.rec[b])

    def act(self, field, *args, ty=None, name="activate"):
        """call a method of an operator; integral parameters behind the known ones (e.g. an index of the interval) are 0"""
        o = self.ops
        for x in field.split("."):
            o = o[x]
        for cid in self.chain(o.rec):
            fs = [f for f in self.tu.fn.values() if f.get("cid") == cid and f["q"].rsplit("::", 1)[-1] == name and len(f["p"]) >= len(args)]
            if ty:
                fs = [f for f in fs if ty in self.tu.T[f["p"][0]["t"]]]
            fs = [f for f in fs if all(self.tu.T[p["t"]] in ("int", "unsigned long", "size_t", "esint", "long", "unsigned int") for p in f["p"][len(args):])]
            fs.sort(key=lambda f: len(f["p"]))
            if fs:
                return self.tu.call(fs[0], o, list(args) + [0] * (len(fs[0]["p"]) - len(args)))
        raise Undecided("%s.%s/%d" % (field, name, len(args)))

    def filler(self, field, name, total, dofs, boundary):
        o = self.ops[field]
        self.bufs[name] = [0] * total
        self.bufs0[name] = [0] * total
        o["dofs"], o["elements"], o["isactive"] = dofs, self.E, 1
        o["out"] = Ptr(self.bufs[name], 0)
        o["position"] = Ptr([total - 1 - i for i in range(total)], 0)
        o["size"] = total
        return o

    def matrix(self, field, name, n2, shape="FULL", dofs=1):
        n = math.isqrt(n2)
        per = n2 if shape == "FULL" else n * (n + 1) // 2
        o = self.filler(field, name, per * self.E, dofs, False)
        o["shape"] = self.enum("Matrix_Shape", shape)
        self.shapes[name] = (n, per, shape)

    def vector(self, field, name, n, dofs=1, boundary=False, filter=None):
        o = self.filler(field, name, n * self.E, dofs, boundary)
        if filter is not None:
            o["filter"] = filter
        self.shapes[name] = (n, n, "V")

    def run(self, action):
        f = self.entry
        env = {}
        for p in f["p"]:
            t = self.tu.T[p["t"]]
            v = self.ops if "Operators" in t else self.action(action) if "Action" in t else Path("step") if "Step" in t else None
            if v is None:
                raise Undecided("parameter " + t)
            env[p["id"]] = v
        env["this"] = None
        self.tu.run(f, env)
        if self.m.gps is not None:
            self.gps = self.m.gps

    # ---------------------------------------------------------------- inputs
    def w(self, g):
        return self.m.sym("w", g)

    def N(self, g, n):
        return self.m.shape("N", (g,), n, self.nodes)

    def dN(self, g, n, d):
        return self.m.shape("dN", (g,), n, self.nodes, d)

    def dNN(self, a, n, d):
        return self.m.shape("dNN", (a,), n, self.nodes, d)

    def x(self, e, n, d):
        return self.m.coord(e * self.nodes + n, d)

    def T(self, e, n):
        return self.m.sym("T", e * self.nodes + n)

    def jac(self, e, dn, x=None):
        x = x or self.x
        return [[sum(dn(n, d) * x(e, n, c) for n in range(self.nodes)) % P for c in range(self.ndim)] for d in range(self.edim)]

    def geo(self, e, g):
        """det and the derivatives of the base functions by the coordinates"""
        k = (e, g)
        if k not in self._geo:
            J = self.jac(e, lambda n, d: self.dN(g, n, d))
            I = inverse(J)
            self._geo[k] = det3(J), [[sum(I[c][d] * self.dN(g, n, d) for d in range(self.edim)) % P for c in range(self.ndim)] for n in range(self.nodes)]
        return self._geo[k]

    def tangents(self, e, g):
        return self.jac(e, lambda n, d: self.dN(g, n, d))

    def det(self, e, g):
        if self.edim == self.ndim:
            return self.geo(e, g)[0]
        J = self.tangents(e, g)
        if self.ndim == 2:
            return self.m.sqrt((J[0][0] * J[0][0] + J[0][1] * J[0][1]) % P)
        c = cross(J[0], J[1])
        return self.m.sqrt(sum(x * x for x in c) % P)

    def volume(self):
        return sum(self.det(e, g) * self.w(g) for e in range(self.E) for g in range(self.gps)) % P

    def gpx(self, e, g, d):
        return sum(self.N(g, n) * self.x(e, n, d) for n in range(self.nodes)) % P

    def gpT(self, e, g):
        return sum(self.N(g, n) * self.T(e, n) for n in range(self.nodes)) % P

    def isconst(self, path):
        return self.kind(path) is True

    def expr(self, path, e, g, T=True):
        """value of an expression in a Gauss point"""
        path += ".evaluator"
        if self.isconst(path):
            return self.m.value(path)
        xyz = [self.gpx(e, g, d) if d < self.ndim and self.place(path) else 0 for d in range(3)]
        return self.m.fun("eval " + path, self.gpT(e, g) if T and self.m.temp(path) else 0, *xyz)

    def nodal(self, path, e, n, T=True):
        path += ".evaluator"
        if self.isconst(path):
            return self.m.value(path)
        xyz = [self.x(e, n, d) if d < self.ndim and self.place(path) else 0 for d in range(3)]
        return self.m.fun("eval " + path, self.T(e, n) if T and self.m.temp(path) else 0, *xyz)

    def thick(self, e, g):
        if self.ndim == 3:
            return 1
        return sum(self.N(g, n) * self.nodal("thickness", e, n) for n in range(self.nodes)) % P

    def angle(self, v, m=1):
        return m * algebra.PI * v % P * inv(180) % P

    def rotation(self, system, e, g, path="cs"):
        """rows: the axes of the material"""
        m = self.m
        if system == "CARTESIAN":
            a = [self.angle(self.expr("%s.rotation.%s" % (path, x), e, g)) for x in "xyz"]
        else:
            cx, cy = self.expr(path + ".center.x", e, g), self.expr(path + ".center.y", e, g)
            a = [0, 0, m.f2("atan2", (self.gpx(e, g, 1) - cy) % P, (self.gpx(e, g, 0) - cx) % P)]
        c, s = [m.f1("cos", x) for x in a], [m.f1("sin", x) for x in a]
        if self.ndim == 2:
            return [[c[2], s[2]], [-s[2] % P, c[2]]]
        return [[x % P for x in r] for r in (
            (c[1] * c[2], c[1] * s[2], -s[1]),
            (c[2] * s[0] * s[1] - c[0] * s[2], c[0] * c[2] + s[0] * s[1] * s[2], c[1] * s[0]),
            (s[0] * s[2] + c[0] * c[2] * s[1], c[0] * s[1] * s[2] - c[2] * s[0], c[0] * c[1]))]

    # ---------------------------------------------------------------- comparison
    def eq(self, label, got, want, op=None):
        if type(got) is list or type(want) is list:
            for i, (a, b) in enumerate(zip(got, want)):
                self.eq("%s [%d]" % (label, i), a, b, op)
            return
        self.compared += 1
        if type(got) is Path:
            got = self.m.leaf(got)
        if got is None or not (got - want) % P == 0:
            self.bad.append((label, op, got, want))

    def matrix_eq(self, name, f, op=None):
        n, per, shape = self.shapes[name]
        for e in range(self.E):
            want = f(e)
            i = 0
            for r in range(n):
                for c in range(n):
                    if shape == "UPPER" and c < r or shape == "LOWER" and c > r:
                        continue
                    self.eq("%s of element %d row %d column %d" % (name, e, r, c), self.bufs[name][per * self.E - 1 - (e * per + i)], want[r * n + c], op)
                    i += 1

    def matches(self, name, f):
        bad, cmp = self.bad, self.compared
        self.bad = []
        self.matrix_eq(name, f)
        r = not self.bad
        self.bad, self.compared = bad, cmp
        return r

    def vector_eq(self, name, f, op=None):
        n, per, _ = self.shapes[name]
        for e in range(self.E):
            want = f(e)
            for r in range(n):
                self.eq("%s of element %d row %d" % (name, e, r), self.bufs[name][per * self.E - 1 - (e * per + r)], want[r], op)

    def find_op(self, op):
        for q, f, l in sorted(self.tu.calls, key=lambda x: (x[0].endswith("::simd") and -1 or 0, x)):
            if op and re.search(op, q) and not q.endswith(op):
                return "%s:%d" % (f, l)
        return "%s:%d" % (self.entry["f"], self.entry["l"])


def cross(a, b):
    return [(a[1] * b[2] - a[2] * b[1]) % P, (a[2] * b[0] - a[0] * b[2]) % P, (a[0] * b[1] - a[1] * b[0]) % P]
