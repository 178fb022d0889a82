"""Facts about /repo's current source: compile database, extraction, program model.

The extractor (tool/extract.cpp, clang 18 libTooling) parses the translation
units of the current working tree and dumps a name/type-resolved syntax tree.
Nothing from /repo is executed or linked.
"""
import glob, hashlib, json, os, subprocess, sys, tempfile, time, fnmatch
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EXTRACT = os.path.join(BUILD, "extract")
TOOLSRC = os.path.join(VERIF, "tool", "extract.cpp")


class AnalysisBroken(Exception):
    """The analysis could not be carried out (no verdict)."""


WRAP = ["ESPRESO_USE_WRAPPER_%s_MKL=1" % x for x in ("DNBLAS", "DNSOLVER", "LAPACK", "SPBLAS", "SPSOLVER", "SCSOLVER")]
DEFS = {
    "WRAPPERS": WRAP,
    "MKL": ["HAVE_MKL=1", "MKL_INT=int", "MKL_Complex8=std::complex<float>", "MKL_Complex16=std::complex<double>"],
    "BLAS": ["HAVE_BLAS=1"], "LAPACK": ["HAVE_LAPACK=1"], "SUITESPARSE": ["HAVE_SUITESPARSE=1"],
    "METIS": ["HAVE_METIS=1"], "PARMETIS": ["HAVE_PARMETIS=1"], "MKLPDSS": ["HAVE_MKLPDSS=1"],
    "PTHREAD": ["HAVE_PTHREAD=1"], "BACKWARD": ["HAVE_BACKWARD=1", "BACKWARD_HAS_DW"],
    "API": ["FETI4I_INT_WIDTH=32", "MESIO_INT_WIDTH=32"],
    "INFO": ['__ESCOMMIT__="x"', '__ESCXX__="x"', '__ESBUILDPATH__="x"', '__ESCXXFLAGS__="x"'],
}
# directory -> use list (mirrors wscript)
LIBS = [
    ("src/esinfo", ["INFO"]), ("src/config", []), ("src/basis", []), ("src/wrappers/exprtk", []),
    ("src/wrappers/backward-cpp", ["BACKWARD"]), ("src/wrappers/mpi", []), ("src/wrappers/papi", []),
    ("src/mesh", []), ("src/input", []), ("src/output", []), ("src/wrappers/pthread", ["PTHREAD"]),
    ("src/wrappers/catalyst", []), ("src/wrappers/hdf5", []), ("src/wrappers/gmsh", []), ("src/wrappers/nglib", []),
    ("src/wrappers/metis", ["METIS"]), ("src/wrappers/parmetis", ["PARMETIS"]), ("src/wrappers/scotch", []),
    ("src/wrappers/ptscotch", []), ("src/wrappers/kahip", []), ("src/analysis", []), ("src/morphing", []),
    ("src/math", ["WRAPPERS", "BLAS", "LAPACK", "MKL", "SUITESPARSE"]), ("src/autoopt", []), ("src/feti", []),
    ("src/gpu", ["WRAPPERS"]), ("src/wrappers/blas", ["WRAPPERS", "BLAS", "MKL"]),
    ("src/wrappers/lapack", ["WRAPPERS", "LAPACK", "MKL"]), ("src/wrappers/mkl", ["WRAPPERS", "MKL"]),
    ("src/wrappers/precice", []), ("src/wrappers/precice-dummy", []), ("src/wrappers/mklpdss", ["WRAPPERS", "MKLPDSS", "MKL"]),
    ("src/wrappers/suitesparse", ["WRAPPERS", "SUITESPARSE", "MKL"]), ("src/wrappers/mumps", ["WRAPPERS"]),
    ("src/wrappers/pastix", ["WRAPPERS"]), ("src/wrappers/strumpack", ["WRAPPERS"]), ("src/wrappers/superlu_dist", ["WRAPPERS"]),
    ("src/wrappers/openlb", []), ("src/wrappers/bem", []), ("src/wrappers/nvtx", []), ("src/wrappers/oneapi", ["WRAPPERS"]),
    ("src/wrappers/rocm", ["WRAPPERS"]),
]
EXTRA = [("src/api/wrapper.mesio.cpp", ["API"]), ("src/api/api.mesio.cpp", ["API"]), ("src/app/ecfchecker.cpp", []),
         ("src/app/mesio.cpp", []), ("src/app/espreso.cpp", []), ("src/app/dummycoupler.cpp", [])]


def units():
    """All translation units of the configured build: relative path -> use list."""
    out = {}
    for d, use in LIBS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp"):
                    out[os.path.relpath(os.path.join(root, f), REPO)] = use
    for f, use in EXTRA:
        if os.path.exists(os.path.join(REPO, f)):
            out[f] = use
    return out


def flags(use):
    a = ["-std=c++17", "-fopenmp", "-Wno-everything", "-ferror-limit=50", "-fbracket-depth=1024",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
         "-I" + REPO + "/src", "-I" + REPO + "/include", "-I/usr/include/mkl",
         "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
         "-Desint=int", "-D__ESMODE__=RELEASE",
         "-I" + VERIF + "/tool/include"]
    for u in use:
        a += ["-D" + d for d in DEFS[u]]
    return a


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def build_tool():
    stamp = EXTRACT + ".sha"
    want = sha(TOOLSRC)
    if os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    os.makedirs(BUILD, exist_ok=True)
    inc = "/usr/lib/llvm-18/include"
    tmp = EXTRACT + ".%d" % os.getpid()
    cmd = ["/usr/bin/clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", "-w", "-I" + inc, "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", TOOLSRC, "-o", tmp,
           "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout[-2000:])
    os.rename(tmp, EXTRACT)
    with open(stamp, "w") as f:
        f.write(want)


def header_hash():
    h = hashlib.sha1()
    for base in ("src", "include"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".hh", ".cuh", ".inl")) or "." not in f:
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(sha(p).encode())
    return h.hexdigest()


def select(patterns):
    us = units()
    sel = []
    for u in us:
        for p in patterns:
            if fnmatch.fnmatch(u, p):
                sel.append(u)
                break
    return sel, us


def extract(patterns, jobs=8, allinst=None):
    """Run the extractor over the units matching `patterns`; return parsed documents.

    allinst: path prefix below which every template instantiation is emitted (one unit per run, ids included)."""
    build_tool()
    sel, us = select(patterns)
    if not sel:
        raise AnalysisBroken("no translation unit matches %s" % patterns)
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)
    hh = header_hash() + sha(TOOLSRC)
    # one batch per job so headers are emitted once per batch; batch content decides the cache key
    sel.sort()
    weights = [(os.path.getsize(os.path.join(REPO, u)), u) for u in sel]
    batches = [[] for _ in range(len(sel) if allinst else min(jobs * 3, max(1, len(sel))))]
    for i, u in enumerate(sel):
        batches[i % len(batches)].append(u)
    docs = []
    broken = []

    def run(b):
        key = hashlib.sha1((hh + (allinst or "") + REPO + "|" + "|".join(u + sha(os.path.join(REPO, u)) + ",".join(us[u]) for u in b)).encode()).hexdigest()
        d = os.path.join(cache, key)
        if not os.path.exists(d):
            tmp = tempfile.mkdtemp(prefix="x", dir=cache)
            lst = os.path.join(tmp, "list")
            with open(lst, "w") as f:
                for i, u in enumerate(b):
                    f.write("\t".join(["%d.json" % i, os.path.join(REPO, u)] + flags(us[u])) + "\n")
            r = subprocess.run([EXTRACT, tmp, lst, REPO] + ([allinst] if allinst else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                broken.append(r.stderr[-3000:])
                subprocess.run(["rm", "-rf", tmp])
                return None
            try:
                os.rename(tmp, d)
            except OSError:
                subprocess.run(["rm", "-rf", tmp])
        return d

    with ThreadPoolExecutor(jobs) as ex:
        dirs = list(ex.map(run, batches))
    if broken:
        raise AnalysisBroken("source does not parse:\n" + "\n".join(broken)[:3000])
    for d, b in zip(dirs, batches):
        for i, u in enumerate(b):
            with open(os.path.join(d, "%d.json" % i)) as f:
                doc = json.load(f)
            docs.append(doc)
    return docs


def prune_cache(keep=40):
    cache = os.path.join(BUILD, "cache")
    if os.path.isdir(cache):
        ds = sorted((os.path.getmtime(os.path.join(cache, d)), d) for d in os.listdir(cache))
        for _, d in ds[:-400]:
            subprocess.run(["rm", "-rf", os.path.join(cache, d)])


class Func:
    __slots__ = ("q", "n", "f", "l", "el", "cls", "tm", "cta", "ret", "p", "b", "T", "raw", "init", "ov", "uid")

    def __init__(self, d, T, tui):
        self.raw = d
        self.T = T
        self.q, self.n, self.f, self.l, self.el = d["q"], d["n"], d["f"], d["l"], d["el"]
        self.cls = d.get("cls")
        self.tm, self.cta = d["tm"], d["cta"]
        self.ret = T[d["ret"]]
        self.p = d["p"]
        self.b = d["b"]
        self.init = d.get("init", [])
        self.ov = d.get("ov", [])
        self.uid = (tui, d.get("fid"))

    def t(self, node):
        """canonical type of a node"""
        i = node.get("t", 0) if node else 0
        return self.T[i] if isinstance(i, int) else i

    def where(self, node=None):
        return "%s:%d" % (self.f, node["l"] if node and node.get("l") else self.l)

    def __repr__(self):
        return "<%s %s:%d %s>" % (self.q, self.f, self.l, self.tm)


class Program:
    def __init__(self, patterns, allinst=None):
        t0 = time.time()
        self.docs = extract(patterns, allinst=allinst)
        self.functions, self.records, self.enums, self.globals = [], {}, {}, {}
        self.tus = [d["tu"] for d in self.docs]
        seenF, seen = set(), set()
        for ti, d in enumerate(self.docs):
            T = d["types"]
            for f in d["functions"]:
                k = (f["f"], f["l"], f["q"], f["tm"], f["cta"], T[f["sig"]])
                if k in seenF:
                    continue
                seenF.add(k)
                self.functions.append(Func(f, T, ti))
            for r in d["records"]:
                r["T"] = T
                self.records.setdefault(r["q"], []).append(r)
            for e in d["enums"]:
                self.enums[e["q"]] = e
            for g in d["globals"]:
                g["T"] = T
                self.globals.setdefault(g["q"], g)
        # drop duplicate records (per TU batches)
        for q, rs in self.records.items():
            u = {}
            for r in rs:
                u.setdefault((r["f"], r["l"], r["ta"]), r)
            self.records[q] = list(u.values())
        self.byq = {}
        for f in self.functions:
            self.byq.setdefault(f.q, []).append(f)
        self.load_s = time.time() - t0

    def fn(self, q, tm=None, must=True):
        r = [f for f in self.byq.get(q, []) if tm is None or f.tm == tm]
        if not r and must:
            raise AnalysisBroken("anchor function %s not found" % q)
        return r

    def rec(self, q, must=True):
        r = self.records.get(q, [])
        if not r and must:
            raise AnalysisBroken("anchor class %s not found" % q)
        return r[0] if r else None

    def enum(self, q, must=True):
        e = self.enums.get(q)
        if not e and must:
            raise AnalysisBroken("anchor enum %s not found" % q)
        return e


# ---------------------------------------------------------------- tree helpers
CHILD = ("init", "cv", "e", "th", "el", "inc", "var", "b", "x", "y", "i", "o", "fe", "arr")
CHILDL = ("c", "a", "h")


def kids(n):
    """children of a node in source/evaluation order"""
    k = n["k"]
    if k == "If":
        for x in (n.get("init"), n.get("cv"), n.get("e"), n.get("th"), n.get("el")):
            if x: yield x
        return
    if k == "For":
        for x in (n.get("init"), n.get("e"), n.get("b"), n.get("inc")):
            if x: yield x
        return
    if k == "Do":
        yield n["b"]; yield n["e"]
        return
    if k == "OMP":
        for c in n["cl"]:
            for x in c["c"]: yield x
        if n.get("b"): yield n["b"]
        return
    if k == "Lambda":
        yield n["b"]
        return
    if k == "Case":
        yield n["e"]
        if n.get("c"): yield n["c"]
        return
    if k in ("Default", "Label"):
        if n.get("c"): yield n["c"]
        return
    for key in ("init", "cv", "var", "o", "fe", "e", "x", "y", "b", "i"):
        v = n.get(key)
        if isinstance(v, dict) and "k" in v:
            yield v
    v = n.get("arr")
    if isinstance(v, dict):
        yield v
    for key in ("c", "a", "h"):
        v = n.get(key)
        if isinstance(v, list):
            for x in v:
                if x: yield x
        elif isinstance(v, dict):
            yield v


def walk(n, lambdas=True):
    if not n:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        if not lambdas and x["k"] == "Lambda":
            continue
        st.extend(reversed(list(kids(x))))


def calls(n):
    for x in walk(n):
        if x["k"] in ("Call", "OpCall", "Ctor"):
            yield x


def strip(n):
    """look through explicit casts, copies and default-arg wrappers"""
    while n:
        if n["k"] == "Cast" or n["k"] == "DefArg":
            n = n["e"]
        elif n["k"] == "Ctor" and (n.get("cp") or n.get("mv")) and len(n["a"]) == 1:
            n = n["a"][0]
        else:
            return n
    return n


def val(n):
    """integer constant value of a node or None"""
    if not n:
        return None
    if "v" in n and n["k"] in ("Int", "Ref", "Bin", "Un", "Cast", "Sizeof", "Bool", "Chr", "Cond", "Other", "Case"):
        return n["v"]
    if n["k"] in ("Cast", "DefArg"):
        return val(n["e"])
    return None


def text(n):
    """canonical printable form of an expression (whitespace and casts removed)"""
    if n is None:
        return ""
    k = n["k"]
    if k == "Ref":
        return n.get("q") if n.get("d") in ("g", "sm", "e", "f") and n.get("q") else n["n"]
    if k == "Mem":
        b = n["b"]
        if b["k"] == "This":
            return "this." + n["n"]
        return text(b) + "." + n["n"]
    if k == "This":
        return "this"
    if k in ("Int", "Chr", "Bool", "Flt"):
        return str(n["v"])
    if k == "Str":
        return json.dumps(n["v"])
    if k == "Nul":
        return "nullptr"
    if k == "Bin":
        return "(%s%s%s)" % (text(n["x"]), n["op"], text(n["y"]))
    if k == "Un":
        return ("%s%s" if not n.get("post") else "%s%s") % ((n["op"], text(n["e"])) if not n.get("post") else (text(n["e"]), n["op"]))
    if k == "Idx":
        return "%s[%s]" % (text(n["b"]), text(n["i"]))
    if k in ("Cast", "DefArg"):
        return text(n["e"])
    if k == "Cond":
        return "(%s?%s:%s)" % (text(n["e"]), text(n["x"]), text(n["y"]))
    if k == "OpCall":
        a = n["a"]
        if n["op"] == "[]" and len(a) == 2:
            return "%s[%s]" % (text(a[0]), text(a[1]))
        if n["op"] == "()":
            return "%s(%s)" % (text(a[0]), ",".join(text(x) for x in a[1:]))
        if n["op"] == "->" or (n["op"] == "*" and len(a) == 1):
            return ("*" if n["op"] == "*" else "") + text(a[0])
        if len(a) == 2:
            return "(%s%s%s)" % (text(a[0]), n["op"], text(a[1]))
        return "%s%s" % (n["op"], text(a[0])) if a else n["op"]
    if k == "Call":
        fn = n.get("q") or n.get("n") or text(n.get("fe"))
        if n.get("o") is not None:
            o = text(n["o"])
            return "%s.%s(%s)" % (o, n.get("n"), ",".join(text(x) for x in n["a"]))
        return "%s(%s)" % (fn, ",".join(text(x) for x in n["a"]))
    if k == "Ctor":
        if (n.get("cp") or n.get("mv")) and len(n["a"]) == 1:
            return text(n["a"][0])
        return "%s(%s)" % (n.get("q", "ctor"), ",".join(text(x) for x in n["a"]))
    if k == "Sizeof":
        return "sizeof(%s)" % (n.get("at"),)
    if k == "Init":
        return "{%s}" % ",".join(text(x) for x in n["c"])
    if k == "New":
        return "new"
    return k
