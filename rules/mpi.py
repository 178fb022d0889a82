"""Shared model of the MPI layer: which calls transfer what, which are collective."""
import re
from facts import walk, kids, strip, text, val

COLLECTIVE = {"MPI_" + x for x in ("Allreduce Allgather Allgatherv Bcast Barrier Exscan Scan Alltoall Alltoallv Gather Gatherv Scatter Scatterv Reduce "
              "Reduce_scatter Comm_split Comm_split_type Comm_dup Comm_create Comm_create_group Comm_free Ireduce Iallreduce Ibarrier Ibcast File_open "
              "File_write_at_all File_read_at_all File_set_view File_set_size Win_create Win_free Win_fence Comm_spawn").split()}
SEND = {"MPI_Send", "MPI_Isend", "MPI_Ssend", "MPI_Bsend", "MPI_Rsend", "MPI_Issend"}
RECV = {"MPI_Recv", "MPI_Irecv"}
PROBE = {"MPI_Probe", "MPI_Iprobe"}
# call -> [(buffer, count, datatype)]  (count None: a vector of counts)
TRANSFER = {"MPI_Bcast": [(0, 1, 2)], "MPI_Allreduce": [(0, 2, 3), (1, 2, 3)], "MPI_Reduce": [(0, 2, 3), (1, 2, 3)], "MPI_Exscan": [(0, 2, 3), (1, 2, 3)],
            "MPI_Scan": [(0, 2, 3), (1, 2, 3)], "MPI_Iallreduce": [(0, 2, 3), (1, 2, 3)],
            "MPI_Allgather": [(0, 1, 2), (3, 4, 5)], "MPI_Gather": [(0, 1, 2), (3, 4, 5)], "MPI_Scatter": [(0, 1, 2), (3, 4, 5)], "MPI_Alltoall": [(0, 1, 2), (3, 4, 5)],
            "MPI_Alltoallv": [(0, None, 3), (4, None, 7)], "MPI_Scatterv": [(0, None, 3), (4, 5, 6)], "MPI_Gatherv": [(0, 1, 2), (3, None, 6)],
            "MPI_Allgatherv": [(0, 1, 2), (3, None, 6)],
            "MPI_File_read_at": [(2, 3, 4)], "MPI_File_read_at_all": [(2, 3, 4)], "MPI_File_write_at": [(2, 3, 4)], "MPI_File_write_at_all": [(2, 3, 4)],
            "espreso::Communication::broadcast": [(0, 1, 2)], "espreso::Communication::allReduce": [(0, 2, 3), (1, 2, 3)],
            "espreso::Communication::reduce": [(0, 2, 3), (1, 2, 3)], "espreso::Communication::exscan": [(0, 2, 3), (1, 2, 3)],
            "espreso::Communication::allGather": [(0, 2, 3), (1, 2, 3)]}
for s in SEND | RECV:
    TRANSFER[s] = [(0, 1, 2)]
# (buffer, count, datatype, peer, tag, communicator)
PEER = {s: (3, 4, 5) for s in SEND | RECV}
PEER.update({"MPI_Probe": (0, 1, 2), "MPI_Iprobe": (0, 1, 2)})
COMM = {"MPI_Bcast": 4, "MPI_Allreduce": 5, "MPI_Reduce": 6, "MPI_Exscan": 5, "MPI_Scan": 5, "MPI_Allgather": 6, "MPI_Gather": 7, "MPI_Scatter": 7, "MPI_Alltoall": 6,
        "MPI_Alltoallv": 8, "MPI_Scatterv": 8, "MPI_Gatherv": 8, "MPI_Allgatherv": 7, "MPI_Barrier": 0}
for s in PEER:
    COMM[s] = PEER[s][2]

NATIVE = {"char": (1, "i"), "signed char": (1, "i"), "unsigned char": (1, "i"), "bool": (1, "i"), "short": (2, "i"), "unsigned short": (2, "i"), "int": (4, "i"), "unsigned int": (4, "i"),
          "long": (8, "i"), "unsigned long": (8, "i"), "long long": (8, "i"), "unsigned long long": (8, "i"), "float": (4, "f"), "double": (8, "f"),
          "std::complex<double>": (16, "c"), "std::complex<float>": (8, "c")}
PREDEF = {"char": "char", "signed_char": "signed char", "unsigned_char": "unsigned char", "short": "short", "unsigned_short": "unsigned short", "int": "int", "unsigned": "unsigned int",
          "long": "long", "unsigned_long": "unsigned long", "long_long_int": "long long", "unsigned_long_long": "unsigned long long", "float": "float", "double": "double",
          "dblcplex": "std::complex<double>", "cxx_dblcplex": "std::complex<double>", "c_double_complex": "std::complex<double>", "cxx_cplex": "std::complex<float>",
          "c_float_complex": "std::complex<float>", "cplex": "std::complex<float>", "cxx_bool": "bool", "c_bool": "bool", "int8_t": "signed char", "uint8_t": "unsigned char",
          "int32_t": "int", "uint32_t": "unsigned int", "int64_t": "long", "uint64_t": "unsigned long"}


def predefined(e):
    """C type of a predefined MPI datatype constant, 'byte', or None"""
    e = strip(e)
    if e and e["k"] == "Un" and e["op"] == "&":
        r = strip(e["e"])
        if r["k"] == "Ref" and r["n"].startswith("ompi_mpi_"):
            n = r["n"][len("ompi_mpi_"):]
            return "byte" if n in ("byte", "packed") else PREDEF.get(n, "?")
    return None


def name(x):
    if x["k"] != "Call":
        return None
    q = x.get("q") or x.get("n")
    return q[2:] if q and q.startswith("::") else q


def pointee(t):
    """pointer type -> element type"""
    t = t.strip()
    if t.endswith("]"):
        m = re.match(r"^(.*?)\s*\[\d*\]$", t)
        return unconst(m.group(1)) if m else None
    if t.endswith("const"):
        t = t[:-5].strip()
    if not t.endswith("*"):
        return None
    return unconst(t[:-1].strip())


def unconst(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith(" const"):
        t = t[:-6]
    return t.replace("volatile ", "").strip()


class Locals:
    """initialisers of local variables assigned only once"""

    def __init__(self, f):
        self.init, self.writes = {}, {}
        for x in walk(f.b):
            if x["k"] == "Var":
                self.init[x["id"]] = x.get("i")
            elif x["k"] == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                r = strip(x["x"])
                if r["k"] == "Ref":
                    self.writes[r.get("id")] = self.writes.get(r.get("id"), 0) + 1
            elif x["k"] == "Un" and x["op"] in ("++", "--"):
                r = strip(x["e"])
                if r["k"] == "Ref":
                    self.writes[r.get("id")] = self.writes.get(r.get("id"), 0) + 1

    def resolve(self, e, depth=4):
        e = strip(e)
        while depth and e is not None and e["k"] == "Ref" and e.get("d") == "v" and e.get("id") in self.init and not self.writes.get(e["id"]) and self.init[e["id"]] is not None:
            e = strip(self.init[e["id"]])
            depth -= 1
        return e


def factors(e, loc):
    """leaves of a product"""
    e = loc.resolve(e)
    if e is None:
        return []
    if e["k"] == "Bin" and e["op"] == "*":
        return factors(e["x"], loc) + factors(e["y"], loc)
    return [e]
