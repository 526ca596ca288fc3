from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

SRCS = ["src/mlio/instance_batch_reader.cc", "src/mlio/instance_readers/core_instance_reader.cc"]
B, IDX, K = z3.BitVecs("batch_size batch_idx K", 64); LAST = z3.BitVec("last_example_handling", 32)
U = lambda x: bv(x, 64)
def f(u, n): return field(u, "Instance_batch_reader", n)
def params(u, ex, st):
    o = Obj("params", field(u, "Data_reader_params", "__size__"), True); P = lambda n: field(u, "Data_reader_params", n)
    ex.store_raw(st, o, P("batch_size"), 8, B); ex.store(st, Ptr(o, P("last_example_handling")), LAST, I32, u.mods[0]); st.assume(z3.ULE(LAST, BV(4, 32)))
    return o
DROP, PAD = z3.Or(LAST == 1, LAST == 2), z3.Or(LAST == 3, LAST == 4)

class Vec(AVec):
    """the list of instances wherever it is moved to: the ghost 'home' is the
    address of the vector that has them"""
    def __init__(s, inner): AVec.__init__(s, inner, "mlio::Instance", False, 0, None, name="instances")
    def vec(s, p): pass
    def at_home(s, st, p): return st.ghost.get("home") is not None and st.ghost["home"] == (p.o.id, p.f)
    def stubs(s):
        V = r"std::vector<mlio::Instance, std::allocator<mlio::Instance> ?>::"
        def ctor(ex, st, a, i):
            if st.ghost.get("home") is not None: raise ir.Unsupported("a second list of instances")
            st.ghost["home"] = (a[0].o.id, a[0].f); st.ghost[s.kn] = BV(0, 64)
        def move(ex, st, a, i):
            if not s.at_home(st, a[1]): raise ir.Unsupported("move of another list")
            st.ghost["home"] = (a[0].o.id, a[0].f)
        r = [R(V + r"vector\(\)", ctor), R(V + r"(vector|operator=)\(std::vector<mlio::Instance, std::allocator<mlio::Instance> ?>&&\)", move)]
        for st_ in AVec.stubs(s):
            r.append(st_)
        return [wrapped(s, x) for x in r]
def wrapped(s, x):
    import copy
    h = x[1] if isinstance(x, tuple) else x.handler
    def w(ex, st, a, i):
        nm = dem(i.x[0].v) if hasattr(i, "x") and i.x and getattr(i.x[0], "k", "") == "global" else ""
        if "::vector(" not in nm and "::~vector" not in nm and nm.startswith("std::vector<") and a and isinstance(a[0], Ptr) and not s.at_home(st, a[0]):
            if "::size(" in nm: return BV(0, 64)
            if "::empty(" in nm: return 1
            if "::reserve(" not in nm: raise ir.Unsupported("list of instances used after it was moved: " + nm)
        return h(ex, st, a, i)
    if isinstance(x, tuple): return (x[0], w) + tuple(x[2:])
    y = copy.copy(x); y.handler = w; return y

def spec_read(u):
    inner = Inner(u, [B]); I = inner.I; V = Vec(inner); N, p0 = inner.N, inner.pos0
    this = Obj("this", f(u, "__size__"), True); L = lambda n: field(u, "Instance_batch", n); out = outobj("result", L("__size__") + 8)
    def setup(ex, st):
        inner.init(ex, st); V.init(ex, st, 0); p = params(u, ex, st)
        ex.store(st, Ptr(this, f(u, "params_")), Ptr(p, 0), PT, u.mods[0]); ex.store(st, Ptr(this, f(u, "reader_")), Ptr(inner.obj, 0), PT, u.mods[0])
        ex.store(st, Ptr(this, f(u, "batch_idx_")), IDX, I64, u.mods[0]); st.ghost["home"] = None
        st.assume(B != 0)
        return [Ptr(out, 0), Ptr(this, 0)]
    def items(g): return z3.Implies(z3.ULT(K, g[V.kn]), z3.Select(g[V.ka], K) == p0 + K)
    def cands(sn):
        g = sn.st.ghost; n, p = g[V.kn], g["pos"]; r = [("all read are kept", p == p0 + n), ("in order", items(g)), ("not more than a batch", z3.ULE(n, B))]
        for q, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{q} counts", U(v) == n), (f"{q} counts down", U(v) == B - n)]
        return inner.cands(sn) + r
    def post(ex, st, o):
        g = st.ghost; n, p = g[V.kn], g["pos"]; idx = bv(cell(ex, st, this, f(u, "batch_idx_"), I64), 64)
        if o[0] == "throw":
            yield "ensures: only an error of the reader is passed on", z3.BoolVal(bool(g.get("err"))); yield "ensures: a failed batch is not numbered", idx == IDX; return
        yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err"))
        e = simp(bv(cell(ex, st, out, L("__size__"), I8), 8) == 1)
        if e is True:
            ex.cover("full", n == B); ex.cover("short", z3.And(n != B, LAST == 0)); ex.cover("padded", z3.And(n != B, LAST == 3)); ex.cover("padded with a warning", z3.And(n != B, LAST == 4))
            C = lambda m: bv(cell(ex, st, out, L(m), I64), 64)
            yield "ensures: the batch holds its list", z3.BoolVal(g["home"] == (out.id, L("instances_")))
            yield "ensures: a batch is never empty and never larger than asked", z3.And(n != 0, z3.ULE(n, B))
            yield "ensures: only the last batch is short, and it is not dropped", z3.Implies(n != B, z3.And(p == N, z3.Not(DROP)))
            yield "ensures: it holds the next instances in order, each once", z3.And(p == p0 + n, items(g))
            yield "ensures: its size is the full size when it is padded, otherwise the number of its instances", C("size_") == z3.If(PAD, B, n)
            yield "ensures: batches are numbered in order", z3.And(C("index_") == IDX, idx == IDX + 1)
        elif e is False:
            ex.cover("end", p0 == N); ex.cover("dropped", p0 != N)
            yield "ensures: nothing is left when no batch is delivered", p == N
            yield "ensures: instances are dropped only as a short last batch when asked to", z3.Or(p0 == N, z3.And(DROP, z3.ULT(N - p0, B)))
            yield "ensures: no number is used", idx == IDX
        else: yield "ensures: a batch or the end", False
    return dict(name="Instance_batch_reader::read_instance_batch", fn=r"mlio::detail::Instance_batch_reader::read_instance_batch\(", setup=setup, post=post, cands=[cands], covers=["full", "short", "padded", "padded with a warning", "end", "dropped"],
                stubs=[R(r"(void )?mlio::logger::(warn|info|error|debug)", nop), R(r"^strlen$", lambda ex, st, a, i: ex.fresh("strlen"))] + REFS + V.stubs(), opts=dict(virtual=inner.virtual(), watch=[K]))

def spec_reset(u):
    inner = Inner(u); this = Obj("this", f(u, "__size__"), True)
    def setup(ex, st):
        inner.init(ex, st); ex.store(st, Ptr(this, f(u, "reader_")), Ptr(inner.obj, 0), PT, u.mods[0]); ex.store(st, Ptr(this, f(u, "batch_idx_")), IDX, I64, u.mods[0]); return [Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        yield "ensures: the dataset is read from its start", st.ghost["pos"] == 0
        yield "ensures: batches are numbered from zero", bv(cell(ex, st, this, f(u, "batch_idx_"), I64), 64) == 0
    return dict(name="Instance_batch_reader::reset", fn=r"mlio::detail::Instance_batch_reader::reset\(", setup=setup, post=post, stubs=REFS, opts=dict(virtual=inner.virtual()))

def spec_ctor(u):
    inner = Inner(u); this = Obj("this", f(u, "__size__"), False); P = {}
    def setup(ex, st):
        inner.init(ex, st); P["p"] = params(u, ex, st); return [Ptr(this, 0), Ptr(P["p"], 0), Ptr(inner.obj, 0)]
    def post(ex, st, o):
        if o[0] == "throw":
            ex.cover("refused"); yield "ensures: only a zero batch size is refused", z3.And(B == 0, z3.BoolVal(is_exc(o, "invalid_argument"))); return
        ex.cover("accepted"); yield "ensures: a zero batch size is refused", B != 0
        p, r = cell(ex, st, this, f(u, "params_"), PT), cell(ex, st, this, f(u, "reader_"), PT)
        yield "ensures: the given reader and parameters are used", z3.BoolVal(isinstance(p, Ptr) and p.o is P["p"] and isinstance(r, Ptr) and r.o is inner.obj)
        yield "ensures: batches are numbered from zero", bv(cell(ex, st, this, f(u, "batch_idx_"), I64), 64) == 0
    return dict(name="Instance_batch_reader::Instance_batch_reader", fn=r"mlio::detail::Instance_batch_reader::Instance_batch_reader\(", setup=setup, post=post, covers=["refused", "accepted"], stubs=REFS)

def specs(u): return [spec_read, spec_reset, spec_ctor]
HARNESS = dict(file="P12.cc", srcs=build.readers, secs=6)
NOTE = "the grouping into batches is proved for every dataset and batch size; how the data readers turn a padded batch into an example (padding count, zero rows) is covered by the bounded run here and by P21 and P23."
ASSUME = ["the instance reader delivers its sequence and then the end (P06, P13)", "std::vector behaves as documented and allocation succeeds", "datasets of at most 2^50 instances"]
