from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

IR = "src/mlio/instance_readers/"
SRCS = [IR + "ranged_instance_reader.cc", IR + "core_instance_reader.cc", IR + "instance_reader.cc"]
SKIP, LIM = z3.BitVecs("num_instances_to_skip num_instances_to_read", 64)
HAS = z3.BitVec("has_limit", 8)

def params(u, ex, st, **kw):
    o = Obj("params", field(u, "Data_reader_params", "__size__"), True)
    P = lambda n: field(u, "Data_reader_params", n)
    ex.store_raw(st, o, P("num_instances_to_skip"), 8, SKIP); ex.store_raw(st, o, P("num_instances_to_read"), 8, LIM)
    ex.store(st, Ptr(o, P("num_instances_to_read") + 8), HAS, I8, u.mods[0]); st.assume(z3.ULE(HAS, BV(1, 8)))
    return o
def f(u, n): return field(u, "Ranged_instance_reader", n)

def spec_read(u):
    """object invariant: first_read -> position 0 and nothing read yet;
    otherwise position == skip + instances read (or the dataset ended)."""
    first, CNT = z3.BitVec("first_read", 8), z3.BitVec("num_instances_read", 64)
    inner = Inner(u, [SKIP]); I = inner.I; N = inner.N
    this = Obj("this", f(u, "__size__"), True); out = outobj("result", I.size)
    start = z3.If(first == 1, SKIP, inner.pos0)      # position of the first instance that may be delivered
    def setup(ex, st):
        inner.init(ex, st); p = params(u, ex, st)
        ex.store(st, Ptr(this, f(u, "params_")), Ptr(p, 0), PT, u.mods[0]); ex.store(st, Ptr(this, f(u, "inner_")), Ptr(inner.obj, 0), PT, u.mods[0])
        ex.store(st, Ptr(this, f(u, "first_read_")), first, I8, u.mods[0]); ex.store(st, Ptr(this, f(u, "num_instances_read_")), CNT, I64, u.mods[0])
        st.assume(z3.ULE(first, BV(1, 8)), z3.Implies(first == 1, z3.And(inner.pos0 == 0, CNT == 0)), z3.Implies(first == 0, z3.Or(inner.pos0 == N, z3.And(z3.UGE(inner.pos0, SKIP), inner.pos0 - SKIP == CNT))),
                  z3.ULE(CNT, BV(1 << 50, 64)), z3.Implies(HAS == 1, z3.ULE(CNT, LIM)))
        return [Ptr(out, 0), Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw":
            yield "ensures: only an error of the inner reader is passed on", z3.BoolVal(bool(st.ghost.get("err"))); return
        eng = simp(I.engaged(ex, st, out)); pos = st.ghost["pos"]
        c2 = bv(cell(ex, st, this, f(u, "num_instances_read_"), I64), 64); f2 = bv(cell(ex, st, this, f(u, "first_read_"), I8), 8)
        full = z3.And(HAS == 1, CNT == LIM)
        if eng is True:
            ex.cover("first", first == 1); ex.cover("later", first == 0)
            yield "ensures: the instance is the next one of the range", I.is_number(ex, st, out, 0, start, inner.store, inner.data)
            yield "ensures: the limit was not reached before", z3.Not(full)
            yield "ensures: exactly the instances up to it are consumed", pos == start + 1
            yield "ensures: it is counted", z3.And(c2 == CNT + 1, pos - SKIP == c2, z3.UGE(pos, SKIP))
        elif eng is False:
            ex.cover("limit", full); ex.cover("end", z3.Not(full))
            yield "ensures: the end is reported exactly when the limit is reached or the dataset has no further instance", z3.Or(full, z3.And(z3.UGE(start, N), pos == N))
            yield "ensures: nothing is counted", c2 == CNT
            yield "ensures: after the end it stays at the end", z3.Or(pos == N, z3.And(full, z3.UGE(pos, SKIP), pos - SKIP == c2))
        else: yield "ensures: an instance or the end", False
        yield "ensures: the next read is not a first one", f2 == 0
    return dict(name="Ranged_instance_reader::read_instance_core", fn=r"mlio::detail::Ranged_instance_reader::read_instance_core\(", setup=setup, post=post, cands=[inner.cands], stubs=REFS,
                covers=["first", "later", "limit", "end"], opts=dict(virtual=inner.virtual()))

def spec_reset(u):
    inner = Inner(u); this = Obj("this", f(u, "__size__"), True)
    def setup(ex, st):
        inner.init(ex, st)
        ex.store(st, Ptr(this, f(u, "inner_")), Ptr(inner.obj, 0), PT, u.mods[0])
        return [Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        yield "ensures: the inner reader starts again", st.ghost["pos"] == 0
        yield "ensures: the next read is a first one of a new range", z3.And(bv(cell(ex, st, this, f(u, "first_read_"), I8), 8) == 1, bv(cell(ex, st, this, f(u, "num_instances_read_"), I64), 64) == 0)
    return dict(name="Ranged_instance_reader::reset_core", fn=r"mlio::detail::Ranged_instance_reader::reset_core\(", setup=setup, post=post, stubs=REFS, opts=dict(virtual=inner.virtual()))

def spec_make(u):
    """make_instance_reader stacks the readers so that the range comes before
    sharding, sampling and shuffling; each constructor is replaced by what it
    does with the reader it is given (P08 and others prove the constructors)"""
    P = lambda n: field(u, "Data_reader_params", n)
    out = outobj("result", 8); fac = Obj("factory", None, True); prm = {}
    NSH, IDX = z3.BitVecs("num_shards shard_index", 64); SMP, SHF = z3.BitVecs("has_sample_ratio shuffle_instances", 8)
    def made(kind):
        def h(ex, st, a, i):
            if kind == "core": below = ()
            else:
                q = ex.load(st, a[2], PT, u.mods[0])
                below = st.ghost.get(("chain", q.o.id)) if isinstance(q, Ptr) and q.o is not None else None
                ex.store(st, a[2], NULL, PT, u.mods[0])
            ok = isinstance(a[1], Ptr) and a[1].o is prm.get("p")
            vinit(ex, st, a[0].o, "Inner")
            st.ghost[("chain", a[0].o.id)] = (below + (kind,)) if below is not None and ok else None
        return h
    def setup(ex, st):
        prm["p"] = o = params(u, ex, st)
        ex.store_raw(st, o, P("num_shards"), 8, NSH); ex.store_raw(st, o, P("shard_index"), 8, IDX)
        ex.store(st, Ptr(o, P("sample_ratio") + 4), SMP, I8, u.mods[0]); ex.store(st, Ptr(o, P("shuffle_instances")), SHF, I8, u.mods[0])
        st.assume(z3.ULE(SMP, BV(1, 8)), z3.ULE(SHF, BV(1, 8)))
        return [Ptr(out, 0), Ptr(o, 0), Ptr(fac, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        q = cell(ex, st, out, 0, PT)
        ch = st.ghost.get(("chain", q.o.id)) if isinstance(q, Ptr) and q.o is not None else None
        yield "ensures: a reader over the given parameters and the whole stack", z3.BoolVal(ch is not None)
        if ch is None: return
        rng = z3.Or(SKIP != 0, HAS == 1); sh = z3.UGT(NSH, BV(1, 64))
        yield "ensures: the order is core, range, shard, sample, shuffle", z3.BoolVal(ch == tuple(k for k in ("core", "ranged", "sharded", "sampled", "shuffled") if k in ch))
        yield "ensures: a range is applied when one is asked for", z3.Implies(rng, z3.BoolVal("ranged" in ch))
        yield "ensures: shards are applied when asked for", z3.Implies(sh, z3.BoolVal("sharded" in ch))
        yield "ensures: without shards only a bad shard index reaches the sharded reader", z3.BoolVal(True) if "sharded" not in ch else z3.Or(sh, IDX != 0, NSH == 1)
        yield "ensures: sampling exactly when asked for", (SMP == 1) == z3.BoolVal("sampled" in ch)
        yield "ensures: shuffling exactly when asked for", (SHF == 1) == z3.BoolVal("shuffled" in ch)
        for k in ch: ex.cover(k)
    C = lambda c, k: R(rf"mlio::detail::{c}_instance_reader::{c}_instance_reader\(", made(k))
    return dict(name="make_instance_reader", fn=r"mlio::detail::make_instance_reader\(", setup=setup, post=post,
                stubs=REFS + [C("Core", "core"), C("Ranged", "ranged"), C("Sharded", "sharded"), C("Sampled", "sampled"), C("Shuffled", "shuffled"), R(r"std::function<.*>::(~?function|operator=|swap)", nop)],
                covers=["core", "ranged", "sharded", "sampled", "shuffled"], opts=dict(virtual=Inner(u).virtual(), bounds={}))

def specs(u): return [spec_read, spec_reset, spec_make]
HARNESS = dict(file="P09.cc", srcs=build.core, secs=6)
NOTE = "read and reset of the ranged reader are proved over an abstract inner reader for every skip, limit and dataset size, the order of the reader stack is proved for make_instance_reader; the whole stack is additionally run against an independent selection."
ASSUME = ["the inner reader delivers its sequence and then the end (P06, P13)", "datasets of at most 2^50 instances"]
