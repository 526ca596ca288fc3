from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

IR = "src/mlio/instance_readers/"
SRCS = [IR + "sharded_instance_reader.cc", IR + "core_instance_reader.cc"]
U = lambda x: bv(x, 64)
IDX, NSH = z3.BitVecs("shard_index num_shards", 64)

def params(u, ex, st, **kw):
    o = Obj("params", field(u, "Data_reader_params", "__size__"), True); o.const = True
    for k, v in kw.items(): ex.store_raw(st, o, field(u, "Data_reader_params", k), 8, v)
    return o
def f(u, n): return field(u, "Sharded_instance_reader", n)

def spec_read(u):
    """the k-th call delivers instance shard_index + k * num_shards.  The
    object invariant is position == 0 before the first read and
    position == shard_index + k * num_shards + 1 after the k-th: it is kept
    by each call, so one call from any such state decides all histories."""
    first = z3.BitVec("first_read", 8)
    inner = Inner(u, [z3.If(first == 1, IDX, NSH - 1)]); I = inner.I
    this = Obj("this", f(u, "__size__"), True); out = outobj("result", I.size)
    def setup(ex, st):
        inner.init(ex, st)
        p = params(u, ex, st, shard_index=IDX, num_shards=NSH)
        ex.store(st, Ptr(this, f(u, "params_")), Ptr(p, 0), PT, u.mods[0]); ex.store(st, Ptr(this, f(u, "inner_")), Ptr(inner.obj, 0), PT, u.mods[0])
        ex.store(st, Ptr(this, f(u, "first_read_")), first, I8, u.mods[0])
        st.assume(z3.ULT(IDX, NSH), z3.ULE(first, BV(1, 8)), z3.Implies(first == 1, inner.pos0 == 0), z3.ULE(NSH, BV(1 << 50, 64)))
        return [Ptr(out, 0), Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw":
            yield "ensures: only an error of the inner reader is passed on", z3.BoolVal(bool(st.ghost.get("err"))); return
        want = z3.If(first == 1, IDX, inner.pos0 + NSH - 1)     # the instance this call must deliver
        eng = simp(I.engaged(ex, st, out)); pos = st.ghost["pos"]
        if eng is True:
            ex.cover("first", first == 1); ex.cover("later", first == 0)
            yield "ensures: the instance is the next one of the shard", I.is_number(ex, st, out, 0, want, inner.store, inner.data)
            yield "ensures: exactly the instances up to it are consumed", pos == want + 1
        elif eng is False:
            ex.cover("end")
            yield "ensures: the end is reported exactly when the shard has no further instance", z3.And(z3.UGE(want, inner.N), pos == inner.N)
        else: yield "ensures: an instance or the end", False
        yield "ensures: the next read is not a first one", bv(cell(ex, st, this, f(u, "first_read_"), I8), 8) == 0
    return dict(name="Sharded_instance_reader::read_instance_core", fn=r"mlio::detail::Sharded_instance_reader::read_instance_core\(", setup=setup, post=post, cands=[inner.cands], stubs=REFS,
                covers=["first", "later", "end"], opts=dict(virtual=inner.virtual()))

def spec_reset(u):
    inner = Inner(u)
    this = Obj("this", f(u, "__size__"), True)
    def setup(ex, st):
        inner.init(ex, st)
        ex.store(st, Ptr(this, f(u, "inner_")), Ptr(inner.obj, 0), PT, u.mods[0])
        return [Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        yield "ensures: the inner reader starts again", st.ghost["pos"] == 0
        yield "ensures: the next read is a first one", bv(cell(ex, st, this, f(u, "first_read_"), I8), 8) == 1
    return dict(name="Sharded_instance_reader::reset_core", fn=r"mlio::detail::Sharded_instance_reader::reset_core\(", setup=setup, post=post, stubs=REFS, opts=dict(virtual=inner.virtual()))

def spec_ctor(u):
    inner = Inner(u)
    this = Obj("this", f(u, "__size__"), False); arg = outobj("inner argument", 8); H = {}
    def setup(ex, st):
        inner.init(ex, st)
        H["p"] = p = params(u, ex, st, shard_index=IDX, num_shards=NSH)
        ex.store(st, Ptr(arg, 0), Ptr(inner.obj, 0), PT, u.mods[0])
        return [Ptr(this, 0), Ptr(p, 0), Ptr(arg, 0)]
    def destroy(ex, st, a, i): st.ghost["destroyed"] = True
    def post(ex, st, o):
        if o[0] == "throw":
            ex.cover("refused")
            yield "ensures: only a shard index that is not less than the number of shards is rejected", z3.And(z3.UGE(IDX, NSH), z3.BoolVal(is_exc(o, "invalid_argument"))); return
        ex.cover("accepted")
        yield "ensures: the shard index is less than the number of shards", z3.ULT(IDX, NSH)
        yield "ensures: the next read is a first one", bv(cell(ex, st, this, f(u, "first_read_"), I8), 8) == 1
        i, p = cell(ex, st, this, f(u, "inner_"), PT), cell(ex, st, this, f(u, "params_"), PT)
        yield "ensures: the given reader and parameters are used", z3.BoolVal(isinstance(i, Ptr) and i.o is inner.obj and isinstance(p, Ptr) and p.o is H["p"])
    return dict(name="Sharded_instance_reader::Sharded_instance_reader", fn=r"mlio::detail::Sharded_instance_reader::Sharded_instance_reader\(", setup=setup, post=post,
                stubs=REFS + [R(r"std::default_delete<mlio::detail::Instance_reader>::operator\(\)|mlio::detail::Instance_reader(_base)?::~|std::unique_ptr<mlio::detail::Instance_reader.*>::~unique_ptr", nop)], covers=["refused", "accepted"], opts=dict(virtual=inner.virtual()))

def specs(u): return [spec_read, spec_reset, spec_ctor]
HARNESS = dict(file="P08.cc", srcs=build.core, secs=6)
NOTE = "read, reset and the constructor of the sharded reader are proved over an abstract inner reader for every index, count and dataset size; the whole reader stack is additionally run against an independent selection."
ASSUME = ["the inner reader delivers its sequence and then the end (P06, P13)", "datasets of at most 2^50 instances"]
