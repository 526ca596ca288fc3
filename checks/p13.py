from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

SRCS = ["src/mlio/record_readers/record_reader_base.cc", "src/mlio/record_readers/parquet_record_reader.cc", "src/mlio/instance_readers/instance_reader_base.cc", "src/mlio/instance_readers/core_instance_reader.cc",
        "src/mlio/data_reader_base.cc", "src/mlio/parallel_data_reader.cc", "src/mlio/text_line_reader.cc"]
U = lambda x: bv(x, 64)
# the sequence is 0..N-1; the ghost 'pos' is the number of items the derived
# class has delivered.  The position a user sees is pos, less one while an
# item is peeked.
N, POS0 = z3.BitVecs("sequence.length pos0", 64)

class Kind:
    """one of the three readers: how an item is held"""
    def __init__(s, u, what):
        s.u = u; s.what = what; s.m = u.mods[0]; s.data = Obj("payloads", None, True, mode="bytes"); s.store = Obj("data store", None, True); s.blk = Obj("block", None, True); s.exs = Obj("examples", None, True)
        s.cls, s.member, s.tab, s.core = dict(record=("Record_reader_base", "peeked_record_", "Parquet_record_reader", r"::read_record_core\("), instance=("Instance_reader_base", "peeked_instance_", "Core_instance_reader", r"::read_instance_core\("),
            example=("Data_reader_base", "peeked_example_", "Text_line_reader", r"::read_example_core\("))[what]
        s.off = field(u, s.cls, s.member)
        if what == "record": s.O = OptRecord(u); s.size = s.O.size
        elif what == "instance": s.O = OptInstance(u); s.size = s.O.size
        else: s.size = 8
    def put(s, ex, st, p, n):
        if s.what == "record": s.O.put(ex, st, p, Slice(s.u), s.data, n, n, s.blk, z3.Extract(31, 0, n))
        elif s.what == "instance": s.O.put(ex, st, p, n, s.store, s.data, s.blk)
        else: ex.store(st, p, Ptr(s.exs, n), PT, s.m)
    def none(s, ex, st, p):
        if s.what == "example": ex.store(st, p, NULL, PT, s.m)
        else: s.O.put_none(ex, st, p)
    def engaged(s, ex, st, o, off):
        if s.what == "example":
            v = cell(ex, st, o, off, PT); return isinstance(v, Ptr) and v.o is s.exs
        e = simp(s.O.engaged(ex, st, o, off)); return e if isinstance(e, bool) else None
    def number(s, ex, st, o, off):
        """formula: 'the item at o+off is number n', as a function of n"""
        if s.what == "record":
            w = Slice(s.u).within(ex, st, o, off + s.O.payload, s.data); k = bv(cell(ex, st, o, off + s.O.kind, I32), 32); b = cell(ex, st, o, off + s.O.payload + Slice(s.u).blk, PT)
            return lambda n: z3.BoolVal(False) if w is None or not (isinstance(b, Ptr) and b.o is s.blk) else z3.And(w[0] == n, w[1] == n, k == z3.Extract(31, 0, n))
        if s.what == "instance": return lambda n: s.O.is_number(ex, st, o, off, n, s.store, s.data)
        v = cell(ex, st, o, off, PT)
        return lambda n: z3.BoolVal(False) if not (isinstance(v, Ptr) and v.o is s.exs) else U(v.f) == n
    def core_read(s, ex, st, a, i):
        out, r, pos = a[0], [], st.ghost["pos"]
        n = st.copy(); n.assume(z3.ULT(pos, N)); n.ghost["pos"] = pos + 1; n.ghost["calls"] += 1; s.put(ex, n, out, pos); r.append((n, ("ret", None)))
        n = st.copy(); n.assume(pos == N); n.ghost["calls"] += 1; s.none(ex, n, out); r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def virtual(s, more=()):
        return dispatch({"Reader": vtable(s.u, s.tab)}, {"Reader": [(s.core, s.core_read), *more]})

def mk(what, op, peeked):
    def spec(u):
        K = Kind(u, what); this = Obj("this", K.off + K.size, True); out = outobj("result", K.size)
        def setup(ex, st):
            vinit(ex, st, this, "Reader"); st.ghost.update(pos=POS0, calls=0); st.assume(z3.ULE(POS0, N), z3.ULE(N, BV(1 << 30, 64)))
            if peeked: K.put(ex, st, Ptr(this, K.off), POS0 - 1); st.assume(POS0 != 0)
            else: K.none(ex, st, Ptr(this, K.off))
            return [Ptr(out, 0), Ptr(this, 0)]
        def post(ex, st, o):
            g = st.ghost; pos = g["pos"]; held = K.engaged(ex, st, this, K.off)
            at = POS0 - 1 if peeked else POS0
            if o[0] == "throw":
                ex.cover("error"); yield "ensures: only an error of the reader is passed on", z3.BoolVal(bool(g.get("err")))
                yield "ensures: an error consumes nothing", z3.And(z3.BoolVal(held is peeked), pos == POS0); return
            yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err"))
            e = K.engaged(ex, st, out, 0)
            if e is True:
                ex.cover("item")
                yield "ensures: the item is the next one", K.number(ex, st, out, 0)(at)
                if op == "read": yield "ensures: a read item is consumed", z3.And(z3.BoolVal(held is False), pos == at + 1)
                else:
                    yield "ensures: a peeked item stays the next one to be read", z3.And(z3.BoolVal(held is True), pos == at + 1)
                    if held is True: yield "ensures: the same item is kept", K.number(ex, st, this, K.off)(at)
            elif e is False:
                ex.cover("end"); yield "ensures: the end is reported only at the end", z3.And(at == N, pos == N, z3.BoolVal(held is False))
            else: yield "ensures: an item or the end", False
        fn = dict(record=r"mlio::Record_reader_base::%s_record\(\)", instance=r"mlio::detail::Instance_reader_base::%s_instance\(\)", example=r"mlio::Data_reader_base::%s_example\(\)")[what] % op
        return dict(name=f"{K.cls}::{op}_{what}" + (" (item peeked)" if peeked else " (nothing peeked)"), fn=fn, setup=setup, post=post, covers=["item"] + ([] if peeked else ["end", "error"]), stubs=REFS, opts=dict(virtual=K.virtual()))
    spec.__name__ = f"spec_{what}_{op}_{int(peeked)}"
    return spec

def spec_reset_instance(u):
    K = Kind(u, "instance"); this = Obj("this", K.off + K.size, True); was = z3.BitVec("peeked", 8)
    def setup(ex, st):
        vinit(ex, st, this, "Reader"); st.ghost.update(pos=POS0, calls=0); K.put(ex, st, Ptr(this, K.off), POS0 - 1)
        ex.store(st, Ptr(this, K.off + K.O.eng), was, I8, u.mods[0]); st.assume(z3.ULE(was, BV(1, 8)))
        return [Ptr(this, 0)]
    def reset(ex, st, a, i): st.ghost["pos"] = BV(0, 64)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        yield "ensures: a peeked item is forgotten", bv(cell(ex, st, this, K.off + K.O.eng, I8), 8) == 0
        yield "ensures: the sequence starts from its beginning", st.ghost["pos"] == 0
    return dict(name="Instance_reader_base::reset", fn=r"mlio::detail::Instance_reader_base::reset\(", setup=setup, post=post, stubs=REFS, opts=dict(virtual=K.virtual([(r"::reset_core\(", reset)])))

def spec_reset_example(u):
    K = Kind(u, "example"); f = lambda n: field(u, "Parallel_data_reader", n); this = Obj("this", f("__size__"), True)
    br = Obj("batch reader", None, True); graph = Obj("graph", None, True)
    def setup(ex, st):
        vinit(ex, st, this, "Reader"); K.put(ex, st, Ptr(this, K.off), POS0)
        ex.store(st, Ptr(this, f("batch_reader_")), Ptr(br, 0), PT, u.mods[0]); ex.store(st, Ptr(this, f("graph_")), Ptr(graph, 0), PT, u.mods[0])
        st.ghost.update(stopped=False, reset=False, order=True)
        return [Ptr(this, 0)]
    def stop(ex, st, a, i): st.ghost["stopped"] = True
    def reset(ex, st, a, i):
        ex.oblige(st, "requires: background work is stopped before the batches are reset", z3.BoolVal(bool(st.ghost["stopped"]))); st.ghost["reset"] = True
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        v = cell(ex, st, this, K.off, PT)
        yield "ensures: a peeked example is forgotten", z3.BoolVal(isinstance(v, Ptr) and v.o is None)
        yield "ensures: the batches start from the first", z3.BoolVal(st.ghost["reset"])
        yield "ensures: reading starts anew", bv(cell(ex, st, this, f("state_"), I32), 32) == 0
        e = cell(ex, st, this, f("exception_ptr_"), PT)
        yield "ensures: an earlier failure is forgotten", z3.BoolVal(isinstance(e, Ptr) and e.o is None)
    def excset(ex, st, a, i):
        ex.store(st, a[0], NULL, PT, u.mods[0]); return a[0]
    return dict(name="Parallel_data_reader::reset", fn=r"mlio::Parallel_data_reader::reset\(", setup=setup, post=post, stubs=[R(r"mlio::Parallel_data_reader::stop\(", stop), R(r"mlio::detail::Instance_batch_reader::reset\(", reset), R(r"tbb::.*(task_group_context|graph).*reset\(|tbb::.*reset\(", nop),
        R(r"std::__exception_ptr::exception_ptr::operator=\(", excset), R(r"std::__exception_ptr::exception_ptr::(~?exception_ptr)\(", nop)] + REFS, opts=dict(virtual=K.virtual()))

def specs(u): return [mk(w, op, p) for w in ("record", "instance", "example") for op in ("read", "peek") for p in (True, False)] + [spec_reset_instance, spec_reset_example]
HARNESS = dict(file="P13.cc", srcs=build.readers, secs=6)
NOTE = "the peeking layer of all three kinds of readers is proved over any derived reader; read_schema of the data readers (which peeks at the dataset) is exercised by the bounded run only."
ASSUME = ["the derived class delivers its sequence in order, then the end on every further call (P02-P11)", "std::optional and std::exchange are executed, not assumed"]
