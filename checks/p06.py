from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p04 import ALLOC, alloc, block_methods, new_block, RESIZE, Stream

IR = "src/mlio/instance_readers/"
SRCS = [IR + "core_instance_reader.cc", "src/mlio/instance.cc", "src/mlio/streams/memory_input_stream.cc", "src/mlio/streams/sagemaker_pipe_input_stream.cc", "src/mlio/record_readers/parquet_record_reader.cc", "src/mlio/memory/memory_slice.cc", "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/heap_memory_allocator.cc"]
J = z3.BitVec("J", 64)
B64 = z3.BitVecSort(64)
U = lambda x: bv(x, 64)
def f(u, n): return field(u, "Core_instance_reader", n)
def C8(ex, st, o, off): return bv(cell(ex, st, o, off, I8), 8)

# the dataset: store s has COUNT(s) records (WHOLE(s): it has no record
# structure); record r of store s has a kind and lies at [PB, PE) of 'data'
COUNT, PB, PE, KIND = z3.Function("records", B64, B64), z3.Function("begin", B64, B64, B64), z3.Function("end", B64, B64, B64), z3.Function("kind", B64, B64, z3.BitVecSort(32))
WHOLE = z3.Function("whole", B64, z3.BoolSort())
M = z3.BitVec("dataset.size", 64)

class Data:
    def __init__(s, u):
        s.u = u; s.DS = Obj("dataset", None, True); s.stores = Obj("data stores", None, True); s.reader = Obj("record reader", None, True)
        s.data = Obj("record data", None, True, mode="bytes"); s.blk = Obj("record block", None, True); s.S = Slice(u); s.O = OptRecord(u)
    def init(s, ex, st, this):
        u = s.u; p = Obj("params", field(u, "Data_reader_params", "__size__"), True); d = field(u, "Data_reader_params", "dataset")
        ex.store(st, Ptr(p, d), Ptr(s.DS, 0), PT, u.mods[0]); ex.store(st, Ptr(p, d + 8), Ptr(s.DS, simp(M * 8)), PT, u.mods[0])
        ex.store(st, Ptr(this, f(u, "params_")), Ptr(p, 0), PT, u.mods[0])
        vinit(ex, st, s.reader, "Reader"); st.assume(z3.ULE(M, BV(1 << 50, 64)))
    def store_get(s, ex, st, a, i):
        """the pointer held by the i-th entry of the dataset: store number i"""
        p = a[0]
        if not (isinstance(p, Ptr) and p.o is s.DS): raise ir.Unsupported("data store pointer outside the dataset")
        k = quot(p.f, 8)
        if k is None: k = z3.UDiv(U(p.f), BV(8, 64))
        ex.oblige(st, "safety:only stores of the dataset are read", z3.And(U(k) * 8 == U(p.f), z3.ULT(U(k), M)))
        return Ptr(s.stores, k)
    def factory(s, ex, st, a, i):
        out, store = a[0], a[2]
        ok = isinstance(store, Ptr) and store.o is s.stores
        ex.oblige(st, "requires: a record reader is made for a store of the dataset", z3.BoolVal(ok))
        if not ok: raise PathEnd()
        k = U(store.f)
        r = []
        for w in (True, False):
            n = st.copy(); n.assume(WHOLE(k) == w); n.ghost["cur"] = k; n.ghost["rpos"] = BV(0, 64)
            ex.store(n, out, NULL if w else Ptr(s.reader, 0), PT, s.u.mods[0]); r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def read(s, ex, st, a, i):
        out = a[0]; c, p = st.ghost["cur"], st.ghost["rpos"]; r = []
        n = st.copy(); n.assume(z3.ULT(p, COUNT(c)))
        s.O.put(ex, n, out, s.S, s.data, PB(c, p), PE(c, p), s.blk, KIND(c, p)); n.ghost["rpos"] = p + 1; r.append((n, ("ret", None)))
        n = st.copy(); n.assume(p == COUNT(c)); s.O.put_none(ex, n, out); r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def stubs(s):
        return REFS + [R(r"mlio::Intrusive_ptr<mlio::Data_store>::(get|operator->|operator\*)\(\)", s.store_get), R(r"std::function<mlio::Intrusive_ptr<mlio::Record_reader>.*>::operator\(\)\(", s.factory),
            R(r"std::system_error::code\(\)", lambda ex, st, a, i: [(st, ("ret", [BV(0, 32), NULL]))]), R(r"std::error_condition::", nop), R(r"std::operator==\(std::error_code", lambda ex, st, a, i: ex.freshb("code")),
            R(r"std::.*generic_category|std::.*make_error_condition", nop)]
    def virtual(s): return dispatch({"Reader": vtable(s.u, "Parquet_record_reader"), "Store": None}, {"Reader": [(r"::read_record\(", s.read)]})

def has_store(ex, st, this, D):
    """the error message names a store: it must not be null"""
    s = cell(ex, st, this, f(D.u, "store_"), PT); return z3.BoolVal(isinstance(s, Ptr) and s.o is D.stores)
def set_store(ex, st, this, D): ex.store(st, Ptr(this, f(D.u, "store_")), Ptr(D.stores, ex.fresh("store")), PT, D.u.mods[0])

def stores_virtual(D):
    v = D.virtual()
    def h(ex, st, c, args, inst):
        # the only other virtual call is Data_store::id() for error messages
        if args and any(isinstance(x, Ptr) and x.o is D.stores for x in args): return [(st, ("ret", Ptr(Obj("id", None, True), 0)))]
        return v(ex, st, c, args, inst)
    return h

def spec_record(had):
    def mk(u):
        D = Data(u); O, S = D.O, D.S
        this = Obj("this", f(u, "__size__"), True); out = outobj("result", O.size)
        it0, c0, p0 = z3.BitVecs("store_iter cur rpos", 64)
        def setup(ex, st):
            D.init(ex, st, this); m = u.mods[0]
            ex.store(st, Ptr(this, f(u, "store_iter_")), Ptr(D.DS, simp(it0 * 8)), PT, m)
            ex.store(st, Ptr(this, f(u, "record_reader_")), Ptr(D.reader, 0) if had else NULL, PT, m)
            ex.store(st, Ptr(this, f(u, "store_")), Ptr(D.stores, c0) if had else NULL, PT, m)
            ex.store_raw(st, this, f(u, "record_idx_"), 8, z3.BitVec("record_idx", 64)); ex.store_raw(st, this, f(u, "instance_idx_"), 8, z3.BitVec("instance_idx", 64))
            st.ghost.update(cur=c0, rpos=p0, err=False)
            st.assume(z3.ULE(it0, M))
            if had: st.assume(z3.ULT(c0, M), c0 + 1 == it0, z3.ULE(p0, COUNT(c0)), z3.BitVec("record_idx", 64) == p0, z3.Not(WHOLE(c0)))
            return [Ptr(out, 0), Ptr(this, 0)]
        def iter_of(ex, st):
            p = cell(ex, st, this, f(u, "store_iter_"), PT)
            return U(p.f) if isinstance(p, Ptr) and p.o is D.DS else None
        # every store between the ones read is exhausted: J stands for any
        def between(c): return z3.Implies(z3.And(z3.ULE(it0, J), z3.ULT(J, c)), z3.And(COUNT(J) == 0, z3.Not(WHOLE(J))))
        def done0(): return p0 == COUNT(c0) if had else z3.BoolVal(True)
        def moved(c): return z3.And(z3.ULE(it0, c), between(c), done0())
        def cands(sn):
            g = sn.st.ghost; c, p = g["cur"], g["rpos"]; r = []
            i = iter_of(sn.ex, sn.st)
            if i is not None:
                r.append(("iterator after the store being read", i == (c + 1) * 8)); r.append(("iterator in range", z3.And(z3.ULT(c, M), i == (c + 1) * 8)))
            same = z3.And(c == c0, p == p0) if had else z3.BoolVal(False)
            r.append(("in the same store or all before exhausted", z3.Or(same, z3.And(moved(c), p == 0))))
            r.append(("has structure", z3.Not(WHOLE(c))))
            ri = U(cell(sn.ex, sn.st, this, f(u, "record_idx_"), I64)); ii = U(cell(sn.ex, sn.st, this, f(u, "instance_idx_"), I64))
            r.append(("records counted", ri == p)); r.append(("instances counted", ii == z3.If(same, z3.BitVec("instance_idx", 64), BV(0, 64))))
            s = cell(sn.ex, sn.st, this, f(u, "store_"), PT)
            if isinstance(s, Ptr) and s.o is D.stores: r.append(("store is current", U(s.f) == c))
            return r
        def post(ex, st, o):
            g = st.ghost; c, p = g["cur"], g["rpos"]
            if o[0] == "throw":
                yield "ensures: only errors of the dataset are passed on", z3.BoolVal(bool(g.get("err")))
                yield "ensures: on an error the store it comes from is known", has_store(ex, st, this, D); return
            eng = simp(O.engaged(ex, st, out)); i = iter_of(ex, st)
            s = cell(ex, st, this, f(u, "store_"), PT); rr = cell(ex, st, this, f(u, "record_reader_"), PT)
            is_store = isinstance(s, Ptr) and s.o is D.stores
            if i is None: yield "ensures: the iterator stays in the dataset", False; return
            ii = U(cell(ex, st, this, f(u, "instance_idx_"), I64)); ri = U(cell(ex, st, this, f(u, "record_idx_"), I64))
            same = z3.And(c == c0, p == p0 + 1) if had else z3.BoolVal(False)
            if eng is True:
                ex.cover("record")
                w = S.within(ex, st, out, O.payload, D.data); r = p - 1
                yield "ensures: the record is the next one: of the same store, or the first one after stores without records", z3.Or(same, z3.And(moved(c), r == 0))
                yield "ensures: it is delivered unchanged", z3.BoolVal(False) if w is None else z3.And(w[0] == PB(c, r), w[1] == PE(c, r), bv(cell(ex, st, out, O.kind, I32), 32) == KIND(c, r))
                yield "ensures: the current store is the record's", z3.BoolVal(False) if not is_store else z3.And(U(s.f) == c, i == (c + 1) * 8, z3.BoolVal(isinstance(rr, Ptr) and rr.o is D.reader))
                yield "ensures: records and instances are counted per store", z3.And(ri == p, ii == z3.If(same, z3.BitVec("instance_idx", 64), BV(0, 64)))
            elif eng is False:
                yield "ensures: the reader is given up", z3.BoolVal(isinstance(rr, Ptr) and rr.o is None)
                if is_store:
                    ex.cover("whole store")
                    yield "ensures: a store is delivered as a whole only if it has no records and its turn has come", z3.And(WHOLE(c), U(s.f) == c, moved(c), i == (c + 1) * 8)
                else:
                    ex.cover("end")
                    yield "ensures: the end is reported only after the last store", z3.And(i == M * 8, moved(M))
            else: yield "ensures: a record, a store or the end", False
        return dict(name="Core_instance_reader::read_record" + (" (inside a store)" if had else " (between stores)"), fn=r"mlio::detail::Core_instance_reader::read_record\(\)", setup=setup, post=post, cands=[cands], stubs=D.stubs(),
                    covers=["record", "whole store", "end"], opts=dict(virtual=stores_virtual(D)))
    mk.__name__ = "spec_record_" + ("inside" if had else "between")
    return mk

# ---- records merged from parts.  The records still to come are numbered from
# 0 (the one just read); SI(q) is the position of the store iterator after
# reading record q
SI, K, QB, QE, OFF = (z3.Function(n, B64, z3.BitVecSort(32) if n == "kind_of" else B64) for n in ("store_of", "kind_of", "begin_of", "end_of", "offset_of"))
Q = z3.BitVec("records to come", 64); P = z3.BitVec("the part holding J", 64)
def length(q): return QE(q) - QB(q)
def about(q, n):
    """offset_of is the running sum of the lengths: its defining equation at q,
    and what follows for the part P (sums of naturals only grow)"""
    return z3.And(OFF(BV(0, 64)) == 0, z3.ULE(QB(q), QE(q)), z3.ULE(QE(q), BV(1 << 45, 64)), OFF(q + 1) == OFF(q) + length(q), z3.ULE(OFF(q), BV(1 << 55, 64)),
                  z3.Implies(z3.ULT(q, P), z3.ULE(OFF(q + 1), OFF(P))), z3.Implies(z3.UGT(q, P), z3.ULE(OFF(P + 1), OFF(q))), OFF(P + 1) == OFF(P) + length(P), z3.ULE(QB(P), QE(P)))

def payload_opt(u): return Slice(u).size, Slice(u).size + 8

def spec_split(u):
    D = Data(u); O, S = D.O, D.S; m = u.mods[0]
    this = Obj("this", f(u, "__size__"), True); eng, size = payload_opt(u); out = outobj("result", size); rec = outobj("record", O.size)
    si0 = z3.BitVec("store_iter", 64); ESZ = O.eng
    vec = Obj("records elements", None, True)
    tabs = {"Alloc": vtable(u, "Heap_memory_allocator"), "Block": vtable(u, "Heap_memory_block")}
    def setup(ex, st):
        D.init(ex, st, this)
        ex.objs[vec.id] = vec
        O.put(ex, st, Ptr(rec, 0), S, D.data, QB(BV(0, 64)), QE(BV(0, 64)), D.blk, K(BV(0, 64)))
        ex.store(st, Ptr(this, f(u, "store_iter_")), Ptr(D.DS, simp(si0 * 8)), PT, m); ex.store(st, Ptr(this, f(u, "has_corrupt_split_record_")), 0, I8, m)
        st.ghost.update(next=BV(1, 64), n=BV(0, 64), ended=BV(0, 8), bad=BV(0, 8)); set_store(ex, st, this, D)
        st.assume(SI(BV(0, 64)) == si0, z3.ULE(Q, BV(1 << 30, 64)), z3.UGE(Q, BV(1, 64)), about(BV(0, 64), None), z3.ULE(si0, M))
        return args_of(u, r"mlio::detail::Core_instance_reader::read_split_record_payload\(", {0: Ptr(out, 0), 1: Ptr(this, 0), 2: Ptr(rec, 0)})
    def read(ex, st, a, i):
        # contract of read_record proved above: the next record and the store
        # it is in, nothing at the end or for a store without records, or an error
        q = st.ghost["next"]; r = []
        n = st.copy(); n.assume(z3.ULT(q, Q), about(q, None), z3.ULE(SI(q - 1), SI(q)), z3.ULE(SI(q), M))
        O.put(ex, n, a[0], S, D.data, QB(q), QE(q), D.blk, K(q)); n.ghost["next"] = q + 1
        ex.store(n, Ptr(this, f(u, "store_iter_")), Ptr(D.DS, simp(SI(q) * 8)), PT, m); set_store(ex, n, this, D); r.append((n, ("ret", None)))
        n = st.copy(); n.assume(q == Q); O.put_none(ex, n, a[0]); n.ghost["ended"] = BV(1, 8); ex.store(n, Ptr(this, f(u, "store_")), NULL, PT, m)
        e = ex.fresh("store_iter"); n.assume(z3.ULE(SI(q - 1), e), z3.ULE(e, M)); ex.store(n, Ptr(this, f(u, "store_iter_")), Ptr(D.DS, simp(e * 8)), PT, m); r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def num(ex, st, p):
        k = quot(p.f, ESZ)
        if k is None:
            k = z3.UDiv(U(p.f), BV(ESZ, 64)); ex.oblige(st, "safety:pointer to a whole record", k * ESZ == U(p.f))
        ex.oblige(st, "safety:record of the list", z3.ULT(U(k), st.ghost["n"]))
        st.assume(about(U(k), None), z3.Implies(z3.ULT(U(k), st.ghost["n"]), z3.ULE(OFF(U(k) + 1), OFF(st.ghost["n"])))); return U(k)
    def emplace(ex, st, a, i):
        n = st.ghost["n"]; w = S.within(ex, st, a[1].o, a[1].f + O.payload, D.data)
        ex.oblige(st, "requires: the parts are collected in order, each once", z3.BoolVal(False) if w is None else z3.And(w[0] == QB(n), w[1] == QE(n), n + 1 == st.ghost["next"]))
        st.ghost["n"] = n + 1
        return Ptr(vec, simp(n * ESZ))
    def elem_payload(ex, st, a, i):
        if not (isinstance(a[0], Ptr) and a[0].o is vec):
            return Ptr(a[0].o, add(a[0].f, O.payload))
        k = num(ex, st, a[0]); t = ex.new_obj(st, "payload of a part", S.size); S.set(ex, st, t, 0, D.data, QB(k), QE(k), D.blk); return Ptr(t, 0)
    V = r"std::vector<mlio::Record, std::allocator<mlio::Record> ?>::"
    stubs = [R(r"mlio::detail::Core_instance_reader::read_record\(\)", read), R(r"(mlio::Record& )?" + V + r"(emplace_back|push_back)(<.*>)?\(", emplace), R(V + r"c?begin\(\)", lambda ex, st, a, i: Ptr(vec, 0)),
             R(V + r"c?end\(\)", lambda ex, st, a, i: Ptr(vec, simp(st.ghost["n"] * ESZ))), R(V + r"size\(\)", lambda ex, st, a, i: st.ghost["n"]), R(V + r"empty\(\)", lambda ex, st, a, i: simp(st.ghost["n"] == 0)), R(V + r"(~?vector|reserve)\(", nop),
             R(V + r"operator\[\]\(", lambda ex, st, a, i: Ptr(vec, simp(U(a[1]) * ESZ))), R(r"mlio::Record::payload\(\) const ?&", elem_payload), ALLOC] + D.stubs()
    def virtual(ex, st, c, a, i):
        return dispatch(tabs, {"Alloc": [(r"::allocate\(", alloc)], "Block": block_methods(ex)})(ex, st, c, a, i)
    def cands(sn):
        g = sn.st.ghost; n, nx = g["n"], g["next"]; ex, st = sn.ex, sn.st; r = []
        r += [("parts collected as read", n == nx), ("not ended", g["ended"] == 0), ("at most all", z3.ULE(nx, Q)), ("some part", z3.UGE(n, BV(1, 64)))]
        J2 = z3.BitVec("K", 64)
        good = lambda q: z3.And(SI(q) == si0, K(q) == 2)
        r.append(("all parts so far are middle parts of the store", z3.Implies(z3.And(z3.UGE(J2, BV(1, 64)), z3.ULT(J2, nx)), good(J2))))
        r.append(("last store", SI(nx - 1) == si0)); r.append(("begins", K(BV(0, 64)) == 1))
        for nm, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{nm}==total", U(v) == OFF(n)), (f"{nm}==offset(n)", z3.And(U(v) == OFF(nx)))]
        it = None
        for nm, p in sn.ptrs.items():
            if p.o is vec: r.append((f"{nm} whole", z3.And(z3.URem(U(p.f), BV(ESZ, 64)) == 0, z3.ULE(U(p.f), n * ESZ)))); it = U(p.f)
        if it is not None:
            k = z3.UDiv(it, BV(ESZ, 64))
            r.append(("about k", about(k, None)))
            for nm, p in sn.ptrs.items():
                if p.o is not None and p.o.mode == "bytes" and p.o is not D.data:
                    r.append((f"{nm} at the end of part k", U(p.f) == OFF(k)))
                    a = ex.om(st, p.o).arr
                    if a is not None: r.append((f"{nm} holds the parts so far", z3.Implies(z3.And(z3.ULT(P, k), z3.ULE(OFF(P), J), z3.ULT(J, OFF(P + 1))), z3.Select(a, J) == z3.Select(DATA, QB(P) + J - OFF(P)))))
        st.assume(about(n, None))
        return r
    DATA = z3.Array("record data[]", B64, z3.BitVecSort(8))
    def post(ex, st, o):
        g = st.ghost; n, nx = g["n"], g["next"]
        flag = C8(ex, st, this, f(u, "has_corrupt_split_record_"))
        K2 = z3.BitVec("K", 64)
        last = nx - 1
        if o[0] == "throw":
            if g.get("err"):
                ex.cover("error"); yield "ensures: an error of the dataset is passed on", z3.BoolVal(True); return
            ex.cover("corrupt", g["ended"] == 0); ex.cover("ends inside", g["ended"] == 1)
            yield "ensures: the error is a corrupt record", z3.BoolVal(is_exc(o, "Corrupt_record_error"))
            yield "ensures: only a wrong sequence of parts is an error", z3.Or(K(BV(0, 64)) != 1, g["ended"] == 1, SI(last) != si0, z3.And(K(last) != 2, K(last) != 3))
            yield "ensures: the error is remembered", flag == 1
            yield "ensures: on an error the store it comes from is known", has_store(ex, st, this, D)
            return
        ex.cover("merged"); ex.cover("middle part", n == 3)
        yield "ensures: only one begin part, middle parts and one end part of the same store are merged", z3.And(K(BV(0, 64)) == 1, K(last) == 3, SI(last) == si0, g["ended"] == 0, n == nx, z3.UGE(n, BV(2, 64)))
        yield "ensures: every part between is a middle part of the same store", z3.Implies(z3.And(z3.UGE(K2, BV(1, 64)), z3.ULT(K2, last)), z3.And(SI(K2) == si0, K(K2) == 2))
        if simp(C8(ex, st, out, eng) == 1) is not True: yield "ensures: a payload is delivered", False; return
        b, e, k = S.get(ex, st, out, 0)
        if not (isinstance(b, Ptr) and b.o is not None and b.o.mode == "bytes"): yield "ensures: the payload is a block of its own", False; return
        yield "ensures: the payload is as long as the parts together", z3.And(U(e.f) - U(b.f) == OFF(n), U(b.f) == 0, U(b.o.size) == OFF(n))
        yield "ensures: the payload is the parts' bytes in order", z3.Implies(z3.And(z3.ULT(P, n), z3.ULE(OFF(P), J), z3.ULT(J, OFF(P + 1))), z3.Select(ex.om(st, b.o).arr, J) == z3.Select(DATA, QB(P) + J - OFF(P)))
        yield "ensures: nothing is remembered as corrupt", flag == 0
    return dict(name="Core_instance_reader::read_split_record_payload", fn=r"mlio::detail::Core_instance_reader::read_split_record_payload\(", setup=setup, post=post, cands=[cands], stubs=stubs,
                covers=["merged", "middle part", "corrupt", "ends inside"], opts=dict(virtual=virtual, watch=[J]))

def spec_payload(u):
    D = Data(u); O, S = D.O, D.S; m = u.mods[0]
    this = Obj("this", f(u, "__size__"), True); eng, size = payload_opt(u); out = outobj("result", size)
    b0, e0 = z3.BitVecs("payload.begin payload.end", 64); kind = z3.BitVec("kind", 32); flag = z3.BitVec("has_corrupt", 8)
    def setup(ex, st):
        ex.store(st, Ptr(this, f(u, "has_corrupt_split_record_")), flag, I8, m); st.assume(z3.ULE(flag, BV(1, 8)), z3.ULE(b0, e0)); st.ghost.update(read=0, split=False)
        return [Ptr(out, 0), Ptr(this, 0)]
    def read(ex, st, a, i):
        st.ghost["read"] = st.ghost["read"] + 1; r = []
        n = st.copy(); O.put(ex, n, a[0], S, D.data, b0, e0, D.blk, kind); n.ghost["got"] = True; r.append((n, ("ret", None)))
        n = st.copy(); O.put_none(ex, n, a[0]); n.ghost["got"] = False; r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def split(ex, st, a, i):
        w = S.within(ex, st, a[2].o, a[2].f + O.payload, D.data)
        ex.oblige(st, "requires: merging starts with the record just read", z3.BoolVal(False) if w is None else z3.And(w[0] == b0, w[1] == e0, bv(cell(ex, st, a[2].o, a[2].f + O.kind, I32), 32) == kind, C8(ex, st, a[2].o, a[2].f + O.eng) == 1))
        st.ghost["split"] = True; r = []
        n = st.copy(); S.set(ex, n, a[0].o, a[0].f, D.data, 7, 9, D.blk); ex.store(n, Ptr(a[0].o, add(a[0].f, eng)), 1, I8, m); r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw":
            if g.get("err"): yield "ensures: an error is passed on", z3.BoolVal(True); return
            ex.cover("refused")
            yield "ensures: reading is refused only after a wrong sequence of parts", z3.And(flag == 1, z3.BoolVal(is_exc(o, "Corrupt_record_error")), C8(ex, st, this, f(u, "has_corrupt_split_record_")) == 1); return
        yield "ensures: after a wrong sequence of parts every read fails", flag == 0
        e = simp(C8(ex, st, out, eng) == 1)
        if e is False:
            ex.cover("none"); yield "ensures: nothing only if no record is left in the stores with records", z3.BoolVal(g.get("got") is False)
        elif e is True:
            w = S.within(ex, st, out, 0, D.data)
            if g["split"]:
                ex.cover("merged"); yield "ensures: the merged payload is delivered", z3.And(kind != 0, z3.BoolVal(w is not None), w[0] == 7, w[1] == 9) if w else False
            else:
                ex.cover("complete"); yield "ensures: a complete record is delivered as it is", z3.And(kind == 0, w[0] == b0, w[1] == e0) if w else False
        else: yield "ensures: a payload or nothing", False
        yield "ensures: one record is read for one payload", z3.BoolVal(g["read"] == 1)
    return dict(name="Core_instance_reader::read_record_payload", fn=r"mlio::detail::Core_instance_reader::read_record_payload\(", setup=setup, post=post, covers=["refused", "none", "merged", "complete"],
                stubs=[R(r"mlio::detail::Core_instance_reader::read_record\(\)", read), R(r"mlio::detail::Core_instance_reader::read_split_record_payload\(", split)] + D.stubs())

def spec_instance(u):
    D = Data(u); S = D.S; I = OptInstance(u); m = u.mods[0]
    this = Obj("this", f(u, "__size__"), True); eng, size = payload_opt(u); out = outobj("result", I.size)
    idx, s0 = z3.BitVecs("instance_idx store", 64); b0, e0 = z3.BitVecs("payload.begin payload.end", 64)
    def setup(ex, st):
        ex.store(st, Ptr(this, f(u, "instance_idx_")), idx, I64, m); ex.store(st, Ptr(this, f(u, "store_")), Ptr(D.stores, s0), PT, m); st.ghost["calls"] = 0
        return [Ptr(out, 0), Ptr(this, 0)]
    def payload(ex, st, a, i):
        st.ghost["calls"] += 1; r = []
        n = st.copy(); S.set(ex, n, a[0].o, a[0].f, D.data, b0, e0, D.blk); ex.store(n, Ptr(a[0].o, add(a[0].f, eng)), 1, I8, m); n.ghost["r"] = "payload"
        i2 = ex.fresh("instance_idx"); s2 = ex.fresh("store"); ex.store(n, Ptr(this, f(u, "instance_idx_")), i2, I64, m); ex.store(n, Ptr(this, f(u, "store_")), Ptr(D.stores, s2), PT, m); n.ghost["i"] = i2; n.ghost["s"] = s2
        r.append((n, ("ret", None)))
        for w in (True, False):
            n = st.copy(); ex.store(n, Ptr(a[0].o, add(a[0].f, eng)), 0, I8, m); s2 = ex.fresh("store"); n.ghost["s"] = s2; n.ghost["r"] = "whole" if w else "end"
            ex.store(n, Ptr(this, f(u, "store_")), Ptr(D.stores, s2) if w else NULL, PT, m); r.append((n, ("ret", None)))
        for t in ("_ZTI11inner_error", "_ZTISt9exception"):
            n = st.copy(); n.ghost["r"] = "error"; set_store(ex, n, this, D); r.append((n, ("throw", Thrown(t))))
        return r
    def handle(ex, st, a, i):
        ex.oblige(st, "requires: the store that failed is known", has_store(ex, st, this, D)); return [(st, ("throw", Thrown("_ZTIN4mlio6abi_v117Data_reader_errorE")))]
    def post(ex, st, o):
        g = st.ghost; ex.cover(g["r"])
        if o[0] == "throw": yield "ensures: only an error of reading is passed on", z3.BoolVal(g["r"] == "error"); return
        yield "ensures: an error is not swallowed", z3.BoolVal(g["r"] != "error" and g["calls"] == 1)
        e = simp(I.engaged(ex, st, out))
        if e is False: yield "ensures: the end only at the end of the dataset", z3.BoolVal(g["r"] == "end"); return
        if e is not True: yield "ensures: an instance or the end", False; return
        d = cell(ex, st, out, I.store, PT); be = simp(C8(ex, st, out, I.biteng) == 1)
        yield "ensures: the instance belongs to the current store", z3.BoolVal(False) if not (isinstance(d, Ptr) and d.o is D.stores) else U(d.f) == g["s"]
        if g["r"] == "payload":
            w = S.within(ex, st, out, I.bits, D.data)
            yield "ensures: it carries the payload and its number in the store", z3.BoolVal(False) if w is None or be is not True else z3.And(w[0] == b0, w[1] == e0, U(cell(ex, st, out, I.index, I64)) == g["i"])
            yield "ensures: the next instance gets the next number", U(cell(ex, st, this, f(u, "instance_idx_"), I64)) == g["i"] + 1
        else: yield "ensures: a store without records is delivered as a whole", z3.BoolVal(g["r"] == "whole" and be is False)
    return dict(name="Core_instance_reader::read_instance_core", fn=r"mlio::detail::Core_instance_reader::read_instance_core\(", setup=setup, post=post, covers=["payload", "whole", "end", "error"],
                stubs=[R(r"mlio::detail::Core_instance_reader::read_record_payload\(", payload), R(r"mlio::detail::Core_instance_reader::handle_errors\(", handle)] + D.stubs())

def spec_reset(u):
    D = Data(u); this = Obj("this", f(u, "__size__"), True); m = u.mods[0]
    def setup(ex, st):
        D.init(ex, st, this)
        ex.store(st, Ptr(this, f(u, "record_reader_")), Ptr(D.reader, 0), PT, m); ex.store(st, Ptr(this, f(u, "store_")), Ptr(D.stores, 3), PT, m)
        return [Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = lambda n: cell(ex, st, this, f(u, n), PT)
        i = p("store_iter_")
        yield "ensures: reading starts at the first store", z3.BoolVal(isinstance(i, Ptr) and i.o is D.DS) if not isinstance(i, Ptr) or i.o is not D.DS else U(i.f) == 0
        yield "ensures: no store is being read", z3.BoolVal(p("record_reader_").o is None and p("store_").o is None)
        yield "ensures: instances are numbered from zero", U(cell(ex, st, this, f(u, "instance_idx_"), I64)) == 0
        yield "ensures: a wrong sequence of parts is forgotten", C8(ex, st, this, f(u, "has_corrupt_split_record_")) == 0
    return dict(name="Core_instance_reader::reset_core", fn=r"mlio::detail::Core_instance_reader::reset_core\(", setup=setup, post=post, stubs=D.stubs())

def spec_stream(u):
    """the payload of a store delivered as a whole: every byte of its stream.
    The block in use is one abstract object at [base, base + bsize) of 'D';
    every allocation moves it, so that stale pointers are outside"""
    S = Slice(u); m = u.mods[0]; out = outobj("result", S.size); this = Obj("this", field(u, "Instance", "__size__"), True); strm = Obj("stream", None, True)
    tabs = {"Stream": vtable(u, "Memory_input_stream"), "Block": vtable(u, "Heap_memory_block"), "Alloc": vtable(u, "Heap_memory_allocator")}
    ST, LEN = Stream.ST, Stream.LEN; STATED = z3.BitVec("stated.size", 64)
    D = Obj("block data", None, True, mode="bytes"); B = Obj("block", None, True); HB = Obj("block or none", None, True); nb = z3.Bool("no block yet")
    def setup(ex, st):
        vinit(ex, st, strm, "Stream"); vinit(ex, st, B, "Block"); HB.nullc = None; vinit(ex, st, HB, "Block"); HB.nullc = nb
        for o in (D, B, HB): ex.objs[o.id] = o
        ex.omw(st, D).arr = ex.fresharr("block")
        st.ghost.update(pos=BV(0, 64), base=BV(0, 64), bsize=BV(0, 64)); st.assume(z3.ULE(LEN, BV(1 << 40, 64)), z3.ULE(STATED, BV(1 << 40, 64)))
        return args_of(u, r"mlio::Instance::read_stream\(", {0: Ptr(out, 0), 1: Ptr(this, 0), 2: Ptr(strm, 0)})
    at = lambda ex, st: z3.Select(ex.om(st, D).arr, st.ghost["base"] + J)
    def fresh_block(ex, st, out, n, keep):
        old = at(ex, st); ex.omw(st, D).arr = ex.fresharr("block"); b = ex.fresh("base"); st.assume(z3.ULE(b, BV(1 << 50, 64)))
        k = st.ghost["bsize"]; st.ghost["base"] = b; st.ghost["bsize"] = n
        if keep: st.assume(z3.Implies(z3.And(z3.ULT(J, k), z3.ULT(J, n)), at(ex, st) == old))
        ex.store(st, out, Ptr(B, 0), PT, m)
    def alloc_(ex, st, a, i): fresh_block(ex, st, a[0], U(a[-1]), False)
    def resize(ex, st, a, i):
        p = ex.load(st, a[1], PT, m)
        ex.oblige(st, "requires: the block in use is resized", z3.BoolVal(isinstance(p, Ptr) and p.o in (B, HB)))
        ex.store(st, a[1], NULL, PT, m); fresh_block(ex, st, a[0], U(a[2]), True)
    def read(ex, st, a, i):
        p, n, g = a[1], U(a[2]), st.ghost
        if not (isinstance(p, Ptr) and p.o is D): raise ir.Unsupported("read into something else")
        off = U(p.f) - g["base"]
        ex.oblige(st, "requires: the span handed to the stream lies in its block", z3.And(z3.ULE(off, g["bsize"]), z3.ULE(n, g["bsize"] - off)))
        e = st.copy(); e.ghost["err"] = True
        k = ex.fresh("num_bytes_read"); pos = g["pos"]
        st.assume(z3.ULE(k, n), z3.ULE(k, LEN - pos), z3.Implies(z3.And(n != 0, pos != LEN), k != 0))
        old = at(ex, st); ex.omw(st, D).arr = ex.fresharr("filled")
        st.assume(at(ex, st) == z3.If(z3.And(z3.ULE(off, J), z3.ULT(J - off, k)), z3.Select(ST, pos + J - off), old))
        g["pos"] = pos + k
        return [(st, ("ret", k)), (e, ("throw", Thrown("_ZTI12stream_error")))]
    def virtual(ex, st, c, a, i):
        return dispatch(tabs, {"Stream": [(r"::read\(", read), (r"::seekable\(", lambda *x: z3.Bool("seekable")), (r"::size\(", lambda *x: STATED)], "Alloc": [(r"::allocate\(", alloc_)],
            "Block": [(r"::data\(", lambda ex, st, a, i: Ptr(D, st.ghost["base"])), (r"::size\(", lambda ex, st, a, i: st.ghost["bsize"])]})(ex, st, c, a, i)
    def havoc_ptr(ex, st, k, v): return Ptr(HB, 0) if "block" in str(k[1]) or v.o in (B, None) else None
    def cands(sn):
        ex, st = sn.ex, sn.st; g = st.ghost; pos, base, bs = g["pos"], g["base"], g["bsize"]
        none = None
        for n, p in sn.ptrs.items():
            if p.o is None: none = z3.BoolVal(True)
            elif p.o is HB: none = nb
            elif p.o is B and none is None: none = z3.BoolVal(False)
        r = [("in the stream", z3.ULE(pos, LEN)), ("base", z3.ULE(base, BV(1 << 50, 64))), ("bytes so far", z3.Implies(z3.ULT(J, pos), at(ex, st) == z3.Select(ST, J))), ("fits", z3.ULE(pos, bs)),
             ("full", pos == bs), ("some room", z3.Or(none, bs != 0) if none is not None else bs != 0), ("bounded", z3.ULE(bs, BV(1 << 42, 64))), ("grown only when full", z3.Or(z3.ULE(bs, BV(1 << 40, 64)), z3.ULE(bs, 2 * LEN)))]
        if none is not None: r += [("no block at first", z3.Implies(none, z3.And(pos == 0, bs == 0)))]
        for n, p in sn.ptrs.items():
            if p.o is not D: continue
            off = U(p.f) - base; r += [(f"cursor [{n}]", pos == off)]
            for q, (v, w) in sn.ints.items():
                if w == 64: r.append((f"{n}+{q}==size", z3.And(off + U(v) == bs, z3.ULE(U(v), bs))))
        for q, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{q} empty", U(v) == 0), (f"pos+{q}==size", z3.Or(none, z3.And(pos + U(v) == bs, z3.ULE(U(v), bs))) if none is not None else pos + U(v) == bs)]
            if w in (1, 8):
                t = bv(v, w) != 0 if not z3.is_bool(v) else v
                r += [(f"{q} false", z3.Not(t)), (f"{q} only at the end", z3.Implies(t, pos == LEN)), (f"{q} or full", z3.Or(t, pos == bs))]
                if none is not None: r.append((f"{q} only with a block", z3.Implies(t, z3.Not(none))))
        return r
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw": yield "ensures: only an error of the stream is passed on", z3.BoolVal(bool(g.get("err"))); return
        ex.cover("read"); ex.cover("more than stated", z3.And(z3.Bool("seekable"), z3.UGT(LEN, STATED)))
        yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err"))
        w = S.within(ex, st, out, 0, D); k = cell(ex, st, out, S.blk, PT)
        if w is None: yield "ensures: a block with the bytes", False; return
        yield "ensures: as many bytes as the store has", z3.And(w[0] == g["base"], w[1] == g["base"] + LEN)
        yield "ensures: exactly the bytes of the store", z3.Implies(z3.ULT(J, LEN), at(ex, st) == z3.Select(ST, J))
        yield "ensures: the block is kept", z3.BoolVal(isinstance(k, Ptr) and k.o in (B, HB))
    return dict(name="Instance::read_stream", fn=r"mlio::Instance::read_stream\(", setup=setup, post=post, cands=[cands], covers=["read", "more than stated"],
                stubs=[ALLOC, R(r"mlio::resize_memory_block\(", resize), R(r"mlio::Instance::handle_errors\(", lambda ex, st, a, i: [(st, ("throw", Thrown("_ZTI17data_reader_error")))])] + REFS, opts=dict(virtual=virtual, watch=[J], havoc_ptr=havoc_ptr))

def specs(u): return [spec_stream, spec_split, spec_record(True), spec_record(False), spec_payload, spec_instance, spec_reset]
HARNESS = dict(file="P06.cc", srcs=build.core, secs=6)
NOTE = "reading, merging parts, delivery and reset of the core reader are proved over an abstract dataset of any number of stores and records; the error translation (handle_errors) is only required to throw. The real reader is additionally run against an independent concatenation."
ASSUME = ["record readers deliver their records in order and then the end (P02-P05, P07, P13)", "memory_allocator().allocate gives a block of the requested size (P15)", "std::vector<Record> behaves as documented", "total payload of a split record below 2^55 bytes, 2^30 parts"]
