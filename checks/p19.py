from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

SRCS = ["src/mlio/tensor.cc", "src/mlio/cpu_array.cc"]
U = lambda x: bv(x, 64)
I1 = lambda b: z3.BoolVal(bool(b))
B64 = z3.BitVecSort(64)
N, M, K, DT, DSIZE = z3.BitVec("rank", 64), z3.BitVec("number of strides", 64), z3.BitVec("K", 64), z3.BitVec("data type", 32), z3.BitVec("data size", 64)
SHAPE, STR = z3.Array("shape", B64, B64), z3.Array("strides", B64, B64)
IDX = lambda f: z3.LShR(U(f), 3)
def words(ex, st, o, arr):
    ex.objs[o.id] = o; m = ex.omw(st, o); m.mode, m.ew, m.arr, m.cells = "words", 8, arr, {}
def arr_of(ex, st, o): return ex.om(st, o).arr
def setvec(ex, st, p, d, n):
    """a vector of n 8-byte elements held by d (n == 0: none)"""
    m = ex.unit.mods[0]
    for k, v in ((0, Ptr(d, 0) if d else NULL), (8, Ptr(d, simp(U(n) * 8)) if d else NULL), (16, Ptr(d, simp(U(n) * 8)) if d else NULL)): ex.store(st, Ptr(p.o, add(p.f, k)), v, PT, m)
def vec_of(ex, st, o, off):
    """(elements, number) of the vector at o+off"""
    b, e = cell(ex, st, o, off, PT), cell(ex, st, o, off + 8, PT)
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.o is e.o): return None, None
    return b.o, U(e.f) - U(b.f)
def holds(ex, st, o, off, d, n):
    """the vector at o+off has the n elements of d"""
    b, k = vec_of(ex, st, o, off); x = cell(ex, st, o, off, PT)
    if b is None: return z3.And(U(n) == 0, I1(x is NULL or (isinstance(x, Ptr) and x.o is None)))
    return z3.And(I1(b is d), U(x.f) == 0, k == U(n) * 8)
# ---- the row-major strides of a shape: STD(n-1) = 1, STD(i) = STD(i+1) * shape[i+1]; FIT(i): STD(i).. are representable
STD, FIT = z3.Function("row-major stride", B64, B64), z3.Function("stride representable", B64, z3.BoolSort())
def std_axiom(i): return [STD(i - 1) == umul(STD(i), z3.Select(SHAPE, i)), FIT(i - 1) == z3.And(FIT(i), z3.Select(SHAPE, i) >= 0, z3.Not(smulo(STD(i), z3.Select(SHAPE, i))))]
def base_axioms(): return [STD(N - 1) == 1, FIT(N - 1)]
VL, VU = r"std::vector<long, std::allocator<long> ?>::", r"std::vector<unsigned long, std::allocator<unsigned long> ?>::"
def spec_default(u):
    fn = r"mlio::Tensor::default_strides\("; D = Obj("shape data", U(N) * 8, True); vec, out = Obj("shape vector", 24, True), outobj("result", 24)
    def ctor(ex, st, a, i):
        """vector(n, value): n elements of that value"""
        o = Obj("stride data", U(a[1]) * 8, False); words(ex, st, o, z3.K(B64, U(ex.load(st, a[2], I64, u.mods[0])))); setvec(ex, st, a[0], o, a[1]); st.ghost["strides"] = o
    def setup(ex, st):
        ex.objs[vec.id] = vec; ex.objs[out.id] = out; words(ex, st, D, SHAPE); setvec(ex, st, Ptr(vec, 0), D, N); ex.bounded(st, N); st.assume(*base_axioms()); st.ghost["last"] = N
        return args_of(u, fn, {0: Ptr(out, 0), "shape": Ptr(vec, 0)})
    def load(ex, st, o, off, n):
        if o is D: st.assume(*std_axiom(IDX(off))); st.ghost["last"] = IDX(off)
    def cands(sn):
        S = sn.st.ghost.get("strides"); r = []
        if S is None: return r
        a = arr_of(sn.ex, sn.st, S); ps = {n: U(p.f) for n, p in sn.ptrs.items() if p.o in (S, D)}; es = {n: U(sn.entry[n].f) for n in ps if isinstance(sn.entry.get(n), Ptr)}
        for n, v in ps.items():
            for c in (0, 8):
                i = IDX(v) - c // 8
                r += [(f"8*i<=8*n at {n}-{c}", z3.And(z3.ULE(BV(c, 64), v), z3.ULE(v, N * 8 - 8 + c), z3.URem(v, BV(8, 64)) == 0)), (f"at {n}-{c}", z3.And(z3.Select(a, i) == STD(i), FIT(i))), (f"from {n}-{c}", z3.Implies(z3.And(z3.ULE(i, K), z3.ULT(K, N)), z3.Select(a, K) == STD(K)))]
            for m, w in ps.items():
                if m < n and m in es and n in es: r.append((f"{n} and {m} together", v - w == es[n] - es[m]))
        for n, (v, w) in sn.ints.items():
            if w == 64: v = U(v); r += [(f"at {n}", z3.And(z3.ULT(v, N), z3.Select(a, v) == STD(v), FIT(v))), (f"from {n}", z3.Implies(z3.And(z3.ULE(v, K), z3.ULT(K, N)), z3.Select(a, K) == STD(K))), (f"at {n}-1", z3.And(v != 0, z3.ULE(v, N), z3.Select(a, v - 1) == STD(v - 1), FIT(v - 1))), (f"from {n}-1", z3.Implies(z3.And(z3.ULE(v - 1, K), z3.ULT(K, N)), z3.Select(a, K) == STD(K))),
                                         (f"at {n}+1", z3.And(v < U(N) - 1, v >= -1, z3.Select(a, v + 1) == STD(v + 1), FIT(v + 1))), (f"from {n}+1", z3.Implies(z3.And(z3.ULE(v + 1, K), z3.ULT(K, N)), z3.Select(a, K) == STD(K)))]
        return r
    def post(ex, st, out_):
        if out_[0] == "throw":
            ex.cover("refused"); L = st.ghost["last"]
            yield "ensures: refused as an invalid argument", I1(is_exc(out_, "invalid_argument")); yield "ensures: refused only where a stride is not representable", z3.And(z3.ULT(L, N), L != 0, z3.Not(FIT(L - 1))); return
        d, n = vec_of(ex, st, out, 0)
        if d is None: ex.cover("no dimension"); yield "ensures: no strides only for no dimension", N == 0; return
        ex.cover("strides"); yield "ensures: a stride for every dimension", z3.And(N != 0, n == N * 8)
        yield "ensures: row-major strides", z3.Implies(z3.ULT(K, N), z3.Select(arr_of(ex, st, d), K) == STD(K)) if ex.om(st, d).mode == "words" else False
        yield "ensures: every stride is representable", FIT(BV(0, 64))
    return dict(name="Tensor::default_strides", fn=fn, setup=lambda ex, st: setup(ex, st), post=post, covers=["refused", "no dimension", "strides"], cands=[cands], on_load=[load], stubs=[R(VL + r"vector\(unsigned long, long const&", ctor), R(VL + r"~vector\(\)", nop)], opts=dict(opaque_mul=True), budget=120)
# ---- construction: the parts are kept, strides are the given ones or the row-major ones
def T(u, n): return field(u, "Tensor", n)
def spec_tensor(u):
    fn = r"mlio::Tensor::Tensor\(mlio::Data_type"; D, S, R_ = Obj("shape data", U(N) * 8, True), Obj("stride data", U(M) * 8, True), Obj("row-major strides", U(N) * 8, True)
    this, sv, tv = Obj("this", T(u, "__size__"), False), Obj("shape vector", 24, True), Obj("stride vector", 24, True)
    def default(ex, st, a, i):
        """contract of default_strides (above)"""
        ex.oblige(st, "requires: the shape of the tensor", holds(ex, st, a[1].o, a[1].f, D, N)); r = st.copy(); setvec(ex, r, a[0], R_, N); r.ghost["default"] = True; t = st.copy(); t.ghost["default"] = True
        return [(r, ("ret", None)), (t, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def setup(ex, st):
        for o in (this, sv, tv): ex.objs[o.id] = o
        words(ex, st, D, SHAPE); words(ex, st, S, STR); words(ex, st, R_, z3.Array("row-major", B64, B64)); ex.bounded(st, N, M); setvec(ex, st, Ptr(sv, 0), D, N); setvec(ex, st, Ptr(tv, 0), S, M); st.ghost["default"] = False
        return args_of(u, fn, {0: Ptr(this, 0), 1: DT, 2: Ptr(sv, 0), 3: Ptr(tv, 0)})
    def post(ex, st, out):
        d = st.ghost["default"]
        if out[0] == "throw":
            ex.cover("refused"); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument")); yield "ensures: refused only for strides of another rank or a too large shape", z3.And(z3.Or(I1(d), N != M), z3.Implies(I1(d), M == 0)); return
        ex.cover("given strides", M != 0); ex.cover("default strides", z3.And(M == 0, N != 0))
        yield "ensures: the data type", bv(cell(ex, st, this, T(u, "data_type_"), I32), 32) == DT
        yield "ensures: the shape given", holds(ex, st, this, T(u, "shape_"), D, N)
        yield "ensures: the strides given, of the same rank", z3.Implies(M != 0, z3.And(N == M, holds(ex, st, this, T(u, "strides_"), S, M)))
        yield "ensures: the row-major strides if none are given", z3.Implies(z3.And(M == 0, N != 0), holds(ex, st, this, T(u, "strides_"), R_, N))
    return dict(name="Tensor::Tensor", fn=fn, setup=setup, post=post, covers=["refused", "given strides", "default strides"], stubs=[R(r"mlio::Tensor::default_strides\(", default), R(VL + r"~vector\(\)", nop), R(VU + r"~vector\(\)", nop), R(r"void operator delete|operator delete", nop)], budget=60)
# ---- the extent of a dense tensor: the sum of (dimension - 1) * |stride|
EXT, OVR = z3.Function("extent of the first dimensions", B64, B64), z3.Function("extent not representable", B64, z3.BoolSort())
def mag(s): return z3.If(s < 0, -s, s)
def ext_axioms(i):
    d, s = z3.Select(SHAPE, i) - 1, mag(z3.Select(STR, i)); p = umul(d, s)
    return [EXT(i + 1) == EXT(i) + p, OVR(i + 1) == z3.Or(OVR(i), umulo(d, s), z3.ULT(EXT(i) + p, p)), umul(d, s) == umul(s, d), umulo(d, s) == umulo(s, d)]
W = z3.BitVec("W", 64)
def spec_validate(zero):
    def spec(u):
        fn = r"mlio::Dense_tensor::validate_data_size\("; D, S = Obj("shape data", U(N) * 8, True), Obj("stride data", U(N) * 8, True); this, data = Obj("this", field(u, "Dense_tensor", "__size__"), True), Obj("data", None, True)
        virt = dispatch({"Device_array": vtable(u, "Cpu_array", r"mlio::Cpu_array<")}, {"Device_array": [(r"::size\(", lambda ex, st, a, i: DSIZE)]})
        def setup(ex, st):
            ex.objs[this.id] = this; words(ex, st, D, SHAPE); words(ex, st, S, STR); ex.bounded(st, N); vinit(ex, st, data, "Device_array"); st.ghost["idx"] = BV(0, 64)
            setvec(ex, st, Ptr(this, T(u, "shape_")), D, N); setvec(ex, st, Ptr(this, T(u, "strides_")), S, N); ex.store(st, Ptr(this, field(u, "Dense_tensor", "data_")), Ptr(data, 0), PT, u.mods[0])
            st.assume(EXT(BV(0, 64)) == 0, z3.Not(OVR(BV(0, 64))), *([z3.ULT(W, N), z3.Select(SHAPE, W) == 0] if zero else [])); return args_of(u, fn, {0: Ptr(this, 0)})
        def load(ex, st, o, off, n):
            if o is D or o is S: st.assume(*ext_axioms(IDX(off)), *([] if zero else [z3.Implies(z3.ULT(IDX(off), N), z3.Select(SHAPE, IDX(off)) != 0)]))
        def cands(sn):
            r = []; ps = {n: U(p.f) for n, p in sn.ptrs.items() if p.o in (S, D)}; ix = [(f"{n}>>3", IDX(v)) for n, v in ps.items()] + [(n, U(v)) for n, (v, w) in sn.ints.items() if w == 64]
            for n, v in ps.items():
                r.append((f"{n} in the list", z3.And(z3.ULE(v, N * 8), z3.URem(v, BV(8, 64)) == 0)))
                for m, w in ps.items():
                    if m < n: r.append((f"{n} and {m} together", v == w))
            for n, i in ix:
                if zero: r.append((f"{n}<=W", z3.ULE(i, W)))
                r.append((f"{n}<=N", z3.ULE(i, N)))
                for m, (v, w) in sn.ints.items():
                    if w == 64 and m != n: r.append((f"{m}==extent({n})", U(v) == EXT(i)))
                    if w == 8: r.append((f"{m}==overflow({n})", (z3.Extract(0, 0, bv(v, 8)) == 1) == OVR(i)))
                    if w == 1: r.append((f"{m}==overflow({n})", bo(asbool(v)) == OVR(i)))
            return r
        def post(ex, st, out):
            if zero: yield "ensures: no data is needed for no elements", I1(out[0] != "throw"); return
            bad = z3.And(N != 0, z3.Or(OVR(N), z3.UGE(EXT(N), DSIZE)))
            if out[0] == "throw": ex.cover("refused"); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument")); yield "ensures: refused only if an element lies outside the data", bad; return
            ex.cover("accepted", N != 0); yield "ensures: every element lies in the data", z3.Not(bad)
        return dict(name="Dense_tensor::validate_data_size" + (" (no elements)" if zero else ""), fn=fn, setup=setup, post=post, covers=[] if zero else ["refused", "accepted"], cands=[cands], on_load=[load], opts=dict(opaque_mul=True, virtual=virt), budget=120)
    spec.__name__ = "spec_validate" + ("_zero" if zero else "")
    return spec
# ---- the three kinds
def kinds(u, cls, parts, cands=None, more=None):
    """objects and stubs of a constructor: shape of N dimensions, parts: device arrays by argument position -> (object, size)"""
    D = Obj("shape data", U(N) * 8, True); this, sv = Obj("this", field(u, cls, "__size__"), False), Obj("shape vector", 24, True); ptrs = {k: Obj(n.name + " pointer", 8, True) for k, (n, z) in parts.items()}
    sizes = {n.id: z for n, z in parts.values()}
    def size(ex, st, a, i):
        if a[0].o.id in sizes: return sizes[a[0].o.id]
        return more(ex, st, a[0])
    def dtype(ex, st, a, i): ex.oblige(st, "requires: the data type of the data", I1(a[0].o is parts[2][0])); return DT
    virt = dispatch({"Device_array": vtable(u, "Cpu_array", r"mlio::Cpu_array<")}, {"Device_array": [(r"::size\(", size), (r"::data_type\(", dtype)]})
    def tensor(ex, st, a, i):
        """contract of Tensor::Tensor (above)"""
        b, n = vec_of(ex, st, a[2].o, a[2].f); ex.oblige(st, "requires: data type and shape", z3.And(bv(a[1], 32) == DT, holds(ex, st, a[2].o, a[2].f, D, N)))
        b3, n3 = vec_of(ex, st, a[3].o, a[3].f); st.ghost["strides"] = (b3, n3) if b3 is not None else None
        r = st.copy(); setvec(ex, r, Ptr(a[0].o, add(a[0].f, T(u, "shape_"))), D, N); ex.store(r, Ptr(a[0].o, add(a[0].f, T(u, "data_type_"))), DT, I32, u.mods[0])
        if b3 is not None: setvec(ex, r, Ptr(a[0].o, add(a[0].f, T(u, "strides_"))), b3, z3.LShR(n3, 3))
        t = st.copy(); t.ghost["base refused"] = True; return [(r, ("ret", None)), (t, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def setup(ex, st):
        for o in [this, sv] + list(ptrs.values()): ex.objs[o.id] = o
        words(ex, st, D, SHAPE); ex.bounded(st, N); setvec(ex, st, Ptr(sv, 0), D, N); st.ghost["base refused"] = False; st.ghost["strides"] = None
        for k, (o, z) in parts.items(): vinit(ex, st, o, "Device_array"); ex.store(st, Ptr(ptrs[k], 0), Ptr(o, 0), PT, u.mods[0])
        return {0: Ptr(this, 0), 1: Ptr(sv, 0), **{k: Ptr(o, 0) for k, o in ptrs.items()}}
    stubs = [R(r"mlio::Tensor::Tensor\(mlio::Data_type", tensor), R(r"mlio::Tensor::~Tensor", nop), R(r"std::vector<.*>::~vector\(\)", nop), R(r"std::unique_ptr<mlio::Device_array.*>::~unique_ptr\(\)", nop)]
    return D, this, virt, setup, stubs
def kept(ex, st, this, off, o):
    p = cell(ex, st, this, off, PT); return I1(isinstance(p, Ptr) and p.o is o and eqc(simp(p.f), 0))
def spec_dense(u):
    fn = r"mlio::Dense_tensor::Dense_tensor\("; F = lambda n: field(u, "Dense_tensor", n); data = Obj("data", None, True); S, tv = Obj("stride data", U(M) * 8, True), Obj("stride vector", 24, True)
    D, this, virt, setup0, stubs = kinds(u, "Dense_tensor", {2: (data, DSIZE)})
    def validate(ex, st, a, i):
        """contract of validate_data_size (above)"""
        ex.oblige(st, "requires: shape and data in place", z3.And(holds(ex, st, this, T(u, "shape_"), D, N), kept(ex, st, this, F("data_"), data))); st.ghost["checked"] = True; t = st.copy(); t.ghost["outside"] = True
        return [(st, ("ret", None)), (t, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def setup(ex, st):
        a = setup0(ex, st); ex.objs[tv.id] = tv; words(ex, st, S, STR); ex.bounded(st, M); setvec(ex, st, Ptr(tv, 0), S, M); st.ghost["checked"] = st.ghost["outside"] = False; a[3] = Ptr(tv, 0); return args_of(u, fn, a)
    def post(ex, st, out):
        if out[0] == "throw": ex.cover("refused"); yield "ensures: refused only by the shape, the strides or the data size", I1(is_exc(out, "invalid_argument") and (st.ghost["base refused"] or st.ghost["outside"])); return
        ex.cover("accepted"); yield "ensures: shape and strides given", z3.And(holds(ex, st, this, T(u, "shape_"), D, N), holds(ex, st, this, T(u, "strides_"), S, M)); yield "ensures: the data given", kept(ex, st, this, F("data_"), data); yield "ensures: the data size was checked", I1(st.ghost["checked"])
    return dict(name="Dense_tensor", fn=fn, setup=setup, post=post, covers=["refused", "accepted"], stubs=stubs + [R(r"mlio::Dense_tensor::validate_data_size\(", validate)], opts=dict(virtual=virt), budget=60)
def spec_csr(u):
    fn = r"mlio::Csr_tensor::Csr_tensor\("; F = lambda n: field(u, "Csr_tensor", n); data, ind, ptr = (Obj(n, None, True) for n in ("data", "indices", "indptr")); NI, NP = z3.BitVec("number of indices", 64), z3.BitVec("number of index pointers", 64)
    D, this, virt, setup0, stubs = kinds(u, "Csr_tensor", {2: (data, DSIZE), 3: (ind, NI), 4: (ptr, NP)})
    def post(ex, st, out):
        rows = z3.If(N == 0, BV(0, 64), z3.If(N == 1, BV(1, 64), z3.Select(SHAPE, BV(0, 64)))); ok = z3.And(z3.ULE(N, 2), NI == DSIZE, z3.ZeroExt(8, NP) == z3.ZeroExt(8, rows) + 1)
        if out[0] == "throw": ex.cover("refused"); yield "ensures: refused only for lists that do not match", z3.Or(I1(st.ghost["base refused"]), z3.Not(ok)); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument")); return
        ex.cover("accepted"); yield "ensures: the index lists match data and shape", ok
        yield "ensures: shape, data and lists given", z3.And(holds(ex, st, this, T(u, "shape_"), D, N), I1(st.ghost["strides"] is None), kept(ex, st, this, F("data_"), data), kept(ex, st, this, F("indices_"), ind), kept(ex, st, this, F("indptr_"), ptr))
    return dict(name="Csr_tensor", fn=fn, setup=lambda ex, st: args_of(u, fn, setup0(ex, st)), post=post, covers=["refused", "accepted"], stubs=stubs, opts=dict(virtual=virt), budget=60)
CS = z3.Function("size of coordinate list", B64, B64)
def spec_coo(u):
    fn = r"mlio::Coo_tensor::Coo_tensor\("; F = lambda n: field(u, "Coo_tensor", n); data = Obj("data", None, True); C, cv = Obj("coordinate lists", U(M) * 8, True), Obj("coordinates vector", 24, True); lists = {}
    def size(ex, st, p):
        i = lists[p.o.id]; st.ghost["last"] = i; return CS(i)
    D, this, virt, setup0, stubs = kinds(u, "Coo_tensor", {2: (data, DSIZE)}, more=size)
    def elem(ex, st, i):
        o = Obj("coordinate list", None, False); lists[o.id] = i; vinit(ex, st, o, "Device_array"); return Ptr(o, 0)
    def setup(ex, st):
        a = setup0(ex, st); ex.objs[cv.id] = cv; words(ex, st, C, z3.Array("coordinate pointers", B64, B64)); ex.bounded(st, M); setvec(ex, st, Ptr(cv, 0), C, M); st.ghost["last"] = BV((1 << 64) - 1, 64); a[3] = Ptr(cv, 0); return args_of(u, fn, a)
    def cands(sn):
        r = []
        for n, p in sn.ptrs.items():
            if p.o is C: v = U(p.f); r += [(f"{n} in the list", z3.And(z3.ULE(v, M * 8), z3.URem(v, BV(8, 64)) == 0)), (f"before {n}", z3.Implies(z3.ULT(K, IDX(v)), CS(K) == DSIZE))]
        for n, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{n}<=M", z3.ULE(U(v), M)), (f"before {n}", z3.Implies(z3.ULT(K, U(v)), CS(K) == DSIZE))]
        return r
    def post(ex, st, out):
        if out[0] == "throw": L = st.ghost["last"]; ex.cover("refused"); yield "ensures: refused only for lists that do not match", z3.Or(I1(st.ghost["base refused"]), M != N, z3.And(z3.ULT(L, M), CS(L) != DSIZE)); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument")); return
        ex.cover("accepted", M != 0); yield "ensures: a coordinate list for every dimension", M == N; yield "ensures: a coordinate for every value", z3.Implies(z3.ULT(K, M), CS(K) == DSIZE)
        yield "ensures: shape, data and coordinates given", z3.And(holds(ex, st, this, T(u, "shape_"), D, N), I1(st.ghost["strides"] is None), kept(ex, st, this, F("data_"), data), holds(ex, st, this, F("coordinates_"), C, M))
    return dict(name="Coo_tensor", fn=fn, setup=setup, post=post, covers=["refused", "accepted"], cands=[cands], stubs=stubs, opts=dict(virtual=virt, elems={C.id: elem}), budget=60)
def specs(u):
    return [spec_default, spec_tensor, spec_validate(False), spec_validate(True), spec_dense, spec_csr, spec_coo]
HARNESS = dict(file="P19.cc", srcs=["src/mlio/tensor.cc", "src/mlio/tensor_visitor.cc", "src/mlio/cpu_array.cc", "src/mlio/device_array.cc", "src/mlio/device.cc", "src/mlio/data_type.cc"], secs=5)
NOTE = "the constructors of all three kinds, default strides and the size check are proved for every rank, shape, stride list and size; accessors and array creation are covered by the bounded stand-in only."
ASSUME = ["vector(n, value) of the standard library by its contract; its other operations are verified as part of the callers", "ranks and list lengths below 2^44", "64-bit products are opaque functions: code and specification mean the same product"]
