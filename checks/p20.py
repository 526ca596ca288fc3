import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, words, vec_of, holds, arr_of

SRCS = [os.path.join(build.VERIF, "harness/ir/coo.cc"), "src/mlio/coo_tensor_builder.cc", "src/mlio/schema.cc"]
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
fixed = lambda e: U(simp(e))
B64 = z3.BitVecSort(64)
N, M, K, J, ROW, N0, V0 = (z3.BitVec(n, 64) for n in ("rank", "number of indices", "K", "J", "row", "number of values", "coordinate (K, J)"))    # K any dimension, J any position
SHAPE, STRIDE, IX, ROWS = (z3.Array(n, B64, B64) for n in ("shape", "strides", "indices", "row coordinates"))
REM = z3.Function("rest of index J at dimension", B64, B64)       # what is left of the index of position J before a dimension
def B(u, n): return field(u, "Coo_tensor_builder", n)
def quotient(d): return udivf(REM(U(d)), z3.Select(STRIDE, U(d)))
VV, VU = r"std::vector<std::vector<unsigned long, std::allocator<unsigned long> ?>, .*?> ?>::", r"std::vector<unsigned long, std::allocator<unsigned long> ?>::"
class Builder:
    """a builder of N dimensions.  Of its coordinate lists the sizes of the first and of the K-th and the K-th list's value at J are followed; the
    values of the first at all positions"""
    def __init__(s, u):
        s.u = u; s.this, s.attr, s.C = Obj("this", B(u, "__size__") + 64, True), Obj("attribute", field(u, "Attribute", "__size__"), True), Obj("coordinate lists", simp(U(N) * 24), True); s.S, s.T, s.R, s.x = Obj("shape data", U(N) * 8, True), Obj("stride data", U(N) * 8, True), Obj("row list", simp(U(1 << 46)), True), Obj("index data", U(M) * 8, True)
    def init(s, ex, st):
        m = s.u.mods[0]
        for o in (s.this, s.attr, s.C): ex.objs[o.id] = o
        for o, a in ((s.S, SHAPE), (s.T, STRIDE), (s.R, ROWS), (s.x, IX)): words(ex, st, o, a)
        ex.bounded(st, N, M, N0); st.assume(z3.UGE(N, 2), z3.ULT(K, N), z3.ULT(N0 + M, BV(1 << 43, 64))); setvec(ex, st, Ptr(s.attr, field(s.u, "Attribute", "shape_")), s.S, N); setvec(ex, st, Ptr(s.attr, field(s.u, "Attribute", "strides_")), s.T, N)
        e = simp(U(N) * 24)
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(s.this, B(s.u, "coordinates_") + k), Ptr(s.C, v), PT, m)
        ex.store(st, Ptr(s.this, B(s.u, "attr_")), Ptr(s.attr, 0), PT, m); ex.store(st, Ptr(s.this, B(s.u, "row_idx_")), ROW, I64, m)
        # invariant: every dimension has the same number of coordinates, rows do not decrease and are less than the next row
        g = st.ghost; g["n0"] = g["nK"] = N0; g["v"] = V0; g["pushes"] = BV(0, 64); g["rows"] = BV(0, 64); g["at"] = BV(0, 64); st.assume(z3.Implies(z3.ULT(J, N0), z3.ULT(z3.Select(ROWS, J), ROW)), z3.Implies(K == 0, z3.Implies(z3.ULT(J, N0), V0 == z3.Select(ROWS, J))))
        st.assume(REM(BV(1, 64)) == z3.Select(IX, J - N0))
        return Ptr(s.this, 0)
    def dim(s, p):
        if not (isinstance(p, Ptr) and p.o is s.C): raise ir.Unsupported("another vector")
        k = quot(simp(p.f), 24)
        if k is None: raise ir.Unsupported("the middle of a vector")
        return U(k)
    def inside(s, ex, st, d): ex.oblige(st, f"safety:dimension of the batch ({ex.where(st)})", z3.ULT(d, N))
    def size(s, ex, st, d):
        n = ex.fresh("other size"); g = st.ghost; return z3.If(d == 0, g["n0"], z3.If(d == K, g["nK"], n))
    def stubs(s):
        def size(ex, st, a, i): d = s.dim(a[0]); s.inside(ex, st, d); return simp(s.size(ex, st, d))
        def push(ex, st, a, i):
            d = s.dim(a[0]); s.inside(ex, st, d); v = U(ex.load(st, a[1], I64)); g = st.ghost; n = s.size(ex, st, d)
            g["v"] = fixed(z3.If(z3.And(d == K, n == J), v, g["v"])); g["nK"] = fixed(z3.If(d == K, g["nK"] + 1, g["nK"])); g["n0"] = fixed(z3.If(d == 0, g["n0"] + 1, g["n0"])); g["pushes"] = fixed(z3.If(d == 0, g["pushes"] + 1, g["pushes"]))
            return Ptr(Obj("coordinate", 8, True), 0)
        def resize(ex, st, a, i):
            d = s.dim(a[0]); s.inside(ex, st, d); n = U(a[1]); g = st.ghost; ex.oblige(st, "requires: coordinates are only removed", z3.ULE(n, s.size(ex, st, d)) if st.ghost.get("strict") else z3.And(z3.Implies(d == 0, z3.ULE(n, g["n0"])), z3.Implies(d == K, z3.ULE(n, g["nK"]))))
            g["nK"] = fixed(z3.If(d == K, n, g["nK"])); g["n0"] = fixed(z3.If(d == 0, n, g["n0"]))
        def at(ex, st, a, i):
            if a[0].o is not s.C:
                b = cell(ex, st, a[0].o, a[0].f, PT); e = cell(ex, st, a[0].o, add(a[0].f, 8), PT); ex.oblige(st, f"safety:element inside the vector ({ex.where(st)})", z3.ULT(U(a[1]), z3.LShR(U(e.f) - U(b.f), BV(3, 64)))); return Ptr(b.o, simp(U(b.f) + U(a[1]) * 8))
            d = s.dim(a[0]); s.inside(ex, st, d); k = U(a[1]); ex.oblige(st, f"safety:coordinate inside its list ({ex.where(st)})", z3.And(d == 0, z3.ULT(k, st.ghost["n0"]))); return Ptr(s.R, simp(k * 8))
        return [R(VU + r"size\(\)", size), R(r"(unsigned long& |auto |void )?" + VU + r"(emplace_back|push_back)(<.*>)?\(", push), R(VU + r"resize\(unsigned long\)", resize), R(VU + r"(operator\[\]|at)\(", at)]
def spec_append(u):
    fn = r"mlio::detail::Coo_tensor_builder::append_indices\([^()]*\)$"; S = Builder(u); i = J - N0      # the index given for position J
    mine = z3.And(z3.UGE(J, N0), z3.ULT(i, M))
    def setup(ex, st): t = S.init(ex, st); return args_of(u, fn, {"this": t, "indices.coerce0": Ptr(S.x, 0), "indices.coerce1": M})
    def hook(ex, st, o, off, n):
        if o is S.T and n == 8: d = z3.LShR(U(off), BV(3, 64)); s = z3.Select(STRIDE, d); st.assume(REM(d + 1) == uremf(REM(d), s), *division(REM(d), s)); st.ghost["at"] = d
    def cands(sn):
        g = sn.st.ghost; r = []; p = g["pushes"]; e = sn.entry["ghosts"]
        r += [("values of one dimension", z3.And(g["n0"] == N0 + p, z3.ULE(p, M))), ("same number in every dimension", g["nK"] == g["n0"]), ("earlier coordinates stay", z3.Implies(z3.ULT(J, N0), g["v"] == V0)),
              ("coordinates of the indices", z3.Implies(z3.And(mine, z3.ULT(J, g["nK"])), g["v"] == z3.If(K == 0, ROW, quotient(K)))), ("inside the shape", z3.Implies(z3.And(mine, z3.ULT(J, g["nK"]), K != 0), z3.And(z3.ULT(quotient(K), z3.Select(SHAPE, K)), z3.Select(STRIDE, K) != 0)))]
        r += [("the first is one list", z3.Implies(K == 0, g["nK"] == g["n0"])), ("first kept", z3.UGE(g["n0"], N0)), ("K kept", z3.UGE(g["nK"], N0))]
        ds = []
        for n, q in sn.ptrs.items():
            for o, w in ((S.S, 8), (S.T, 8), (S.C, 24), (S.x, 8)):
                if q.o is o and quot(simp(q.f), w) is not None: ds.append((n, U(quot(simp(q.f), w)), o))
        for n, k, o in ds:
            if o is S.x: r += [(f"{n} in the indices", z3.ULE(k, M)), (f"one value for every index before {n}", p == k), (f"one value for every index up to {n}", p == k + 1)]
            else:
                r += [(f"{n} is a dimension", z3.And(z3.ULE(k, N), z3.UGE(k, 1)))] + [(f"{n} with {m}", k == l) for m, l, q in ds if q is not S.x and m < n]
                r += [(f"dimensions before {n} have one more", g["nK"] == g["n0"] - z3.If(z3.ULT(K, k), BV(0, 64), BV(1, 64))), (f"before {n} restored", z3.Implies(z3.ULT(K, k), g["nK"] == N0)), (f"first before {n} restored", z3.Implies(k != 0, g["n0"] == N0)), (f"{n} at most N", z3.ULE(k, N)), (f"from {n} on not restored", z3.Implies(z3.UGE(K, k), z3.UGE(g["nK"], N0)))]
                for m, (v, w) in sn.ints.items():
                    if w == 64: r.append((f"{m} is the rest at {n}", z3.Implies(p == i + 1, U(v) == REM(k))))
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        ok = bo(asbool(out[1])); g = st.ghost; row = U(cell(ex, st, S.this, B(u, "row_idx_"), I64)); ex.cover("accepted", z3.And(ok, M != 0)); ex.cover("refused", z3.And(z3.Not(ok), g["pushes"] == 3)); d = g["at"]
        yield "ensures: one coordinate for every index in every dimension", z3.Implies(ok, z3.And(g["nK"] == N0 + M, g["n0"] == N0 + M)); yield "ensures: a refused row leaves no coordinate", z3.Implies(z3.Not(ok), z3.And(g["nK"] == N0, g["n0"] == N0))
        yield "frame: earlier coordinates stay", z3.Implies(z3.ULT(J, N0), g["v"] == V0); yield "ensures: only an accepted row counts", row == z3.If(ok, ROW + 1, ROW)
        yield "ensures: the row comes first", z3.Implies(z3.And(ok, mine, K == 0), g["v"] == ROW); yield "ensures: the coordinate is the row-major position of the index", z3.Implies(z3.And(ok, mine, K != 0), g["v"] == quotient(K)); yield "ensures: every coordinate lies inside its dimension", z3.Implies(z3.And(ok, mine, K != 0), z3.And(z3.ULT(quotient(K), z3.Select(SHAPE, K)), z3.Select(STRIDE, K) != 0))
        yield "ensures: refused only for an index outside the shape", z3.Implies(z3.And(z3.Not(ok), mine, g["pushes"] == i + 1), z3.And(z3.UGE(d, 1), z3.ULT(d, N), z3.Or(z3.Select(STRIDE, d) == 0, z3.UGE(quotient(d), z3.Select(SHAPE, d)))))
        yield "ensures: a row without indices is accepted", z3.Implies(M == 0, ok)
    return dict(name="Coo_tensor_builder::append_indices", fn=fn, setup=setup, post=post, covers=["accepted", "refused"], cands=[cands], on_load=[hook], stubs=S.stubs(), opts=dict(watch=[K, J], scale={S.C.id: 24, S.S.id: 8, S.T.id: 8, S.x.id: 8}, opaque_mul=True), budget=120)
NR = z3.BitVec("number of rows to keep", 64)
def spec_discard(u):
    fn = r"mlio::detail::Coo_tensor_builder::discard_indices\([^()]*\)$"; S = Builder(u)
    def setup(ex, st): t = S.init(ex, st); st.ghost["strict"] = False; return args_of(u, fn, {"this": t, "num_rows": NR})
    def hook(ex, st, o, off, n):
        if o is S.R: i = z3.LShR(U(off), BV(3, 64)); st.assume(z3.Implies(z3.And(z3.ULE(J, i), z3.ULT(i, N0)), z3.ULE(z3.Select(ROWS, J), z3.Select(ROWS, i))))      # the rows do not decrease
    def cands(sn):
        g = sn.st.ghost; r = [("the first is one list", z3.Implies(K == 0, g["nK"] == g["n0"])), ("nothing removed yet", z3.And(g["n0"] == N0, g["nK"] == N0)), ("K kept", z3.ULE(g["nK"], N0))]
        ns = [(n, U(v)) for n, (v, w) in sn.ints.items() if w == 64]; seen = {v.get_id() for n, v in ns}
        for n, v in list(sn.fr.regs.items()):      # values fixed before the loop
            if z3.is_bv(v) and v.size() == 64 and v.get_id() not in seen: seen.add(v.get_id()); ns.append((f"value {n}", v))
        for n, v in ns: r += [(f"{n} at most the values", z3.ULE(v, N0)), (f"from {n} on later rows", z3.Implies(z3.And(z3.UGE(J, v), z3.ULT(J, N0)), z3.UGE(z3.Select(ROWS, J), NR))), (f"not less than {n}", z3.And(z3.UGE(g["n0"], v), z3.UGE(g["nK"], v))), (f"to {n}", z3.And(g["nK"] == v, g["n0"] == v))]
        for n, q in sn.ptrs.items():
            k = quot(simp(q.f), 24) if q.o is S.C else None
            if k is None: continue
            r += [(f"{n} at most N", z3.ULE(U(k), N)), (f"from {n} on", z3.Implies(z3.UGE(K, U(k)), g["nK"] == N0)), (f"first from {n} on", z3.Implies(U(k) == 0, g["n0"] == N0))]
            for m, v in ns: r += [(f"before {n}: {m}", z3.Implies(z3.ULT(K, U(k)), g["nK"] == v)), (f"first before {n}: {m}", z3.Implies(U(k) != 0, g["n0"] == v))]
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        n = U(out[1]); g = st.ghost; row = U(cell(ex, st, S.this, B(u, "row_idx_"), I64)); ex.cover("some removed", z3.And(n != N0, n != 0)); ex.cover("none removed", n == N0); x = z3.Select(ROWS, J)
        yield "ensures: the values of the rows kept and no others", z3.Implies(z3.ULT(J, N0), z3.ULT(J, n) == z3.ULT(x, NR)); yield "ensures: that many coordinates in every dimension", z3.And(g["nK"] == n, g["n0"] == n, z3.ULE(n, N0))
        yield "ensures: the next row follows the rows kept", row == z3.If(z3.ULT(ROW, NR), ROW, NR); yield "invariant: rows are less than the next row", z3.Implies(z3.ULT(J, n), z3.ULT(x, row)); yield "frame: coordinates kept stay", g["v"] == V0
    return dict(name="Coo_tensor_builder::discard_indices", fn=fn, setup=setup, post=post, covers=["some removed", "none removed"], cands=[cands], on_load=[hook], stubs=S.stubs(), opts=dict(watch=[K, J], scale={S.C.id: 24}), budget=90)
# ---- the values beside the coordinates (one instantiation stands for each data type; the others differ in the element type only)
NV = z3.BitVec("number of values given", 64)
DT, EL = {"float32": 2, "int64": 7}, {"float32": ("float", 4), "int64": ("long", 8)}
def data_of(u, dt):
    el, w = EL[dt]; this, vals, idx = Obj("this", B(u, "__size__") + 64, True), Obj("values", U(NV) * w, True), Obj("index data", U(M) * 8, True); off = B(u, "__size__"); V = rf"std::vector<{el}, std::allocator<{el}> ?>::"; D = Obj("stored values", simp(U(1 << 46)), True); cls = rf"mlio::detail::Coo_tensor_builder_impl<\(mlio::Data_type\){DT[dt]}>::"
    def mine(ex, st, p): ex.oblige(st, "requires: the values of the builder", TF(isinstance(p, Ptr) and p.o is this and eqc(simp(p.f), off)))
    def size(ex, st, a, i): mine(ex, st, a[0]); return st.ghost["size"]
    def resize(ex, st, a, i): mine(ex, st, a[0]); ex.oblige(st, "requires: values are only removed", z3.ULE(U(a[1]), st.ghost["size"])); st.ghost["size"] = U(a[1])
    def end(ex, st, a, i): mine(ex, st, a[0]); return Ptr(D, simp(st.ghost["size"] * w))
    def insert(ex, st, a, i):
        mine(ex, st, a[0]); ok = all(isinstance(x, Ptr) for x in a[1:4]) and a[1].o is D and a[2].o is vals and a[3].o is vals
        ex.oblige(st, "requires: all given values, behind the last one", z3.And(TF(ok), U(a[1].f) == st.ghost["size"] * w, U(a[2].f) == 0, U(a[3].f) == U(NV) * w) if ok else False); st.ghost["size"] = simp(st.ghost["size"] + NV); return Ptr(D, 0)
    def init(ex, st):
        for o in (this, vals, idx): ex.objs[o.id] = o
        ex.bounded(st, N0, NV, M); st.ghost.update(size=N0, n=N0, indices=False, wrapped=False, built=False); return Ptr(this, 0)
    stubs = [R(V + r"size\(\)", size), R(V + r"resize\(unsigned long\)", resize), R(V + r"c?end\(\)", end), R(V + r"c?begin\(\)", lambda ex, st, a, i: (mine(ex, st, a[0]), Ptr(D, 0))[1]), R(r".*" + V + r"insert<", insert)]
    return el, w, this, vals, idx, off, cls, init, stubs, mine
def spec_values(dt):
    def spec(u):
        el, w, this, vals, idx, off, cls, init, stubs, mine = data_of(u, dt); fn = cls + r"append\("
        def indices(ex, st, a, i):
            """contract of append_indices (above)"""
            ex.oblige(st, "requires: the indices of the row, once", z3.And(TF(isinstance(a[1], Ptr) and a[1].o is idx and a[0].o is this and st.ghost["indices"] is False), U(a[1].f) == 0, U(a[2]) == M)); ok, no = st.copy(), st.copy(); ok.ghost.update(n=simp(N0 + M), indices="accepted"); no.ghost["indices"] = "refused"
            return [(ok, ("ret", 1)), (no, ("ret", 0))]
        def setup(ex, st): t = init(ex, st); return args_of(u, fn, {"this": t, "values.coerce0": Ptr(vals, 0), "values.coerce1": NV, "indices.coerce0": Ptr(idx, 0), "indices.coerce1": M})
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            ok = bo(asbool(out[1])); g = st.ghost; ex.cover("accepted", ok); ex.cover("other number of values", z3.And(z3.Not(ok), NV != M)); ex.cover("index refused", z3.And(z3.Not(ok), NV == M))
            yield "ensures: accepted if and only if the indices are and there is a value for each", ok == z3.And(NV == M, TF(g["indices"] == "accepted")); yield "ensures: a value for every index", z3.Implies(ok, g["size"] == N0 + NV); yield "ensures: a refused row leaves no value", z3.Implies(z3.Not(ok), g["size"] == N0); yield "invariant: as many values as coordinates", g["size"] == g["n"]
        return dict(name=f"Coo_tensor_builder_impl<{dt}>::append", fn=fn, setup=setup, post=post, covers=["accepted", "other number of values", "index refused"], stubs=[R(r"mlio::detail::Coo_tensor_builder::append_indices\(", indices)] + stubs, opts=dict(scale={vals.id: w}), budget=60)
    spec.__name__ = "spec_values_" + dt; return spec
def spec_rows(dt):
    def spec(u):
        el, w, this, vals, idx, off, cls, init, stubs, mine = data_of(u, dt); fn = cls + r"discard_rows\("; left = z3.BitVec("values left", 64)
        def discard(ex, st, a, i):
            """contract of discard_indices (above)"""
            ex.oblige(st, "requires: the rows to keep", z3.And(TF(a[0].o is this), U(a[1]) == NR)); st.assume(z3.ULE(left, N0)); st.ghost["n"] = left; return left
        def setup(ex, st): return args_of(u, fn, {"this": init(ex, st), "num_rows": NR})
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            ex.cover("rows discarded", left != N0); yield "ensures: the values of the rows kept", st.ghost["size"] == left; yield "invariant: as many values as coordinates", st.ghost["size"] == st.ghost["n"]
        return dict(name=f"Coo_tensor_builder_impl<{dt}>::discard_rows", fn=fn, setup=setup, post=post, covers=["rows discarded"], stubs=[R(r"mlio::detail::Coo_tensor_builder::discard_indices\(", discard)] + stubs, budget=60)
    spec.__name__ = "spec_rows_" + dt; return spec
def wrap(rx, f): return R(r"std::unique_ptr<mlio::Device_array, .*> mlio::wrap_cpu_array<" + rx, f)
UP = [R(r"std::unique_ptr<mlio::Device_array.*>::~unique_ptr\(\)", nop), R(r"std::vector<.*>::~vector\(\)", nop)]
def spec_build(dt):
    def spec(u):
        el, w, this, vals, idx, off, cls, init, stubs, mine = data_of(u, dt); fn = cls + r"build\("; arr, out_, ten = Obj("values array", None, True), outobj("result", 8), Obj("tensor", None, True)
        def wr(ex, st, a, i): mine(ex, st, a[1]); ex.oblige(st, "requires: the values once", TF(not st.ghost["wrapped"])); st.ghost["wrapped"] = True; ex.store(st, a[0], Ptr(arr, 0), PT, u.mods[0])
        def core(ex, st, a, i):
            """contract of build_core (below)"""
            p = cell(ex, st, a[2].o, a[2].f, PT); ex.oblige(st, "requires: the array of all values", TF(isinstance(p, Ptr) and p.o is arr and st.ghost["wrapped"])); st.ghost["built"] = True; ex.store(st, a[0], Ptr(ten, 0), PT, u.mods[0])
        def setup(ex, st): t = init(ex, st); ex.objs[out_.id] = out_; return args_of(u, fn, {"agg.result": Ptr(out_, 0), "this": t})
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            p = cell(ex, st, out_, 0, PT); ex.cover("built"); yield "ensures: the tensor of all values", TF(st.ghost["built"] and isinstance(p, Ptr) and p.o is ten)
        return dict(name=f"Coo_tensor_builder_impl<{dt}>::build", fn=fn, setup=setup, post=post, covers=["built"], stubs=[wrap(rf"\(mlio::Data_type\){DT[dt]}, ", wr), R(r"mlio::detail::Coo_tensor_builder::build_core\(", core)] + UP + stubs, budget=60)
    spec.__name__ = "spec_build_" + dt; return spec
def spec_core(u):
    fn = r"mlio::detail::Coo_tensor_builder::build_core\("; S = Builder(u); W, data, dp, out_, ten, L, cp = Obj("coordinate arrays", simp(U(N) * 8), True), Obj("values array", None, True), Obj("values pointer", 8, True), outobj("result", 8), Obj("tensor", None, True), Obj("layout", simp(U(N) * 8), True), Obj("shape copy", U(N) * 8, False); BS = z3.BitVec("batch size", 64)
    LV = r"std::vector<std::unique_ptr<mlio::Device_array, .*?> ?>::"
    def setup(ex, st):
        t = S.init(ex, st); m = u.mods[0]
        for o in (W, data, dp, out_, ten, L): ex.objs[o.id] = o
        ex.store(st, Ptr(dp, 0), Ptr(data, 0), PT, m); ex.store(st, Ptr(S.this, B(u, "batch_size_")), BS, I64, m); st.ghost.update(count=BV(0, 64), which=BV(0, 64), taken=BV(0, 8), wrapped=BV(0, 64), made=False)
        return args_of(u, fn, {"agg.result": Ptr(out_, 0), "this": t, "data": Ptr(dp, 0)})
    def wr(ex, st, a, i):
        d = S.dim(a[1]); S.inside(ex, st, d); ex.store(st, a[0], Ptr(W, simp(d * 8)), PT, u.mods[0]); g = st.ghost; g["taken"] = fixed8(z3.If(d == K, g["taken"] + 1, g["taken"]))
    def emplace(ex, st, a, i):
        p = cell(ex, st, a[1].o, a[1].f, PT); k = quot(simp(p.f), 8) if isinstance(p, Ptr) and p.o is W else None; g = st.ghost
        ex.oblige(st, "requires: an array of coordinates", TF(k is not None)); g["which"] = fixed(z3.If(g["count"] == K, U(k), g["which"])); g["count"] = fixed(g["count"] + 1); return Ptr(L, 0)
    def copy(ex, st, a, i): ex.oblige(st, "requires: the shape of the attribute", holds(ex, st, a[1].o, a[1].f, S.S, N)); words(ex, st, cp, SHAPE); setvec(ex, st, a[0], cp, N)
    def make(ex, st, a, i):
        g = st.ghost; b, n = vec_of(ex, st, a[1].o, a[1].f); p = cell(ex, st, a[2].o, a[2].f, PT)
        ex.oblige(st, "requires: the shape of the attribute with the batch size in front", z3.And(TF(b is cp), n == U(N) * 8, z3.Implies(z3.ULT(K, N), z3.Select(arr_of(ex, st, cp), K) == z3.If(K == 0, BS, z3.Select(SHAPE, K)))) if b is cp else False)
        ex.oblige(st, "requires: the values given", TF(isinstance(p, Ptr) and p.o is data)); ex.oblige(st, "requires: the coordinates of every dimension in its place", z3.And(g["count"] == N, g["which"] == K, g["taken"] == 1)); g["made"] = True; ex.store(st, a[0], Ptr(ten, 0), PT, u.mods[0])
    def cands(sn):
        g = sn.st.ghost; r = []
        for n, q in sn.ptrs.items():
            k = quot(simp(q.f), 24) if q.o is S.C else None
            if k is not None: k = U(k); r += [(f"{n} at most N", z3.ULE(k, N)), (f"arrays before {n}", g["count"] == k), (f"K-th before {n}", z3.Implies(z3.ULT(K, k), z3.And(g["which"] == K, g["taken"] == 1))), (f"K-th from {n} on", z3.Implies(z3.UGE(K, k), g["taken"] == 0))]
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, out_, 0, PT); ex.cover("built"); yield "ensures: the tensor of the coordinates and the values", TF(st.ghost["made"] and isinstance(p, Ptr) and p.o is ten)
    stubs = [wrap(r"\(mlio::Data_type\)0, ", wr), R(LV + r"reserve\(", nop), R(r"(.* )?" + LV + r"(emplace_back|push_back)(<.*>)?\(", emplace), R(LV + r"vector\(\)", nop), R(VU + r"vector\(std::vector<unsigned long, std::allocator<unsigned long> ?> const&\)", copy), R(r".*mlio::make_intrusive<mlio::Coo_tensor,", make)]
    return dict(name="Coo_tensor_builder::build_core", fn=fn, setup=setup, post=post, covers=["built"], cands=[cands], stubs=stubs + UP + S.stubs(), opts=dict(watch=[K], scale={S.C.id: 24, W.id: 8}), budget=60)
fixed8 = lambda e: bv(simp(e), 8)
def specs(u): return [spec_append, spec_discard, spec_core] + [f(d) for d in DT for f in (spec_values, spec_rows, spec_build)]
HARNESS = dict(file="P20.cc", srcs=lambda: build.core(), secs=5)
NOTE = "appending a row is proved for batches of every rank and rows of every length against the row-major position of the index (quotients and remainders by the strides of the attribute), with the watched dimension and position arbitrary; removing rows and building the tensor likewise. The class of values is proved for float32 and int64 (the instantiations differ in the element type only). Division is an opaque function with its defining laws. The oracle of the harness recomputes coordinates by row-major counting."
ASSUME = ["std::vector keeps its contract (size, emplace_back, resize, insert, element access)", "wrap_cpu_array and make_intrusive keep the object handed to them (their own contracts are P19)", "the rank, the number of values and of indices are below 2^43", "the strides of the attribute are the row-major strides of its shape (P22)"]
