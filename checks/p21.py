import re
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, words, vec_of, arr_of

SRCS = ["src/mlio/recordio_protobuf_reader.cc"]
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
fixed = lambda e: U(simp(e))
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
KINDS = {2: ("Float32Tensor", "float", 4), 3: ("Float64Tensor", "double", 8), 6: ("Int32Tensor", "int", 4)}
NV, NK, NSH = (z3.BitVec(n, 32) for n in ("number of values", "number of keys", "number of dimensions given"))
N, K, W, V, ROW, OFF, CAP, IDX = (z3.BitVec(n, 64) for n in ("rank", "K", "W", "values in a row", "row", "first value of the row", "size of the tensor", "attribute index"))     # K any dimension, W any position of the tensor
SHAPE, STRIDE, DIMS = (z3.Array(n, B64, B64) for n in ("shape", "strides", "dimensions given"))
DT, ERR, WARN, SP = z3.BitVec("attribute's type", 32), z3.BitVec("error on bad examples", 8), z3.BitVec("warn of bad instances", 8), z3.BitVec("attribute is sparse", 8)
LOG = [R(r"std::basic_string<char, .*>::(~)?basic_string\(", nop), R(r"mlio::Invalid_instance_error::", nop), R(r"mlio::Schema_error::", nop), R(r".*std::basic_string_view<.*>::basic_string_view\(char const\*\)", nop), R(r".*fmt::|_ZN3fmt", nop), R(r"strlen$|std::char_traits<char>::length", lambda ex, st, a, i: ex.fresh("length")), R(r"std::basic_string<char, .*>::operator std::basic_string_view", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("length"), Ptr(Obj("message text", None, True), 0)]))])]
EMPTY = lambda n: simp(z3.If(n == 0, BV(1, 8), BV(0, 8)))
class Feature:
    """a decoder at an attribute, and a feature of a record: its values, keys and dimensions"""
    def __init__(s, u, dt=2):
        s.u, s.dt = u, dt; s.msg_t, s.c_t, s.w = KINDS[dt]; d = lambda n: field(u, "Decoder", n); s.d = d
        s.this, s.state, s.reader, s.attr, s.inst, s.store, s.msg = Obj("this", d("__size__"), True), Obj("state", field(u, "Decoder_state", "__size__"), True), Obj("reader", None, True), Obj("attribute", field(u, "Attribute", "__size__"), True), Obj("instance", field(u, "Instance", "__size__"), True), Obj("data store", None, True), Obj("feature", None, True)
        s.S, s.T, s.D = Obj("shape data", U(N) * 8, True), Obj("stride data", U(N) * 8, True), Obj("dimension data", simp(z3.SignExt(32, NSH) * 8), True); s.vals, s.keys = Obj("values", simp(z3.SignExt(32, NV) * s.w), True), Obj("keys", simp(z3.SignExt(32, NK) * 8), True); s.data = Obj("tensor data", simp(U(CAP) * s.w), True); s.lists = {n: Obj(n + " field", 64, True) for n in ("values", "keys", "shape")}
        s.n = {"values": NV, "keys": NK, "shape": NSH}; s.el = {"values": s.vals, "keys": s.keys, "shape": s.D}; s.ew = {"values": s.w, "keys": 8, "shape": 8}; s.VALS, s.OLD = z3.Array("values", B64, z3.BitVecSort(8 * s.w)), z3.Array("tensor before", B64, z3.BitVecSort(8 * s.w))
    def init(s, ex, st):
        m = s.u.mods[0]; D = lambda n: field(s.u, "Decoder_state", n); A = lambda n: field(s.u, "Attribute", n)
        for o in [s.this, s.state, s.reader, s.attr, s.inst, s.store, s.msg, *s.lists.values()]: ex.objs[o.id] = o
        for o, a in ((s.S, SHAPE), (s.T, STRIDE), (s.D, DIMS)): words(ex, st, o, a)
        for o, a in ((s.vals, s.VALS), (s.data, s.OLD)): ex.objs[o.id] = o; w = ex.omw(st, o); w.mode, w.ew, w.arr, w.cells = "words", s.w, a, {}
        ex.objs[s.keys.id] = s.keys; ex.bounded(st, N, V, CAP, OFF); st.assume(z3.UGE(N, 2), *[z3.ULT(n, BV(1 << 31, 32)) for n in (NV, NK, NSH)]); vinit(ex, st, s.store, "Store")
        setvec(ex, st, Ptr(s.attr, A("shape_")), s.S, N); setvec(ex, st, Ptr(s.attr, A("strides_")), s.T, N); st.assume(z3.Select(STRIDE, BV(0, 64)) == V, z3.ULE(OFF, CAP), z3.ULE(V, CAP - OFF), z3.ULE(SP, 1), z3.ULE(WARN, 1), z3.ULE(ERR, 1))      # the row lies inside the tensor
        for o, f, v, t in ((s.this, s.d("state_"), Ptr(s.state, 0), PT), (s.this, s.d("instance_"), Ptr(s.inst, 0), PT), (s.this, s.d("attr_"), Ptr(s.attr, 0), PT), (s.this, s.d("row_idx_"), ROW, I64), (s.this, s.d("attr_idx_"), IDX, I64), (s.attr, A("data_type_"), DT, I32), (s.attr, A("sparse_"), SP, I8), (s.state, D("reader"), Ptr(s.reader, 0), PT), (s.state, D("warn_bad_instance"), WARN, I8), (s.state, D("error_bad_example"), ERR, I8)): ex.store(st, Ptr(o, f), v, t, m)
        st.ghost["warned"] = BV(0, 8); return Ptr(s.this, 0)
    def virtual(s): return dispatch({"Store": ["mlio::Data_store::?"] * 16}, {"Store": [(r".", lambda ex, st, a, i: Ptr(Obj("id", 32, True), 0))]})
    def stubs(s):
        RF = r"google::protobuf::RepeatedField<[^>]*>::"
        def of(p):
            for n, o in s.lists.items():
                if isinstance(p, Ptr) and p.o is o: return n
            raise ir.Unsupported("another list")
        def acc(n): return lambda ex, st, a, i: (ex.oblige(st, "requires: the feature", TF(a[0].o is s.msg)), Ptr(s.lists[n], 0))[1]
        def item(ex, st, a, i): n = of(a[0]); ex.oblige(st, f"safety:inside the list ({ex.where(st)})", z3.ULT(bv(a[1], 32), s.n[n])); return Ptr(s.el[n], simp(z3.SignExt(32, bv(a[1], 32)) * s.ew[n]))
        def span(ex, st, a, i): n = of(a[1]); ex.store(st, a[0], Ptr(s.el[n], 0), PT, s.u.mods[0]); ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), z3.SignExt(32, s.n[n]), I64, s.u.mods[0])
        def warn(ex, st, a, i): st.ghost["warned"] = bv(simp(z3.If(z3.UGE(st.ghost["warned"], 2), BV(2, 8), st.ghost["warned"] + 1)), 8)
        r = [R(rf"aialgs::data::\w+Tensor::{n}\(\)", acc(n)) for n in s.lists] + [R(rf"aialgs::data::\w+Tensor::{n}_size\(\)", lambda ex, st, a, i, n=n: s.n[n]) for n in s.lists]
        return r + [R(RF + r"empty\(\)", lambda ex, st, a, i: EMPTY(s.n[of(a[0])])), R(RF + r"size\(\)", lambda ex, st, a, i: s.n[of(a[0])]), R(RF + r"(c?begin|data)\(\)", lambda ex, st, a, i: Ptr(s.el[of(a[0])], 0)), R(RF + r"c?end\(\)", lambda ex, st, a, i: Ptr(s.el[of(a[0])], simp(z3.SignExt(32, s.n[of(a[0])]) * s.ew[of(a[0])]))), R(RF + r"(Get|operator\[\]|at)\(", item), R(r"mlio::stdx::span<.*>::span<google::protobuf::RepeatedField", span), R(r"(void )?mlio::logger::", warn),
                    R(r"mlio::Instance::data_store\(\)", lambda ex, st, a, i: Ptr(s.store, 0)), R(r"mlio::Instance::index\(\)", lambda ex, st, a, i: ex.fresh("index"))] + LOG
    def bad(s, ex, st, out, why, mine=True):
        """a feature that does not fit: an error, or refused, as asked for, and logged as asked for"""
        g = st.ghost
        if out[0] == "throw": ex.cover("error"); yield "ensures: an error only for a reason and if asked for", z3.And(TF(is_exc(out, "Invalid_instance_error")), ERR == 1, why); no = z3.BoolVal(True)
        else: ok = bo(asbool(out[1])); no = z3.Not(ok); yield "ensures: refused for a reason only, and every reason counts", no == why; yield "ensures: refused silently only if asked for", z3.Implies(no, ERR == 0)
        if mine: yield "ensures: reported as asked for", g["warned"] == z3.If(z3.And(no, WARN == 1), BV(1, 8), BV(0, 8))
    def opts(s, **k): return dict(virtual=s.virtual(), scale={s.S.id: 8, s.T.id: 8, s.D.id: 8, s.vals.id: s.w, s.keys.id: 8, s.data.id: s.w}, **k)
CLS = r".*mlio::Recordio_protobuf_reader::Decoder::"
def fn_of(f, dt, tmpl=True): return CLS + f + (rf"<\(mlio::Data_type\){dt}, aialgs::data::{KINDS[dt][0]}>\(" if tmpl else rf"<aialgs::data::{KINDS[dt][0]}>\(")
def spec_sparse(dt):
    def spec(u):
        F = Feature(u, dt); fn = fn_of("is_sparse", dt, False)
        def setup(ex, st): return args_of(u, fn, {"this": F.init(ex, st), "tensor": Ptr(F.msg, 0)})
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bo(asbool(out[1])); ex.cover("sparse", z3.And(r, NK == 0)); ex.cover("dense", z3.Not(r)); yield "ensures: sparse with keys, and with a shape but no values", r == z3.Or(NK != 0, z3.And(NV == 0, NSH != 0))
        return dict(name=f"Decoder::is_sparse<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["sparse", "dense"], stubs=F.stubs(), opts=F.opts(), budget=30)
    spec.__name__ = f"spec_sparse_{dt}"; return spec
def spec_shape(dt):
    def spec(u):
        F = Feature(u, dt); fn = fn_of("shape_equals", dt, False)
        def setup(ex, st): t = F.init(ex, st); st.ghost["at"] = BV(0, 64); return args_of(u, fn, {"this": t, "tensor": Ptr(F.msg, 0)})
        def hook(ex, st, o, off, n):
            if o is F.D: st.ghost["at"] = z3.LShR(U(off), BV(3, 64))
        def cands(sn):
            r = [("same number of dimensions", z3.SignExt(32, NSH) == N - 1)]; ps = []
            for n, q in sn.ptrs.items():
                k = quot(simp(q.f), 8) if q.o in (F.S, F.D) else None
                if k is not None: ps.append((n, U(k) - 1 if q.o is F.S else U(k)))
            ps += [(n, U(v)) for n, (v, w) in sn.ints.items() if w == 64]
            for n, k in ps: r += [(f"{n} a dimension", z3.ULE(k, N - 1)), (f"equal before {n}", z3.Implies(z3.ULT(K, k), z3.Select(DIMS, K) == z3.Select(SHAPE, K + 1)))] + [(f"{n} with {m}", k == l) for m, l in ps if m < n]
            return r
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bo(asbool(out[1])); g = st.ghost; n = z3.SignExt(32, NSH); ex.cover("same", z3.And(r, NSH == 3)); ex.cover("vector", z3.And(r, NSH == 0)); ex.cover("other", z3.And(z3.Not(r), n == N - 1))
            yield "ensures: without shape the values are a vector of the length", z3.Implies(NSH == 0, r == z3.And(N == 2, z3.Select(SHAPE, BV(1, 64)) == z3.SignExt(32, NV))); yield "ensures: the same dimensions behind the batch", z3.Implies(z3.And(NSH != 0, r), z3.And(n == N - 1, z3.Implies(z3.ULT(K, n), z3.Select(DIMS, K) == z3.Select(SHAPE, K + 1))))
            yield "ensures: refused only for another dimension", z3.Implies(z3.And(NSH != 0, z3.Not(r)), z3.Or(n != N - 1, z3.And(z3.ULT(g["at"], n), z3.Select(DIMS, g["at"]) != z3.Select(SHAPE, g["at"] + 1))))
        return dict(name=f"Decoder::shape_equals<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["same", "vector", "other"], cands=[cands], on_load=[hook], stubs=F.stubs(), opts=F.opts(watch=[K]), budget=60)
    spec.__name__ = f"spec_shape_{dt}"; return spec
def spec_copy(dt):
    def spec(u):
        F = Feature(u, dt); fn = fn_of("copy_to_tensor", dt); tl, tensor = Obj("tensor list", None, True), Obj("tensor", None, True); D = lambda n: field(u, "Decoder_state", n)
        def setup(ex, st):
            t = F.init(ex, st)
            for o in (tl, tensor): ex.objs[o.id] = o
            st.assume(DT == dt, OFF == umul(ROW, V), umul(ROW, V) == umul(V, ROW)); return args_of(u, fn, {"this": t, "tensor": Ptr(F.msg, 0)})
        def at(ex, st, a, i):
            if a[0].o is F.state and eqc(simp(a[0].f), D("tensors")): ex.oblige(st, "requires: the tensor of the attribute", U(a[1]) == IDX); return Ptr(tl, 0)
            b = cell(ex, st, a[0].o, a[0].f, PT); e = cell(ex, st, a[0].o, add(a[0].f, 8), PT); ex.oblige(st, f"safety:element inside the vector ({ex.where(st)})", z3.ULT(U(a[1]), z3.LShR(U(e.f) - U(b.f), BV(3, 64)))); return Ptr(b.o, simp(U(b.f) + U(a[1]) * 8))
        def as_(ex, st, a, i):
            ok = re.search(rf"::as<{F.c_t}>\(", dem(i.x[0].v)) if hasattr(i, "x") else None
            ex.oblige(st, "requires: elements of the attribute's type", TF(ok)); return [(st, ("ret", [Ptr(F.data, 0), CAP]))]
        def copy_n(ex, st, a, i):
            src = a[0] if isinstance(a[0], Ptr) else None; ex.oblige(st, "requires: not less than none", bv(a[1], 64) >= 0); ex.memcpy(st, a[2], src, simp(U(a[1]) * F.w)); return Ptr(a[2].o, simp(U(a[2].f) + U(a[1]) * F.w))
        def copy(ex, st, a, i): ex.memcpy(st, a[2], a[0], simp(U(a[1].f) - U(a[0].f))); return Ptr(a[2].o, simp(U(a[2].f) + U(a[1].f) - U(a[0].f)))
        def post(ex, st, out):
            yield from F.bad(ex, st, out, z3.SignExt(32, NV) != V); new = z3.Select(arr_of(ex, st, F.data), W); old = z3.Select(F.OLD, W); ok = bo(asbool(out[1])) if out[0] != "throw" else z3.BoolVal(False); inside = z3.And(z3.ULE(OFF, W), z3.ULT(W - OFF, V))
            if out[0] != "throw": ex.cover("copied", z3.And(ok, V == 3)); ex.cover("refused", z3.Not(ok))
            yield "ensures: the row holds the values in their order", z3.Implies(z3.And(ok, inside), new == z3.Select(F.VALS, W - OFF)); yield "frame: nothing else of the tensor changes", z3.Implies(z3.And(z3.ULT(W, CAP), z3.Not(z3.And(ok, inside))), new == old)
        V_ = r"std::vector<.*>::operator\[\]\("
        def cands(sn):
            r = [("right number", z3.SignExt(32, NV) == V)]; new = z3.Select(arr_of(sn.ex, sn.st, F.data), W)
            ks = [(n, U(quot(simp(q.f), F.w))) for n, q in sn.ptrs.items() if q.o is F.vals and quot(simp(q.f), F.w) is not None] + [(n, U(quot(simp(q.f), F.w)) - OFF) for n, q in sn.ptrs.items() if q.o is F.data and quot(simp(q.f), F.w) is not None] + [(n, U(v)) for n, (v, w) in sn.ints.items() if w == 64] + [(n, z3.SignExt(32, bv(v, 32))) for n, (v, w) in sn.ints.items() if w == 32]
            for n, k in ks: r += [(f"{n} at most all", z3.ULE(k, V)), (f"copied before {n}", new == z3.If(z3.And(z3.ULE(OFF, W), z3.ULT(W - OFF, k)), z3.Select(F.VALS, W - OFF), z3.Select(F.OLD, W)))] + [(f"{n} with {m}", k == l) for m, l in ks if m < n]
            return r
        stubs = [R(V_, at), R(r"mlio::Dense_tensor::data\(\)", lambda ex, st, a, i: (ex.oblige(st, "requires: the tensor of the attribute", TF(a[0].o is tensor)), Ptr(F.data, 0))[1]), R(r".*mlio::Basic_device_array_span<mlio::Device_array>::as<", as_), R(r"mlio::Intrusive_ptr<mlio::Tensor>::operator(\*|->)\(\)|mlio::Intrusive_ptr<mlio::Tensor>::get\(", lambda ex, st, a, i: (ex.oblige(st, "requires: an element of the tensors", TF(a[0].o is tl)), Ptr(tensor, 0))[1]), R(r".*std::copy_n<", copy_n), R(r".*std::copy<", copy)]
        return dict(name=f"Decoder::copy_to_tensor<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["copied", "refused", "error"], cands=[cands], stubs=stubs + F.stubs(), opts=F.opts(watch=[W], opaque_mul=True), budget=60)
    spec.__name__ = f"spec_copy_{dt}"; return spec
GOODK = z3.Bool("keys are valid")
def spec_append(dt):
    def spec(u):
        F = Feature(u, dt); fn = fn_of("append_to_builder", dt); bl, builder = Obj("builder list", None, True), Obj("builder", None, True); D = lambda n: field(u, "Decoder_state", n)
        def setup(ex, st):
            t = F.init(ex, st); st.ghost["given"] = BV(0, 8); st.assume(DT == dt)
            for o in (bl, builder): ex.objs[o.id] = o
            return args_of(u, fn, {"this": t, "tensor": Ptr(F.msg, 0)})
        def at(ex, st, a, i): ex.oblige(st, "requires: the builder of the attribute", z3.And(TF(a[0].o is F.state and eqc(simp(a[0].f), D("coo_tensor_builders"))), U(a[1]) == IDX)); return Ptr(bl, 0)
        def append(ex, st, a, i):
            ok = [TF(a[0].o is builder and isinstance(a[1], Ptr) and a[1].o is F.vals and isinstance(a[3], Ptr) and a[3].o is F.keys)]
            if z3.is_true(z3.simplify(ok[0])): ok += [U(a[1].f) == 0, U(a[3].f) == 0, U(a[2]) == z3.SignExt(32, NV), U(a[4]) == z3.SignExt(32, NK)]
            ex.oblige(st, "requires: the values and the keys of the feature", z3.And(*ok)); ex.oblige(st, "requires: a key for every value", NV == NK); ex.oblige(st, "requires: the builder of the type", TF(re.search(rf"Coo_tensor_builder_impl<\(mlio::Data_type\){dt}>", dem(i.x[0].v)))); st.ghost["given"] = bv(simp(st.ghost["given"] + 1), 8); return simp(z3.If(GOODK, BV(1, 8), BV(0, 8)))
        def post(ex, st, out):
            g = st.ghost; yield from F.bad(ex, st, out, z3.Or(NV != NK, z3.Not(GOODK))); yield "ensures: appended once, or not at all", g["given"] == z3.If(NV == NK, BV(1, 8), BV(0, 8))
            if out[0] != "throw": ok = bo(asbool(out[1])); ex.cover("appended", ok); ex.cover("bad key", z3.And(z3.Not(ok), NV == NK)); ex.cover("odd keys", z3.And(z3.Not(ok), NV != NK))
        stubs = [R(r"std::vector<.*>::operator\[\]\(", at), R(r"std::unique_ptr<.*>::(operator(\*|->)\(\)|get\()", lambda ex, st, a, i: (ex.oblige(st, "requires: an element of the builders", TF(a[0].o is bl)), Ptr(builder, 0))[1]), R(r".*mlio::detail::Coo_tensor_builder_impl<.*>::append\(", append)]
        return dict(name=f"Decoder::append_to_builder<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["appended", "bad key", "odd keys", "error"], stubs=stubs + F.stubs(), opts=F.opts(), budget=60)
    spec.__name__ = f"spec_append_{dt}"; return spec
SPF, SAME, TAKEN = z3.Bool("feature is sparse"), z3.Bool("shapes are equal"), z3.Bool("values are taken")
def spec_feature(dt):
    def spec(u):
        F = Feature(u, dt); fn = fn_of("decode_feature", dt)
        def setup(ex, st): t = F.init(ex, st); st.ghost.update(copied=BV(0, 8), appended=BV(0, 8), inner=False); return args_of(u, fn, {"this": t, "tensor": Ptr(F.msg, 0)})
        def ask(c):
            def h(ex, st, a, i): ex.oblige(st, "requires: this feature", TF(a[0].o is F.this and a[1].o is F.msg)); return simp(z3.If(c, BV(1, 8), BV(0, 8)))
            return h
        def take(n):
            def h(ex, st, a, i):
                ex.oblige(st, "requires: a feature of the attribute's type, kind and shape", z3.And(TF(a[0].o is F.this and a[1].o is F.msg), DT == dt, (SP == 1) == SPF, SAME)); ex.oblige(st, "requires: sparse features are appended, dense ones copied", (SP == 1) if n == "appended" else SP == 0); ex.oblige(st, "requires: of the attribute's type", TF(re.search(rf"<\(mlio::Data_type\){dt},", dem(i.x[0].v)))); st.ghost[n] = bv(simp(st.ghost[n] + 1), 8)
                ok, no, er = fork(st, TAKEN, z3.And(z3.Not(TAKEN), ERR == 0), z3.And(z3.Not(TAKEN), ERR == 1))
                for x in (no, er): x.ghost["inner"] = True
                return [(ok, ("ret", 1)), (no, ("ret", 0)), (er, ("throw", Thrown("_ZTIN4mlio6abi_v122Invalid_instance_errorE")))]
            return h
        fits = z3.And(DT == dt, (SP == 1) == SPF, SAME)
        def post(ex, st, out):
            g = st.ghost; yield from F.bad(ex, st, out, z3.Not(z3.And(fits, TAKEN)), mine=not g["inner"])
            if out[0] != "throw": ok = bo(asbool(out[1])); ex.cover("taken", ok); ex.cover("type", z3.And(z3.Not(ok), DT != dt)); ex.cover("shape", z3.And(z3.Not(ok), DT == dt, (SP == 1) == SPF, z3.Not(SAME)))
            yield "ensures: the values are taken once", g["copied"] + g["appended"] == z3.If(fits, BV(1, 8), BV(0, 8))
        stubs = [R(CLS + r"is_sparse<", ask(SPF)), R(CLS + r"shape_equals<", ask(SAME)), R(CLS + r"copy_to_tensor<", take("copied")), R(CLS + r"append_to_builder<", take("appended"))]
        return dict(name=f"Decoder::decode_feature<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["taken", "type", "shape", "error"], stubs=stubs + F.stubs(), opts=F.opts(), budget=60)
    spec.__name__ = f"spec_feature_{dt}"; return spec

THROW = lambda x: (x, ("throw", Thrown("_ZTIN4mlio6abi_v122Invalid_instance_errorE")))
CASE, KA, S = z3.BitVec("kind of the value", 32), z3.BitVec("A", 64), z3.BitVec("number of attributes", 64)      # A any attribute
FOUND = z3.Bool("attribute exists")
CASES = {2: 2, 3: 3, 7: 6}      # of the message definition: float32_tensor = 2, float64_tensor = 3, int32_tensor = 7
def outcomes(ex, st, c, **bad):
    """of a part that reports itself: taken, refused, or an error, as asked for"""
    ok, no, er = fork(st, c, z3.And(z3.Not(c), ERR == 0), z3.And(z3.Not(c), ERR == 1))
    for x in (no, er): x.ghost.update(inner=True, **bad)
    return [(ok, ("ret", 1)), (no, ("ret", 0)), THROW(er)]
def spec_dispatch(u):
    F = Feature(u); fn = CLS + r"decode_feature\("; val, name, sch, attrs = Obj("value", None, True), Obj("name", 32, True), Obj("schema", None, True), Obj("attributes", simp(U(S) * field(u, "Attribute", "__size__")), True); TS = field(u, "Attribute", "__size__"); m = u.mods[0]; avec = Obj("attribute vector", 24, True)
    def setup(ex, st):
        t = F.init(ex, st); st.ghost.update(done=BV(0, 8), inner=False)
        for o in (val, name, sch, attrs, avec): ex.objs[o.id] = o
        ex.bounded(st, S); e = simp(U(S) * TS); st.assume(z3.Implies(FOUND, z3.ULT(IDX, S)))
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(avec, k), Ptr(attrs, v), PT, m)
        return args_of(u, fn, {"this": t, "name": Ptr(name, 0), "value": Ptr(val, 0)})
    def index(ex, st, a, i): ex.oblige(st, "requires: the feature's name is looked up", TF(a[0].o is sch and a[1].o is name)); return [(st, ("ret", [IDX, simp(z3.If(FOUND, BV(1, 8), BV(0, 8)))]))]
    def part(dt): return lambda ex, st, a, i: (ex.oblige(st, "requires: the value's own kind", z3.And(TF(a[0].o is val), z3.Or(*[CASE == c for c, d in CASES.items() if d == dt]))), Ptr(F.msg, dt))[1]
    def take(ex, st, a, i):
        dt = int(re.search(r"<\(mlio::Data_type\)(\d+),", dem(i.x[0].v)).group(1)); p = cell(ex, st, F.this, F.d("attr_"), PT); k = quot(simp(p.f), TS) if isinstance(p, Ptr) and p.o is attrs else None
        ex.oblige(st, "requires: the value as its kind", z3.And(TF(a[0].o is F.this and isinstance(a[1], Ptr) and a[1].o is F.msg and eqc(simp(a[1].f), dt)))); ex.oblige(st, "requires: of the attribute with the name", z3.And(FOUND, U(cell(ex, st, F.this, F.d("attr_idx_"), I64)) == IDX, U(k) == IDX) if k is not None else False); st.ghost["done"] = bv(simp(st.ghost["done"] + 1), 8); return outcomes(ex, st, TAKEN)
    known = z3.Or(*[CASE == c for c in CASES])
    def post(ex, st, out):
        g = st.ghost; yield from F.bad(ex, st, out, z3.Not(z3.And(FOUND, known, TAKEN)), mine=not g["inner"]); yield "ensures: decoded once", g["done"] == z3.If(z3.And(FOUND, known), BV(1, 8), BV(0, 8))
        if out[0] != "throw": ok = bo(asbool(out[1])); ex.cover("taken", ok); ex.cover("unknown", z3.And(z3.Not(ok), z3.Not(FOUND))); ex.cover("kind", z3.And(z3.Not(ok), FOUND, z3.Not(known)))
    stubs = [R(r"mlio::Parallel_data_reader::schema\(", lambda ex, st, a, i: ex.store(st, a[0], Ptr(sch, 0), PT, m)), R(r"mlio::Schema::get_index\(", index), R(r"mlio::Schema::attributes\(", lambda ex, st, a, i: Ptr(avec, 0)), R(r"aialgs::data::Value::value_case\(", lambda ex, st, a, i: CASE), R(r"aialgs::data::Value::float32_tensor\(", part(2)), R(r"aialgs::data::Value::float64_tensor\(", part(3)), R(r"aialgs::data::Value::int32_tensor\(", part(6)), R(CLS + r"decode_feature<", take), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop), R(r"mlio::Attribute::name", lambda ex, st, a, i: Ptr(name, 0))]
    return dict(name="Decoder::decode_feature", fn=fn, setup=setup, post=post, covers=["taken", "unknown", "kind", "error"], stubs=stubs + F.stubs(), opts=dict(virtual=F.virtual(), scale={attrs.id: TS}), budget=60)
# ---- a record
NL, NF, KL, KF = (z3.BitVec(n, 64) for n in ("number of labels", "number of features", "L", "F"))       # L any label, F any feature
PARSED = z3.Bool("record is well-formed"); PREF, HASL, TL, TF_ = (z3.Function(n, B64, z3.BoolSort()) for n in ("name starts with label_", "rest of the name is a label", "label is taken", "feature is taken"))
def literal(ex, st, p, s): return all(eqc(ex.load(st, Ptr(p.o, add(p.f, k)), I8), c) for k, c in enumerate(s.encode() + b"\0"))
class Maps:
    """the labels and features of a record: maps whose entries come one after another; the strings made from their names"""
    def __init__(s, u):
        k = next(k for k in u.lay if k.startswith("MapPair<")); s.E, s.SEC, s.m = field(u, k, "__size__"), field(u, k, "second"), u.mods[0]; s.rec, s.maps, s.size = Obj("record", None, True), {n: Obj(n + " map", None, True) for n in "lf"}, {"l": NL, "f": NF}; s.ent = {"l": Obj("labels", simp(U(NL) * s.E), True), "f": Obj("features", simp(U(NF) * s.E), True)}; s.tag = {n: Obj(n + " strings", None, True) for n in ("label_", "rest")}
    def init(s, ex, st):
        for o in [s.rec, *s.maps.values(), *s.ent.values(), *s.tag.values()]: ex.objs[o.id] = o
        ex.bounded(st, NL, NF); st.assume(z3.ULT(NL, BV(1 << 31, 64)), z3.ULT(NF, BV(1 << 31, 64)))
    def entry(s, p, off=0):
        for n, o in s.ent.items():
            if isinstance(p, Ptr) and p.o is o and quot(simp(U(p.f) - off), s.E) is not None: return n, U(quot(simp(U(p.f) - off), s.E))
        return None
    def made(s, ex, st, p):
        """a string made from the name of an entry: how, and of which one"""
        if not isinstance(p, Ptr) or s.entry(p) is not None: return None
        q = ex.load(st, p, PT)
        for n, o in s.tag.items():
            if isinstance(q, Ptr) and q.o is o and quot(simp(q.f), s.E) is not None: return n, U(quot(simp(q.f), s.E))
        return None
    def which(s, p):
        for n, o in s.maps.items():
            if isinstance(p, Ptr) and p.o is o: return n
        raise ir.Unsupported("another map")
    def named(s, ex, st, w, k, p):
        n, e = s.made(ex, st, p), s.entry(p)
        if w == "l": ex.oblige(st, "requires: a label under its prefixed name", z3.And(TF(n[0] == "label_"), n[1] == k) if n is not None else False)
        else: ex.oblige(st, "requires: a feature under its name", z3.And(TF(e[0] == "f"), e[1] == k) if e is not None else False)
    def stubs(s):
        E, m = s.E, s.m
        def at(end): return lambda ex, st, a, i: ex.store(st, a[0], Ptr(s.ent[s.which(a[1])], simp(U(s.size[s.which(a[1])]) * E) if end else 0), PT, m)
        def cmp(eq):
            def h(ex, st, a, i): c = bo(asbool(ex.icmp(st, "eq", ex.load(st, a[0], PT), ex.load(st, a[1], PT), PT))); return simp(z3.If(c if eq else z3.Not(c), BV(1, 8), BV(0, 8)))
            return h
        def step(ex, st, a, i): p = ex.load(st, a[0], PT); n, k = s.entry(p); ex.oblige(st, "safety: not behind the last entry", z3.ULT(k, s.size[n])); ex.store(st, a[0], Ptr(p.o, simp(U(p.f) + E)), PT, m); return a[0]
        def deref(ex, st, a, i): p = ex.load(st, a[0], PT); n, k = s.entry(p); ex.oblige(st, "safety: an entry of the map", z3.ULT(k, s.size[n])); return p
        def plus(ex, st, a, i): e = s.entry(a[2]); ex.oblige(st, "requires: the prefix of labels before a name", TF(e is not None and isinstance(a[1], Ptr) and literal(ex, st, a[1], "label_"))); ex.store(st, a[0], Ptr(s.tag["label_"], simp(e[1] * E)) if e is not None and e[0] == "l" else NULL, PT, m)
        MAP, IT = r"google::protobuf::Map<.*>::", r"google::protobuf::Map<.*>::const_iterator::"
        return [R(r"aialgs::data::Record::label(\[abi:cxx11\])?\(", lambda ex, st, a, i: Ptr(s.maps["l"], 0)), R(r"aialgs::data::Record::features(\[abi:cxx11\])?\(", lambda ex, st, a, i: Ptr(s.maps["f"], 0)), R(r"aialgs::data::Record::label_size\(", lambda ex, st, a, i: z3.Extract(31, 0, NL)), R(r"aialgs::data::Record::features_size\(", lambda ex, st, a, i: z3.Extract(31, 0, NF)), R(IT + r"operator(\*|->)\(\)", deref), R(IT + r"operator\+\+\(\)", step), R(r"google::protobuf::operator!=\(", cmp(False)), R(r"google::protobuf::operator==\(", cmp(True)), R(MAP + r"c?begin\(\)", at(False)), R(MAP + r"c?end\(\)", at(True)), R(MAP + r"size\(\)", lambda ex, st, a, i: s.size[s.which(a[0])]), R(r".*std::operator\+<char", plus)]
def spec_record(u):
    F = Feature(u); fn = CLS + r"decode\("; M = Maps(u); E, SEC, rec, ent, size, entry, made = M.E, M.SEC, M.rec, M.ent, M.size, M.entry, M.made; m = u.mods[0]; sch, avec, attrs = Obj("schema", None, True), Obj("attribute vector", 24, True), Obj("attributes", simp(U(S) * field(u, "Attribute", "__size__")), True)
    def setup(ex, st):
        F.init(ex, st); TS = field(u, "Attribute", "__size__")
        M.init(ex, st)
        for o in [sch, avec, attrs]: ex.objs[o.id] = o
        ex.bounded(st, S); e = simp(U(S) * TS)
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(avec, k), Ptr(attrs, v), PT, m)
        st.ghost.update(l=BV(0, 64), f=BV(0, 64), inner=False, refused=BV(0, 8), dup=BV(0, 8)); ex.store(st, Ptr(F.this, F.d("instance_")), NULL, PT, m); ex.store(st, Ptr(F.this, F.d("row_idx_")), BV(77, 64), I64, m); return args_of(u, fn, {"this": Ptr(F.this, 0), "row_idx": ROW, "instance": Ptr(F.inst, 0)})
    def parse(ex, st, a, i):
        ex.oblige(st, "requires: the instance of the row, once", TF(a[0].o is F.this and a[1].o is F.inst)); p = cell(ex, st, F.this, F.d("instance_"), PT); ex.oblige(st, "requires: the instance is known to the decoder", TF(isinstance(p, Ptr) and p.o is F.inst)); ok, no, er = fork(st, PARSED, z3.And(z3.Not(PARSED), ERR == 0), z3.And(z3.Not(PARSED), ERR == 1))
        for x in (no, er): x.ghost["inner"] = True
        return [(ok, ("ret", Ptr(rec, 0))), (no, ("ret", NULL)), THROW(er)]
    def sub(ex, st, a, i): e = entry(a[1]); ex.oblige(st, "requires: the name behind the prefix", z3.And(TF(e is not None), U(a[2]) == 6, z3.UGE(U(a[3]), BV(1 << 40, 64)))); ex.store(st, a[0], Ptr(M.tag["rest"], simp(e[1] * E)) if e is not None and e[0] == "f" else NULL, PT, m)
    def compare(ex, st, a, i):
        e = entry(a[0]); ex.oblige(st, "requires: the name's start against the prefix", z3.And(TF(e is not None and e[0] == "f" and literal(ex, st, a[3], "label_")), U(a[1]) == 0, U(a[2]) == 6)); r = ex.fresh("comparison", 32); st.assume((r == 0) == PREF(e[1])); return r
    def find(ex, st, a, i):
        n = made(ex, st, a[2]); w = M.which(a[1]); ex.oblige(st, "requires: the rest of the name is looked for in the labels", TF(n is not None and n[0] == "rest" and w == "l"))
        if n is None: return
        k = n[1]; st.assume(z3.Implies(HASL(k), NL != 0)); at_ = ex.fresh("entry"); st.assume(z3.ULT(at_, NL) == HASL(k), z3.ULE(at_, NL)); ex.store(st, a[0], Ptr(ent["l"], simp(at_ * E)), PT, m)
    def take(ex, st, a, i):
        g = st.ghost; v = entry(a[2], SEC)
        if v is None: ex.oblige(st, "requires: the value of an entry", False); return ex.fresh("taken", 8)
        w, k = v; p = cell(ex, st, F.this, F.d("instance_"), PT); ex.oblige(st, "requires: the row and the instance are known to the decoder", z3.And(TF(isinstance(p, Ptr) and p.o is F.inst), U(cell(ex, st, F.this, F.d("row_idx_"), I64)) == ROW))
        M.named(ex, st, w, k, a[1])
        if w == "f": ex.oblige(st, "requires: no second value of a label's attribute", z3.Not(z3.And(PREF(k), HASL(k))))
        ex.oblige(st, "requires: the entries one after another", z3.And(k == g[w], z3.ULT(k, size[w]))); g[w] = fixed(k + 1); c = (TL if w == "l" else TF_)(k); g["refused"] = bv(simp(z3.If(c, g["refused"], BV(1, 8))), 8); return outcomes(ex, st, c)
    def cands(sn):
        g = sn.st.ghost; l, f = g["l"], g["f"]; r = [("none refused", g["refused"] == 0), ("labels read", z3.ULE(l, NL)), ("features read", z3.ULE(f, NF)), ("all labels", l == NL), ("no features yet", f == 0), ("labels before are taken", z3.Implies(z3.ULT(KL, l), TL(KL))), ("features before are taken", z3.Implies(z3.ULT(KF, f), z3.And(TF_(KF), z3.Not(z3.And(PREF(KF), HASL(KF))))))]
        for n, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{n} read", U(v) == l + f), (f"{n} labels", U(v) == l), (f"{n} features", U(v) == f)]
        for n, q in sn.ptrs.items():
            e = entry(q)
            if e is not None: r.append((f"{n} next", e[1] == g[e[0]]))
        return r
    def post(ex, st, out):
        g = st.ghost; k = g["f"]; dup = z3.And(z3.ULT(k, NF), PREF(k), HASL(k)); all_ = z3.And(g["l"] == NL, g["f"] == NF, g["refused"] == 0)
        why = z3.Or(z3.Not(PARSED), g["refused"] == 1, dup, z3.And(all_, NL + NF != S))
        if out[0] == "throw": ex.cover("error"); yield "ensures: an error only for a reason and if asked for", z3.And(TF(is_exc(out, "Invalid_instance_error")), ERR == 1, why); no = z3.BoolVal(True)
        else:
            ok = bo(asbool(out[1])); no = z3.Not(ok); ex.cover("good", z3.And(ok, NL == 1, NF == 2)); ex.cover("corrupt", z3.And(no, z3.Not(PARSED))); ex.cover("count", z3.And(no, all_)); ex.cover("second value", z3.And(no, dup, g["refused"] == 0))
            yield "ensures: refused for a reason only, and silently only if asked for", z3.Implies(no, z3.And(why, ERR == 0)); yield "ensures: a good record has just one value for every attribute, all taken", z3.Implies(ok, z3.And(PARSED, all_, NL + NF == S)); yield "ensures: every label of a good record is taken", z3.Implies(z3.And(ok, z3.ULT(KL, NL)), TL(KL)); yield "ensures: every feature of a good record is taken, none twice", z3.Implies(z3.And(ok, z3.ULT(KF, NF)), z3.And(TF_(KF), z3.Not(z3.And(PREF(KF), HASL(KF)))))
        if not g["inner"]: yield "ensures: reported as asked for", g["warned"] == z3.If(z3.And(no, WARN == 1), BV(1, 8), BV(0, 8))
    stubs = [R(CLS + r"parse_proto\(", parse), R(r".*google::protobuf::Map<.*>::find<?", find), R(r"std::basic_string<char, .*>::substr\(", sub), R(r"std::basic_string<char, .*>::compare\(", compare), R(CLS + r"decode_feature\(", take), R(r"mlio::Parallel_data_reader::schema\(", lambda ex, st, a, i: ex.store(st, a[0], Ptr(sch, 0), PT, m)), R(r"mlio::Schema::attributes\(", lambda ex, st, a, i: Ptr(avec, 0)), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop)] + M.stubs()
    sc = {ent["l"].id: E, ent["f"].id: E, attrs.id: field(u, "Attribute", "__size__")}
    return dict(name="Decoder::decode", fn=fn, setup=setup, post=post, covers=["good", "corrupt", "count", "second value", "error"], cands=[cands], stubs=stubs + F.stubs(), opts=dict(virtual=F.virtual(), watch=[KL, KF], scale=sc), budget=120)
def spec_parse(u):
    F = Feature(u); fn = CLS + r"parse_proto\("; rec = Obj("record", None, True)
    def setup(ex, st): t = F.init(ex, st); ex.objs[rec.id] = rec; return args_of(u, fn, {"this": t, "instance": Ptr(F.inst, 0)})
    def parse(ex, st, a, i): ex.oblige(st, "requires: the instance", TF(a[0].o is F.inst)); y, n = fork(st, PARSED, z3.Not(PARSED)); return [(y, ("ret", Ptr(rec, 0))), (n, ("ret", NULL))]
    def post(ex, st, out):
        if out[0] == "throw": ex.cover("error"); yield "ensures: an error only if asked for", z3.And(TF(is_exc(out, "Invalid_instance_error")), ERR == 1, z3.Not(PARSED)); no = z3.BoolVal(True)
        else: p = out[1]; got = isinstance(p, Ptr) and p.o is rec; no = z3.Not(PARSED); ex.cover("parsed", PARSED); ex.cover("corrupt", no); yield "ensures: the record if it is well-formed", TF(got) == PARSED; yield "ensures: refused silently only if asked for", z3.Implies(no, ERR == 0)
        yield "ensures: reported as asked for", st.ghost["warned"] == z3.If(z3.And(no, WARN == 1), BV(1, 8), BV(0, 8))
    return dict(name="Decoder::parse_proto", fn=fn, setup=setup, post=post, covers=["parsed", "corrupt", "error"], stubs=[R(r"mlio::Recordio_protobuf_reader::parse_proto\(", parse)] + F.stubs(), opts=F.opts(), budget=30)
# ---- the rows of a batch
NI, SIZE, J, KT = (z3.BitVec(n, 64) for n in ("number of instances", "batch size", "J", "T")); BAD = z3.BitVec("bad example handling", 32)     # J any instance, T any tensor
OK = z3.Function("instance is good", B64, z3.BoolSort()); GOOD = z3.Function("good instances before", B64, B64)
def good(i): return [GOOD(i + 1) == GOOD(i) + z3.If(OK(i), BV(1, 64), BV(0, 64)), z3.ULE(GOOD(i), i), z3.Implies(z3.ULT(i, NI), z3.And(z3.ULE(GOOD(i + 1), GOOD(NI)), z3.ULE(GOOD(NI) - GOOD(i + 1), NI - i - 1)))]      # definition of GOOD and that it grows by at most one
PAD = z3.Or(BAD == 3, BAD == 4); SKIP = z3.Or(BAD == 1, BAD == 2)
class Batch:
    def __init__(s, u):
        s.u = u; s.w = field(u, "Instance", "__size__"); s.batch, s.inst, s.params, s.state, s.reader = Obj("batch", field(u, "Instance_batch", "__size__"), True), Obj("instances", simp(U(NI) * s.w), True), Obj("parameters", field(u, "Data_reader_params", "__size__"), True), Obj("state", field(u, "Decoder_state", "__size__"), True), Obj("reader", field(u, "Recordio_protobuf_reader", "__size__"), True)
    def init(s, ex, st):
        m = s.u.mods[0]
        for o in (s.batch, s.inst, s.params, s.state, s.reader): ex.objs[o.id] = o
        ex.bounded(st, NI, SIZE); e = simp(U(NI) * s.w); o = field(s.u, "Instance_batch", "instances_"); st.assume(GOOD(BV(0, 64)) == 0, *good(J), z3.ULE(NI, SIZE))
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(s.batch, o + k), Ptr(s.inst, v), PT, m)
        ex.store(st, Ptr(s.params, field(s.u, "Data_reader_params", "bad_example_handling")), BAD, I32, m); ex.store(st, Ptr(s.state, field(s.u, "Decoder_state", "reader")), Ptr(s.reader, 0), PT, m); st.ghost.update(n=BV(0, 64), bad=BV(0, 8), at=BV(-1, 64), dirty=BV(0, 8))
    def row(s, first=False):
        def h(ex, st, a, i):
            """contract of Decoder::decode (above): a good instance or not; it is an error in that mode only; a bad one may leave values behind in its row"""
            k = quot(simp(a[2].f), s.w) if isinstance(a[2], Ptr) and a[2].o is s.inst else None
            if k is None: ex.oblige(st, "requires: an instance of the batch", False); return 0
            k = U(k); g = st.ghost; st.assume(*good(k)); at = k if first else GOOD(k); ex.oblige(st, "requires: instances of the batch in order", z3.And(k == g["n"], z3.ULT(k, NI))); ex.oblige(st, "requires: the row of the instance" if first else "requires: good rows are stacked without gaps", U(a[1]) == at); ex.oblige(st, "requires: nothing is left of a bad row before", g["dirty"] == 0)
            p = ex.load(st, Ptr(a[0].o, add(a[0].f, field(s.u, "Decoder", "state_"))), PT); ex.oblige(st, "requires: into the tensors of the batch", TF(isinstance(p, Ptr) and p.o is s.state)); ok, no, er = fork(st, OK(k), z3.And(z3.Not(OK(k)), BAD != 0), z3.And(z3.Not(OK(k)), BAD == 0)); er.ghost["error"] = True; n = fixed(k + 1)
            ok.ghost.update(n=n, at=fixed(z3.If(k == J, at, g["at"]))); no.ghost.update(n=n, bad=BV(1, 8), dirty=BV(1, 8)); return [(ok, ("ret", 1)), (no, ("ret", 0)), THROW(er)]
        return h
    def stubs(s):
        def discard(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: the row behind the good ones", U(a[1]) == GOOD(g["n"])); p = ex.load(st, Ptr(a[0].o, add(a[0].f, field(s.u, "Decoder", "state_"))), PT); ex.oblige(st, "requires: of the tensors of the batch", TF(isinstance(p, Ptr) and p.o is s.state)); g["dirty"] = BV(0, 8)
        return [R(CLS + r"decode\(", s.row()), R(CLS + r"discard_row\(", discard), R(r"mlio::Data_reader_base::params\(\)", lambda ex, st, a, i: Ptr(s.params, 0))]
    def errors(s, ex, st, out):
        if st.ghost.get("error"): ex.cover("error"); yield "ensures: a bad row is an error in that mode", z3.And(TF(is_exc(out, "Invalid_instance_error")), BAD == 0); return
        yield "ensures: refused only for an unknown handling", z3.And(TF(is_exc(out, "invalid_argument")), z3.UGT(BAD, 4))
def spec_serial(u):
    fn = r"mlio::Recordio_protobuf_reader::decode_serial\("; W = Batch(u)
    def setup(ex, st): W.init(ex, st); return args_of(u, fn, {"this": Ptr(W.reader, 0), "state": Ptr(W.state, 0), "batch": Ptr(W.batch, 0)})
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("instances read", z3.ULE(n, NI)), ("only padding goes on", z3.Implies(g["bad"] == 1, PAD)), ("bad ones are counted", (g["bad"] == 1) == (GOOD(n) != n)), ("place of instance J", z3.Implies(z3.ULT(J, n), z3.Implies(OK(J), g["at"] == GOOD(J)))), ("not read yet", z3.Implies(z3.UGE(J, n), g["at"] == BV(-1, 64))), ("flags", z3.ULE(g["bad"], 1)), ("nothing left", g["dirty"] == 0), ("good at most n", z3.ULE(GOOD(n), n)), ("not all good", z3.Implies(n == NI, z3.ULE(GOOD(n), NI)))]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} rows", U(v) == GOOD(n)), (f"{m} instances", U(v) == n)]
        for m, q in sn.ptrs.items():
            k = quot(simp(q.f), W.w) if q.o is W.inst else None
            if k is not None: r.append((f"{m} next", U(k) == n))
        return r
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw": yield from W.errors(ex, st, out); return
        n, has = out[1][0], bo(asbool(out[1][1])); ex.cover("all good", z3.And(has, g["bad"] == 0, NI == 3)); ex.cover("skipped", z3.Not(has)); ex.cover("padded", z3.And(has, g["bad"] == 1, NI == 3))
        yield "ensures: skipped only for a bad row and only if asked for", z3.Implies(z3.Not(has), z3.And(g["bad"] == 1, SKIP)); yield "ensures: bad rows are left out only if asked for", z3.Implies(z3.And(has, g["bad"] == 1), PAD); yield "ensures: nothing is left of bad rows", z3.Implies(has, g["dirty"] == 0)
        yield "ensures: every instance is read", z3.Implies(has, g["n"] == NI); yield "ensures: the number of good rows", z3.Implies(has, U(n) == GOOD(NI)); yield "ensures: the good instances are stacked in order", z3.Implies(z3.And(has, z3.ULT(J, NI), OK(J)), g["at"] == GOOD(J))
    return dict(name="Recordio_protobuf_reader::decode_serial", fn=fn, setup=setup, post=post, covers=["all good", "skipped", "padded", "error"], cands=[cands], stubs=W.stubs() + LOG, opts=dict(scale={W.inst.id: W.w}), budget=120)
LO, HI = z3.BitVec("first instance of the task", 64), z3.BitVec("end of the task", 64)
def spec_parallel(u):
    """parallel_for runs the worker on sub-ranges that make up the range: any one of them is followed, which J is in; other tasks may set the flag at any time, as this one may"""
    fn = r"mlio::Recordio_protobuf_reader::decode_parallel\([^()]*\)( const)?$"; W = Batch(u)
    def setup(ex, st): W.init(ex, st); st.assume(z3.Not(PAD)); st.ghost.update(flag=BV(0, 8), task=False); return args_of(u, fn, {"this": Ptr(W.reader, 0), "state": Ptr(W.state, 0), "batch": Ptr(W.batch, 0)})
    def par(ex, st, a, i):
        m = u.mods[0]; f = u.one(r".*mlio::Recordio_protobuf_reader::decode_parallel\(.*operator\(\)<"); rng = Obj("sub range", 40, True); ex.objs[rng.id] = rng; seen = []
        for off in (0, 8, 16, 24, 32):
            at = Ptr(a[0].o, add(a[0].f, off)); v = ex.load(st, at, PT)
            if not (isinstance(v, Ptr) and v.o is W.inst): v = ex.load(st, at, I64)
            if isinstance(v, Ptr) and v.o is W.inst: seen.append(("end" if off < 16 else "begin", U(quot(simp(v.f), W.w)))); ex.store(st, Ptr(rng, off), Ptr(W.inst, simp((HI if off < 16 else LO) * W.w)), PT, m)
            elif off == 32: ex.store(st, Ptr(rng, off), v, I64, m)
            else: seen.append(("end" if off < 16 else "begin", U(v))); ex.store(st, Ptr(rng, off), HI if off < 16 else LO, I64, m)
        ex.oblige(st, "requires: the range is all instances and their rows", z3.And(TF(len(seen) == 4), *[v == (NI if n == "end" else BV(0, 64)) for n, v in seen])); none, one = fork(st, NI == 0, NI != 0); res = [(none, ("ret", None))]
        one.assume(z3.ULT(LO, HI), z3.ULE(HI, NI), z3.ULE(LO, J), z3.ULT(J, HI)); one.ghost.update(n=LO, task=True); res.append((one, ("push", f, [a[1], Ptr(rng, 0)]))); return res
    def aset(ex, st, a, i): st.ghost["flag"] = simp(z3.If(bo(asbool(a[1])), BV(1, 8), BV(0, 8))); return a[1]
    def aget(ex, st, a, i):
        if not st.ghost["task"]: return simp(z3.If(st.ghost["flag"] == 1, BV(1, 8), BV(0, 8)))
        o = st.copy(); o.assume(SKIP); o.ghost.update(flag=BV(1, 8), bad=BV(1, 8)); return [(st, ("ret", simp(z3.If(st.ghost["flag"] == 1, BV(1, 8), BV(0, 8))))), (o, ("ret", 1))]
    A = rf"std::(atomic|__atomic_base)<bool>::"
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("instances of the task", z3.And(z3.ULE(LO, n), z3.ULE(n, HI))), ("no bad one yet", g["bad"] == 0), ("nothing left", g["dirty"] == 0), ("flag not set", g["flag"] == 0), ("instances before are good", z3.Implies(z3.ULT(J, n), z3.And(OK(J), g["at"] == J)))]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} rows", U(v) == n)]
        for m, q in sn.ptrs.items():
            k = quot(simp(q.f), W.w) if q.o is W.inst else None
            if k is not None: r.append((f"{m} next", U(k) == n))
        return r
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw": yield from W.errors(ex, st, out); return
        n, has = out[1][0], bo(asbool(out[1][1])); ex.cover("all good", z3.And(has, NI == 3)); ex.cover("skipped", z3.Not(has)); ex.cover("no instances", z3.And(has, NI == 0))
        yield "ensures: skipped only for a bad row and only if asked for", z3.Implies(z3.Not(has), z3.And(g["bad"] == 1, SKIP)); yield "ensures: no bad row goes by", z3.Implies(z3.And(has, z3.ULT(J, NI)), z3.And(OK(J), g["at"] == J)); yield "ensures: the number of rows", z3.Implies(has, U(n) == NI)
    stubs = [R(r".*tbb::(detail::d1::)?parallel_for<", par), R(A + r"(operator=|store)\(", aset), R(A + r"(operator bool|load)", aget), R(A + r"atomic|" + A + r"__atomic_base", nop), R(CLS + r"decode\(", W.row(True))]
    return dict(name="Recordio_protobuf_reader::decode_parallel", fn=fn, setup=setup, post=post, covers=["all good", "skipped", "no instances"], cands=[cands], stubs=stubs + W.stubs() + LOG, opts=dict(watch=[J], scale={W.inst.id: W.w}), budget=120)
# ---- the tensors of a batch
SPA = z3.Function("attribute is sparse", B64, z3.BoolSort()); TYPE, STEP = z3.Function("attribute's type", B64, B32), z3.Function("values of a row", B64, B64)
class Tensors:
    """the attributes of the schema; a tensor for every dense one, a builder for every sparse one"""
    def __init__(s, u):
        s.u = u; s.AS = field(u, "Attribute", "__size__"); A = lambda n, sz: Obj(n, simp(U(S) * sz), True); s.sch, s.avec, s.attrs, s.steps, s.tl, s.bl, s.tens, s.data, s.builder = Obj("schema", None, True), Obj("attribute vector", 24, True), A("attributes", s.AS), A("strides", 8), A("tensor list", 8), A("builder list", 8), A("tensors", 1 << 8), A("tensor data", 8), Obj("builder", None, True); s.state, s.reader = Obj("state", field(u, "Decoder_state", "__size__"), True), Obj("reader", field(u, "Recordio_protobuf_reader", "__size__"), True)
    def vectors(s, ex, st, state):
        m = s.u.mods[0]
        for n, o in (("tensors", s.tl), ("coo_tensor_builders", s.bl)):
            for k, v in ((0, 0), (8, simp(U(S) * 8)), (16, simp(U(S) * 8))): ex.store(st, Ptr(state.o, simp(U(state.f) + field(s.u, "Decoder_state", n) + k)), Ptr(o, v), PT, m)
    def init(s, ex, st):
        m = s.u.mods[0]
        for o in (s.sch, s.avec, s.attrs, s.steps, s.tl, s.bl, s.tens, s.data, s.builder, s.state, s.reader): ex.objs[o.id] = o
        ex.bounded(st, S); e = simp(U(S) * s.AS); st.ghost.update(b=BV(-1, 64), done=BV(0, 8), c=BV(0, 64)); vinit(ex, st, s.builder, "Builder"); ex.store(st, Ptr(s.state, field(s.u, "Decoder_state", "reader")), Ptr(s.reader, 0), PT, m); s.vectors(ex, st, Ptr(s.state, 0))
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(s.avec, k), Ptr(s.attrs, v), PT, m)
    def index(s, p, o, w):
        k = quot(simp(p.f), w) if isinstance(p, Ptr) and p.o is o else None
        return None if k is None else U(k)
    def of(s, ex, st, p, o, w, label):
        k = s.index(p, o, w)
        if k is None: ex.oblige(st, label, False); return BV(0, 64)
        ex.oblige(st, label, z3.ULT(k, S)); return k
    def mark(s, st, k): g = st.ghost; g["done"] = bv(simp(z3.If(k == KT, z3.If(z3.UGE(g["done"], 2), BV(2, 8), g["done"] + 1), g["done"])), 8)
    def stubs(s):
        a_ = lambda ex, st, p: s.of(ex, st, p, s.attrs, s.AS, "safety: an attribute of the schema")
        def builder(ex, st, a, i): k = s.of(ex, st, a[0], s.bl, 8, "requires: one of the builders"); ex.oblige(st, "safety: only sparse attributes have builders", SPA(k)); st.ghost["b"] = fixed(k); return Ptr(s.builder, 0)
        def tensor(ex, st, a, i): k = s.of(ex, st, a[0], s.tl, 8, "requires: one of the tensors"); ex.oblige(st, "safety: only dense attributes have tensors before", z3.Not(SPA(k))); return Ptr(s.tens, simp(k << 8))
        def data(ex, st, a, i): return Ptr(s.data, simp(s.of(ex, st, a[0], s.tens, 1 << 8, "requires: a tensor of the batch") * 8))
        def strides(ex, st, a, i): return Ptr(Obj("strides", None, True), 0)
        return [R(r"mlio::Parallel_data_reader::schema\(", lambda ex, st, a, i: (ex.oblige(st, "requires: the reader's schema", TF(a[1].o is s.reader)), ex.store(st, a[0], Ptr(s.sch, 0), PT, s.u.mods[0]))[1]), R(r"mlio::Schema::attributes\(", lambda ex, st, a, i: (ex.oblige(st, "requires: the reader's schema", TF(a[0].o is s.sch)), Ptr(s.avec, 0))[1]), R(r"mlio::Attribute::sparse\(", lambda ex, st, a, i: simp(z3.If(SPA(a_(ex, st, a[0])), BV(1, 8), BV(0, 8)))), R(r"mlio::Attribute::data_type\(", lambda ex, st, a, i: TYPE(a_(ex, st, a[0]))), R(r"mlio::Attribute::strides\(", lambda ex, st, a, i: Ptr(s.steps, simp(a_(ex, st, a[0]) * 8))),
                R(r"std::vector<long, .*>::operator\[\]\(", lambda ex, st, a, i: (ex.oblige(st, "requires: the values of a row", z3.And(TF(a[0].o is s.steps), U(a[1]) == 0)), a[0])[1]), R(r"std::unique_ptr<.*Coo_tensor_builder,.*>::(operator(\*|->)\(\)|get\()", builder), R(r"mlio::Intrusive_ptr<mlio::Tensor>::(operator(\*|->)\(\)|get\()", tensor), R(r"mlio::Dense_tensor::data\(\)", data), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop)]
    def load(s, ex, st, o, off, n):
        if o is s.steps: k = z3.LShR(U(off), BV(3, 64)); st.assume(U(cell(ex, st, s.steps, off, I64)) == STEP(k))
    def virtual(s, handlers): return dispatch({"Builder": vtable(s.u, "Coo_tensor_builder_impl<(mlio::Data_type)2>")}, {"Builder": handlers})
    def scale(s): return {s.attrs.id: s.AS, s.steps.id: 8, s.tl.id: 8, s.bl.id: 8, s.tens.id: 1 << 8, s.data.id: 8}
def spec_discard(u):
    fn = CLS + r"discard_row\("; X = Tensors(u); this = Obj("this", field(u, "Decoder", "__size__"), True)
    def setup(ex, st): X.init(ex, st); ex.objs[this.id] = this; ex.bounded(st, ROW); ex.store(st, Ptr(this, field(u, "Decoder", "state_")), Ptr(X.state, 0), PT, u.mods[0]); w = ex.omw(st, X.steps); w.mode, w.ew, w.arr, w.cells = "words", 8, z3.Array("values of rows", B64, B64), {}; return args_of(u, fn, {"this": Ptr(this, 0), "row_idx": ROW})
    def rows(ex, st, a, i): g = st.ghost; k = g["b"]; ex.oblige(st, "requires: the rows before the discarded one stay", U(a[1]) == ROW); ex.oblige(st, "requires: one attribute after another", k == g["c"]); X.mark(st, k); g["c"] = fixed(k + 1)
    def clear(ex, st, a, i):
        t = ex.load(st, Ptr(a[1].o, a[1].f), PT); k = X.of(ex, st, t, X.data, 8, "requires: the data of a tensor"); g = st.ghost; n = U(z3.Select(arr_of(ex, st, X.steps), k)); ex.oblige(st, "requires: the tensor's type", z3.And(bv(a[0], 32) == TYPE(k), z3.Not(SPA(k)))); ex.oblige(st, "requires: the values of the row", z3.And(U(ex.load(st, a[2], I64)) == umul(ROW, n), U(ex.load(st, a[3], I64)) == n)); ex.oblige(st, "requires: one attribute after another", k == g["c"]); X.mark(st, k); g["c"] = fixed(k + 1)
    def cands(sn):
        g = sn.st.ghost; c = g["c"]; r = [("attributes", z3.ULE(c, S)), ("done", g["done"] == z3.If(z3.ULT(KT, c), BV(1, 8), BV(0, 8)))]
        for n, (v, w) in sn.ints.items():
            if w == 64: r.append((f"{n} next", U(v) == c))
        for n, q in sn.ptrs.items():
            k = X.index(q, X.attrs, X.AS)
            if k is not None: r.append((f"{n} next", k == c))
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        g = st.ghost; ex.cover("sparse", z3.And(S == 2, KT == 0, SPA(KT))); ex.cover("dense", z3.And(S == 2, KT == 1, z3.Not(SPA(KT)))); yield "ensures: the row is emptied in every tensor and every builder, once", z3.Implies(z3.ULT(KT, S), g["done"] == 1)
    stubs = [R(r".*mlio::dispatch<.*clear_op", clear)] + X.stubs()
    return dict(name="Decoder::discard_row", fn=fn, setup=setup, post=post, covers=["sparse", "dense"], cands=[cands], stubs=stubs, opts=dict(virtual=X.virtual([("discard_rows", rows)]), scale=X.scale(), opaque_mul=True), budget=60)
def spec_clear(dt):
    def spec(u):
        ct, w = {2: ("float", 4), 3: ("double", 8), 6: ("int", 4)}[dt]; fn = CLS + rf"clear_op<\(mlio::Data_type\){dt}>::operator\(\)"; this, arr, data = Obj("this", 8, True), Obj("array", None, True), Obj("tensor data", simp(U(CAP) * w), True); OLD = z3.Array("tensor before", B64, z3.BitVecSort(8 * w)); NVAL = z3.BitVec("values of the row", 64)
        def setup(ex, st):
            for o in (this, arr, data): ex.objs[o.id] = o
            m = ex.omw(st, data); m.mode, m.ew, m.arr, m.cells = "words", w, OLD, {}; ex.bounded(st, CAP, OFF, NVAL); st.assume(z3.ULE(OFF, CAP), z3.ULE(NVAL, CAP - OFF)); return args_of(u, fn, {"this": Ptr(this, 0), "arr.coerce": Ptr(arr, 0), "arr": Ptr(arr, 0), "offset": OFF, "num_values": NVAL})
        def as_(ex, st, a, i): ex.oblige(st, "requires: elements of the type", TF(re.search(rf"::as<{ct}>\(", dem(i.x[0].v)))); return [(st, ("ret", [Ptr(data, 0), CAP]))]
        def cands(sn):
            new = z3.Select(arr_of(sn.ex, sn.st, data), W); r = []
            for n, q in sn.ptrs.items():
                k = quot(simp(q.f), w) if q.o is data else None
                if k is not None: k = U(k); r += [(f"{n} inside", z3.And(z3.ULE(OFF, k), z3.ULE(k, OFF + NVAL))), (f"zero before {n}", new == z3.If(z3.And(z3.ULE(OFF, W), z3.ULT(W, k)), BV(0, 8 * w), z3.Select(OLD, W)))] + [(f"{n} and {m} make up all", k - OFF + U(v) == NVAL) for m, (v, ww) in sn.ints.items() if ww == 64]
            return r
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            new = z3.Select(arr_of(ex, st, data), W); ex.cover("cleared", NVAL == 3); ex.cover("nothing", NVAL == 0); yield "ensures: the row is zero and nothing else changes", z3.Implies(z3.ULT(W, CAP), new == z3.If(z3.And(z3.ULE(OFF, W), z3.ULT(W - OFF, NVAL)), BV(0, 8 * w), z3.Select(OLD, W)))
        return dict(name=f"Decoder::clear_op<{ct}>", fn=fn, setup=setup, post=post, covers=["cleared", "nothing"], cands=[cands], stubs=[R(r".*mlio::Basic_device_array_span<mlio::Device_array>::as<", as_)], opts=dict(watch=[W], scale={data.id: w}), budget=30)
    spec.__name__ = f"spec_clear_{dt}"; return spec
HASSP = z3.Bool("a feature is sparse"); READ = z3.BitVec("rows read", 64)
def spec_batch(u):
    fn = r"mlio::Recordio_protobuf_reader::decode\(mlio::Instance_batch const&\)"; W = Batch(u); X = Tensors(u); X.reader = W.reader; out, exm = Obj("result", 8, True), Obj("example", field(u, "Example", "__size__"), True); PADOFF = field(u, "Example", "padding"); made = Obj("built tensors", None, True); VT = r"std::vector<mlio::Intrusive_ptr<mlio::Tensor>, .*?>::"
    def setup(ex, st):
        W.init(ex, st); X.init(ex, st); m = u.mods[0]; st.ghost.update(reads=0, state=None, example=False, built=BV(-1, 64)); st.assume(z3.ULE(READ, NI), HASSP == z3.Or(HASSP, z3.And(z3.ULT(KT, S), SPA(KT))))
        for o in (out, exm, made): ex.objs[o.id] = o
        f = lambda n: field(u, "Recordio_protobuf_reader", n); ex.store(st, Ptr(W.reader, f("has_sparse_feature_")), z3.If(HASSP, BV(1, 8), BV(0, 8)), I8, m)
        ex.store(st, Ptr(W.batch, field(u, "Instance_batch", "size_")), SIZE, I64, m); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(W.reader, 0), "batch": Ptr(W.batch, 0)})
    def state(ex, st, a, i): ex.oblige(st, "requires: the reader's state of the batch's size, once", z3.And(TF(a[1].o is W.reader and st.ghost["state"] is None), U(a[2]) == SIZE)); st.ghost["state"] = (a[0].o, simp(a[0].f)); X.vectors(ex, st, a[0])
    def rows(par):
        def h(ex, st, a, i):
            """contracts of decode_serial and decode_parallel (above)"""
            p = st.ghost["state"]; a = a[-3:]; ex.oblige(st, "requires: the batch with its state, once", TF(p is not None and a[1].o is p[0] and a[2].o is W.batch and st.ghost["reads"] == 0))
            if par: ex.oblige(st, "requires: rows are not left out in parallel", z3.Not(PAD)); ex.oblige(st, "requires: the rows of sparse features are appended in order", z3.Not(HASSP))
            st.ghost["reads"] = 1; ok, no, er = st.copy(), st.copy(), st.copy(); ok.assume(READ == NI if par else z3.Implies(z3.Not(PAD), READ == NI)); no.assume(SKIP); er.ghost["error"] = True; ok.ghost["read"] = True; no.ghost["read"] = False
            return [(ok, ("ret", [READ, 1])), (no, ("ret", [ex.fresh("nothing"), 0])), THROW(er)]
        return h
    def null(ex, st, a, i): k = X.of(ex, st, a[0], X.tl, 8, "requires: one of the tensors"); return simp(z3.If(SPA(k), BV(1, 8), BV(0, 8)))
    def build(ex, st, a, i): g = st.ghost; k = g["b"]; ex.oblige(st, "requires: a tensor is built once its rows are read", TF(g.get("read") is True)); g["built"] = fixed(k); p = next(x for x in a if isinstance(x, Ptr) and x.o is not X.builder); ex.store(st, p, Ptr(made, simp(k * 8)), PT, u.mods[0]); return None
    def assign(ex, st, a, i): k = X.of(ex, st, a[0], X.tl, 8, "requires: one of the tensors"); p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the tensor built of the sparse attribute itself", z3.And(SPA(k), st.ghost["built"] == k, U(p.f) == k * 8) if isinstance(p, Ptr) and p.o is made else False); X.mark(st, k); return a[0]
    def example(ex, st, a, i):
        s_ = ex.load(st, a[1], PT); g = st.ghost; p = g["state"]; ex.oblige(st, "requires: the reader's schema and the tensors, after they were filled", TF(isinstance(s_, Ptr) and s_.o is X.sch and g.get("read") is True and p is not None and a[2].o is p[0] and eqc(simp(U(a[2].f) - U(p[1])), field(u, "Decoder_state", "tensors")))); ex.oblige(st, "requires: every sparse attribute has its tensor", z3.Implies(z3.And(z3.ULT(KT, S), SPA(KT)), g["done"] == 1)); g["example"] = True; ex.store(st, a[0], Ptr(exm, 0), PT, u.mods[0]); ex.store(st, Ptr(exm, PADOFF), 0, I64, u.mods[0])
    def cands(sn):
        g = sn.st.ghost; ks = [(n, k) for n, q in sn.ptrs.items() for o in (X.tl, X.bl) for k in [X.index(q, o, 8)] if k is not None]; r = []
        for n, k in ks: r += [(f"{n} inside", z3.ULE(k, S)), (f"built before {n}", g["done"] == z3.If(z3.And(z3.ULT(KT, k), SPA(KT)), BV(1, 8), BV(0, 8)))] + [(f"{n} with {m}", k == l) for m, l in ks if m < n]
        return r
    def post(ex, st, out_):
        g = st.ghost
        if out_[0] == "throw": yield "ensures: only the errors of the rows", TF(bool(g.get("error"))); return
        p = cell(ex, st, out, 0, PT)
        if p is NULL or not isinstance(p, Ptr) or p.o is None: ex.cover("skipped"); yield "ensures: no example only if it is skipped", TF(g.get("read") is False); return
        ex.cover("example", z3.And(NI == 3, READ == 2, SIZE == 4, S == 2)); yield "ensures: an example of the tensors", TF(p.o is exm and g["example"] and g.get("read") is True); yield "ensures: padding is what the rows read leave of the batch", U(cell(ex, st, exm, PADOFF, I64)) == SIZE - READ
    stubs = [R(r"mlio::Recordio_protobuf_reader::Decoder_state::Decoder_state\(", state), R(r"mlio::Recordio_protobuf_reader::Decoder_state::~Decoder_state\(", nop), R(r"mlio::Recordio_protobuf_reader::decode_serial\(", rows(False)), R(r"mlio::Recordio_protobuf_reader::decode_parallel\(", rows(True)), R(r".*mlio::make_intrusive<mlio::Example", example), R(r".*mlio::operator==<mlio::Tensor>", null), R(r".*mlio::Intrusive_ptr<mlio::Tensor>::operator=", assign), R(VT + r"~vector", nop)]
    return dict(name="Recordio_protobuf_reader::decode", fn=fn, setup=setup, post=post, covers=["example", "skipped"], cands=[cands], stubs=stubs + X.stubs() + W.stubs() + LOG, opts=dict(virtual=X.virtual([("::build", build)]), scale={**X.scale(), W.inst.id: W.w}, opaque_mul=True), budget=60)
# ---- what the first record says about the schema
class Shape:
    """a new shape: its dimensions are followed at position K"""
    def init(s, ex, st): st.ghost.update(len=BV(0, 64), dim=BV(0, 64)); ex.bounded(st, SIZE)
    def add(s, st, v): g = st.ghost; g["dim"] = fixed(z3.If(g["len"] == K, U(v), g["dim"])); g["len"] = fixed(g["len"] + 1)
def spec_shape_of(dt):
    def spec(u):
        F = Feature(u, dt); fn = rf".*mlio::Recordio_protobuf_reader::copy_shape<aialgs::data::{F.msg_t}>\("; H = Shape(); out = Obj("shape", 24, True)
        def setup(ex, st):
            F.init(ex, st); H.init(ex, st); ex.objs[out.id] = out; st.ghost.update(len=BV(1, 64), n=BV(0, 64)); st.assume(K != 0); return args_of(u, fn, {"this": Ptr(F.reader, 0), "instance": Ptr(F.inst, 0), "name": Ptr(Obj("name", 32, True), 0), "shape": Ptr(out, 0), "tensor": Ptr(F.msg, 0)})
        def push(ex, st, a, i): ex.oblige(st, "requires: at the end of the shape", TF(a[0].o is out)); H.add(st, ex.load(st, a[1], I64)); return a[1]
        def cands(sn):
            g = sn.st.ghost; n = g["len"] - 1; r = [("dimensions", z3.ULE(n, z3.SignExt(32, NSH))), ("dimension K", z3.Implies(z3.ULT(K, g["len"]), g["dim"] == z3.Select(DIMS, K - 1))), ("some", z3.UGE(g["len"], 1))]
            for m, q in sn.ptrs.items():
                k = quot(simp(q.f), 8) if q.o is F.D else None
                if k is not None: r.append((f"{m} next", U(k) == n))
            for m, (v, w) in sn.ints.items():
                if w in (32, 64): r.append((f"{m} next", z3.ZeroExt(64 - w, bv(v, w)) == n if w == 32 else U(v) == n))
            return r
        def post(ex, st, out_):
            if out_[0] == "throw": yield "ensures: no error, as every dimension fits", False; return
            g = st.ghost; ex.cover("dimensions", NSH == 3); yield "ensures: all dimensions follow the batch's, in order", z3.And(g["len"] == z3.SignExt(32, NSH) + 1, z3.Implies(z3.ULT(K - 1, z3.SignExt(32, NSH)), g["dim"] == z3.Select(DIMS, K - 1)))
        return dict(name=f"copy_shape<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["dimensions"], cands=[cands], stubs=[R(r".*std::vector<unsigned long, .*>::(emplace_back|push_back)", push)] + F.stubs(), opts=F.opts(watch=[K]), budget=60)
    spec.__name__ = f"spec_shape_of_{dt}"; return spec
def spec_attribute(dt):
    def spec(u):
        F = Feature(u, dt); fn = rf".*mlio::Recordio_protobuf_reader::make_attribute<\(mlio::Data_type\){dt}, aialgs::data::{F.msg_t}>\("; out, name, params, rd = Obj("result", None, True), Obj("name", 32, True), Obj("parameters", field(u, "Data_reader_params", "__size__"), True), Obj("reader", field(u, "Recordio_protobuf_reader", "__size__"), True); fs = field(u, "Recordio_protobuf_reader", "has_sparse_feature_"); WAS = z3.BitVec("sparse features before", 8); V_ = r"(.* )?std::vector<unsigned long, .*?>::"
        def setup(ex, st):
            F.init(ex, st); ex.bounded(st, SIZE); st.ghost.update(first=BV(0, 64), len=BV(0, 64), tail=BV(0, 64), dims=BV(0, 8), made=BV(0, 8), sparse=BV(0, 8))
            for o in (out, name, params, rd): ex.objs[o.id] = o
            st.assume(z3.ULE(WAS, 1)); ex.store(st, Ptr(rd, fs), WAS, I8, u.mods[0]); ex.store(st, Ptr(params, field(u, "Data_reader_params", "batch_size")), SIZE, I64, u.mods[0]); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(rd, 0), "instance": Ptr(F.inst, 0), "name": Ptr(name, 0), "tensor": Ptr(F.msg, 0)})
        def make(ex, st, a, i):
            g = st.ghost; g["first"] = U(cell(ex, st, a[1].o, a[1].f, I64)); n = U(a[2]) if not isinstance(a[2], Ptr) else None; ex.oblige(st, "requires: a shape of the batch's dimension", n == 1 if n is not None else False); g["len"] = BV(1, 64); ex.store(st, a[0], Ptr(F.D, 0), PT, u.mods[0])
        def push(ex, st, a, i): g = st.ghost; g["len"] = fixed(g["len"] + 1); g["tail"] = U(ex.load(st, a[1], I64)); return a[1]
        def copy(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: the feature's dimensions behind the batch's", TF(any(isinstance(x, Ptr) and x.o is F.msg for x in a)) if True else False); ex.oblige(st, "requires: only once", z3.And(g["len"] == 1, g["dims"] == 0)); g["dims"] = BV(1, 8)
        def attr(ex, st, a, i):
            g = st.ghost; ex.oblige(st, "requires: the attribute's type", bv(a[2], 32) == dt); ex.oblige(st, "requires: once", g["made"] == 0); g["made"] = BV(1, 8); g["sparse"] = bv(simp(bv(a[-1], 8) & 1) if not (isinstance(a[-1], z3.BitVecRef) and a[-1].size() == 1) else simp(z3.ZeroExt(7, a[-1])), 8)
        sp = z3.Or(NK != 0, z3.And(NV == 0, NSH != 0))
        def post(ex, st, out_):
            g = st.ghost; was = cell(ex, st, rd, fs, I8)
            if out_[0] == "throw": ex.cover("no shape"); yield "ensures: refused only without shape", z3.And(TF(is_exc(out_, "Schema_error")), NK != 0, NSH == 0); return
            ex.cover("vector", z3.And(NK == 0, NSH == 0, NV == 3)); ex.cover("matrix", z3.And(NK == 0, NSH == 2, NV == 6)); ex.cover("sparse", sp); yield "ensures: an attribute", g["made"] == 1; yield "ensures: a sparse feature without shape is refused", z3.Not(z3.And(NK != 0, NSH == 0)); yield "ensures: sparse as a decoder takes it", (g["sparse"] == 1) == sp
            yield "ensures: rows come first in the shape", g["first"] == SIZE; yield "ensures: the dimensions given, else the number of values", z3.If(NSH == 0, z3.And(g["dims"] == 0, g["len"] == 2, g["tail"] == z3.SignExt(32, NV)), z3.And(g["dims"] == 1, g["len"] == 1)); yield "ensures: a sparse feature is known to the reader", bv(was, 8) == z3.If(sp, BV(1, 8), WAS)
        stubs = [R(r"mlio::Data_reader_base::params\(\)", lambda ex, st, a, i: Ptr(params, 0)), R(V_ + r"vector\(std::initializer_list", make), R(V_ + r"(emplace_back|push_back)", push), R(V_ + r"~?vector\(", nop), R(r"std::vector<long, .*>::~?vector\(", nop), R(r".*mlio::Recordio_protobuf_reader::copy_shape<", copy), R(r"mlio::Attribute::Attribute\(", attr), R(r"(mlio::Schema_error|std::runtime_error)::", nop)]
        return dict(name=f"make_attribute<{F.msg_t}>", fn=fn, setup=setup, post=post, covers=["vector", "matrix", "sparse", "no shape"], stubs=stubs + F.stubs(), opts=F.opts(), budget=60)
    spec.__name__ = f"spec_attribute_{dt}"; return spec
def spec_kind(u):
    """which make_attribute a value gets"""
    F = Feature(u); fn = r"mlio::Recordio_protobuf_reader::make_attribute\("; out, val, name = Obj("result", None, True), Obj("value", None, True), Obj("name", 32, True)
    def setup(ex, st):
        F.init(ex, st); st.ghost.update(made=BV(0, 8))
        for o in (out, val, name): ex.objs[o.id] = o
        return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(F.reader, 0), "instance": Ptr(F.inst, 0), "name": Ptr(name, 0), "value": Ptr(val, 0)})
    def part(dt): return lambda ex, st, a, i: (ex.oblige(st, "requires: the value's own kind", z3.And(TF(a[0].o is val), z3.Or(*[CASE == c for c, d in CASES.items() if d == dt]))), Ptr(F.msg, dt))[1]
    def make(ex, st, a, i): dt = int(re.search(r"<\(mlio::Data_type\)(\d+),", dem(i.x[0].v)).group(1)); ex.oblige(st, "requires: the value as its kind, under its name", TF(a[-1].o is F.msg and eqc(simp(a[-1].f), dt) and a[-2].o is name and a[0].o is out)); st.ghost["made"] = bv(simp(st.ghost["made"] + 1), 8)
    def post(ex, st, out_):
        known = z3.Or(*[CASE == c for c in CASES])
        if out_[0] == "throw": ex.cover("unknown"); yield "ensures: refused only for an unknown kind", z3.And(z3.Not(known), TF(is_exc(out_, "Schema_error") or is_exc(out_, "Not_supported_error"))); return
        ex.cover("attribute"); yield "ensures: one attribute of a known kind", z3.And(known, st.ghost["made"] == 1)
    stubs = [R(r"aialgs::data::Value::value_case\(", lambda ex, st, a, i: CASE), R(r"aialgs::data::Value::float32_tensor\(", part(2)), R(r"aialgs::data::Value::float64_tensor\(", part(3)), R(r"aialgs::data::Value::int32_tensor\(", part(6)), R(r".*mlio::Recordio_protobuf_reader::make_attribute<", make), R(r"(mlio::\w+_error|std::runtime_error)::", nop)]
    return dict(name="make_attribute", fn=fn, setup=setup, post=post, covers=["attribute", "unknown"], stubs=stubs + F.stubs(), opts=dict(virtual=F.virtual()), budget=30)
HASI = z3.Bool("there is a first instance")
def spec_infer(u):
    fn = r"mlio::Recordio_protobuf_reader::infer_schema\("; M = Maps(u); X = Tensors(u); out, inst, store, opt, schema = Obj("result", 8, True), Obj("instance", field(u, "Instance", "__size__"), True), Obj("data store", None, True), Obj("optional instance", None, True), Obj("schema", None, True); m = u.mods[0]; AV = r"(.* )?std::vector<mlio::Attribute, .*?>::"; fv = field(u, "Recordio_protobuf_reader", "num_values_per_instance_")
    def setup(ex, st):
        X.init(ex, st); M.init(ex, st); w = ex.omw(st, X.steps); w.mode, w.ew, w.arr, w.cells = "words", 8, z3.Array("values of rows", B64, B64), {}
        for o in (out, inst, store, opt, schema): ex.objs[o.id] = o
        vinit(ex, st, store, "Store"); st.assume(S == NL + NF); st.ghost.update(l=BV(0, 64), f=BV(0, 64), made=BV(0, 8), schema=False); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(X.reader, 0), "instance": Ptr(opt, 0)})
    def parse(ex, st, a, i): ex.oblige(st, "requires: the instance given", z3.And(HASI, TF(a[0].o is inst))); y, n = fork(st, PARSED, z3.Not(PARSED)); return [(y, ("ret", Ptr(M.rec, 0))), (n, ("ret", NULL))]
    def make(ex, st, a, i):
        g = st.ghost; v = M.entry(a[-1], M.SEC)
        if v is None: ex.oblige(st, "requires: the value of an entry", False); return
        w, k = v; M.named(ex, st, w, k, a[-2]); ex.oblige(st, "requires: of the instance given", TF(a[-3].o is inst)); ex.oblige(st, "requires: the entries one after another", z3.And(k == g[w], z3.ULT(k, M.size[w]), g["made"] == 0)); g[w] = fixed(k + 1); g["made"] = BV(1, 8); er = st.copy(); er.ghost["unknown"] = True
        return [(st, ("ret", None)), (er, ("throw", Thrown("_ZTIN4mlio6abi_v112Schema_errorE")))]
    def push(ex, st, a, i): ex.oblige(st, "requires: every attribute once", st.ghost["made"] == 1); st.ghost["made"] = BV(0, 8); return Ptr(X.attrs, 0)
    def schema_(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: the attributes of all entries, once", z3.And(g["l"] == NL, g["f"] == NF, g["made"] == 0, TF(not g["schema"]))); g["schema"] = True; ex.store(st, a[0], Ptr(X.sch, 0), PT, m)
    def cands(sn):
        g = sn.st.ghost; l, f = g["l"], g["f"]; r = [("labels read", z3.ULE(l, NL)), ("features read", z3.ULE(f, NF)), ("all labels", l == NL), ("all features", f == NF), ("no features yet", f == 0), ("all used", g["made"] == 0)]
        for n, q in sn.ptrs.items():
            e = M.entry(q); k = X.index(q, X.attrs, X.AS)
            if e is not None: r.append((f"{n} next", e[1] == g[e[0]]))
            if k is not None: r.append((f"{n} at most all", z3.ULE(k, S)))
        return r
    def post(ex, st, out_):
        g = st.ghost
        if out_[0] == "throw": ex.cover("corrupt", z3.Not(PARSED)); ex.cover("unknown", PARSED); yield "ensures: refused only for a corrupt record or an unknown kind", z3.And(TF(is_exc(out_, "Schema_error")), HASI, z3.Or(z3.Not(PARSED), TF(bool(g.get("unknown"))))); return
        p = cell(ex, st, out, 0, PT); some = isinstance(p, Ptr) and p.o is X.sch; ex.cover("schema", z3.And(TF(some), NL == 1, NF == 2)); ex.cover("no instance", z3.Not(HASI)); yield "ensures: a schema of the record, none without one", TF(some) == HASI; yield "ensures: the schema's attributes are the record's", z3.Implies(HASI, z3.And(TF(g["schema"]), PARSED))
    stubs = [R(r".*std::operator==<mlio::Instance>", lambda ex, st, a, i: simp(z3.If(HASI, BV(0, 8), BV(1, 8)))), R(r"std::optional<mlio::Instance>::(operator->|operator\*)", lambda ex, st, a, i: (ex.oblige(st, "safety: the instance is there", HASI), Ptr(inst, 0))[1]), R(r"std::optional<mlio::Instance>::(has_value|operator bool)", lambda ex, st, a, i: simp(z3.If(HASI, BV(1, 8), BV(0, 8)))), R(r"mlio::Recordio_protobuf_reader::parse_proto\(", parse), R(r"mlio::Recordio_protobuf_reader::make_attribute\(", make), R(AV + r"(emplace_back|push_back)", push), R(AV + r"(~?vector|reserve)\(", nop), R(r"mlio::Attribute::~Attribute", nop), R(r".*mlio::make_intrusive<mlio::Schema", schema_), R(r"mlio::Intrusive_ptr<mlio::Schema>::(operator(\*|->)\(\)|get\()", lambda ex, st, a, i: ex.load(st, a[0], PT)), R(r"mlio::Instance::data_store\(\)", lambda ex, st, a, i: Ptr(store, 0)), R(r"mlio::Instance::index\(\)", lambda ex, st, a, i: ex.fresh("index")), R(r"(mlio::\w+_error|std::runtime_error)::", nop)]
    V = dispatch({"Store": ["mlio::Data_store::?"] * 16}, {"Store": [(r".", lambda ex, st, a, i: Ptr(Obj("id", 32, True), 0))]})
    return dict(name="Recordio_protobuf_reader::infer_schema", fn=fn, setup=setup, post=post, covers=["schema", "no instance", "corrupt", "unknown"], cands=[cands], stubs=stubs + M.stubs() + X.stubs() + LOG, opts=dict(virtual=V, scale={**X.scale(), M.ent["l"].id: M.E, M.ent["f"].id: M.E}), budget=120)
def spec_state(u):
    fn = CLSS + r"init_state\("; X = Tensors(u)
    def setup(ex, st): X.init(ex, st); ex.bounded(st, SIZE); return args_of(u, fn, {"this": Ptr(X.state, 0), "schema": Ptr(X.sch, 0), "batch_size": SIZE})
    def make(sp):
        def h(ex, st, a, i): g = st.ghost; k = X.of(ex, st, a[1], X.attrs, X.AS, "requires: an attribute of the schema"); ex.oblige(st, "requires: one attribute after another, each as its kind, of the batch's size", z3.And(k == g["c"], SPA(k) if sp else z3.Not(SPA(k)), U(a[2]) == SIZE, TF(a[0].o is X.state))); X.mark(st, k); g["c"] = fixed(k + 1)
        return h
    def cands(sn):
        g = sn.st.ghost; c = g["c"]; r = [("attributes", z3.ULE(c, S)), ("done", g["done"] == z3.If(z3.ULT(KT, c), BV(1, 8), BV(0, 8)))]
        for n, q in sn.ptrs.items():
            k = X.index(q, X.attrs, X.AS)
            if k is not None: r.append((f"{n} next", k == c))
        for n, (v, w) in sn.ints.items():
            if w == 64: r.append((f"{n} next", U(v) == c))
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        ex.cover("all", S == 2); yield "ensures: a tensor or a builder for every attribute, in order", z3.And(st.ghost["c"] == S, z3.Implies(z3.ULT(KT, S), st.ghost["done"] == 1))
    return dict(name="Decoder_state::init_state", fn=fn, setup=setup, post=post, covers=["all"], cands=[cands], stubs=[R(CLSS + r"init_tensor\(", make(False)), R(CLSS + r"init_coo_tensor_builder\(", make(True)), R(r"std::vector<.*>::reserve\(", nop)] + X.stubs(), opts=dict(scale=X.scale()), budget=60)
CLSS = r"mlio::Recordio_protobuf_reader::Decoder_state::"
def spec_tensor(sp):
    def spec(u):
        fn = CLSS + (r"init_coo_tensor_builder\(" if sp else r"init_tensor\("); F = Feature(u); arr, tens, cshape, bld = Obj("array", None, True), Obj("new tensor", None, True), Obj("shape copy data", simp(U(N) * 8), True), Obj("new builder", None, True); V_ = r"std::vector<unsigned long, .*?>::"; PV = lambda t: rf".*std::vector<{t}.*>::(emplace_back|push_back)"
        def setup(ex, st):
            F.init(ex, st); ex.bounded(st, SIZE)
            for o in (arr, tens, cshape, bld): ex.objs[o.id] = o
            words(ex, st, cshape, SHAPE); st.ghost.update(made=False, tensors=0, builders=0); st.assume(umul(SIZE, V) == umul(V, SIZE)); return args_of(u, fn, {"this": Ptr(F.state, 0), "attr": Ptr(F.attr, 0), "batch_size": SIZE})
        def cpu(ex, st, a, i): ex.oblige(st, "requires: an element for every value of every row, of the attribute's type", z3.And(bv(a[1], 32) == DT, U(a[2]) == umul(SIZE, V))); ex.store(st, a[0], Ptr(arr, 0), PT, u.mods[0])
        def copy(ex, st, a, i): ex.oblige(st, "requires: the attribute's shape", TF(a[1].o is F.attr and eqc(simp(a[1].f), field(u, "Attribute", "shape_")))); setvec(ex, st, a[0], cshape, N)
        def dense(ex, st, a, i):
            d, n = vec_of(ex, st, a[1].o, a[1].f); p = ex.load(st, a[2], PT); s_ = arr_of(ex, st, cshape); ex.oblige(st, "requires: the attribute's shape with the batch's rows, and its array", z3.And(TF(d is cshape and isinstance(p, Ptr) and p.o is arr and not st.ghost["made"]), n == U(N) * 8, z3.Select(s_, BV(0, 64)) == SIZE, z3.Implies(z3.And(z3.ULT(K, N), K != 0), z3.Select(s_, K) == z3.Select(SHAPE, K)))); st.ghost["made"] = True; ex.store(st, a[0], Ptr(tens, 0), PT, u.mods[0]); ex.store(st, a[2], NULL, PT, u.mods[0])
        def builder(ex, st, a, i): ex.oblige(st, "requires: a builder of the attribute and the batch's size", z3.And(TF(a[1].o is F.attr and eqc(simp(a[1].f), 0)), U(a[2]) == SIZE)); st.ghost["made"] = True; ex.store(st, a[0], Ptr(bld, 0), PT, u.mods[0])
        def push(n, of):
            def h(ex, st, a, i):
                f = field(u, "Decoder_state", n); at = z3.And(TF(a[0].o is F.state and eqc(simp(a[0].f), f)))
                null = "decltype(nullptr)" in dem(i.x[0].v) or "nullptr_t" in dem(i.x[0].v); p = None if null else ex.load(st, a[1], PT); got = isinstance(p, Ptr) and p.o is not None and p is not NULL
                ex.oblige(st, "requires: at the end of its list", at); ex.oblige(st, "requires: " + ("the new one" if of else "nothing for the other kind"), TF(got and p.o is of) if of else TF(not got)); st.ghost["tensors" if n == "tensors" else "builders"] += 1
                if got: ex.store(st, a[1], NULL, PT, u.mods[0])
                return a[0]
            return h
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            g = st.ghost; ex.cover("made"); yield "ensures: one tensor or builder, and nothing in its place in the other list", TF(g["made"] and g["tensors"] == 1 and g["builders"] == 1)
        stubs = [R(r"mlio::make_cpu_array\(", cpu), R(V_ + r"vector\(std::vector<", copy), R(V_ + r"~vector\(", nop), R(r".*mlio::make_intrusive<mlio::Dense_tensor", dense), R(r"mlio::detail::make_coo_tensor_builder\(", builder), R(PV("mlio::Intrusive_ptr<mlio::Tensor>"), push("tensors", None if sp else tens)), R(PV("std::unique_ptr<mlio::detail::Coo_tensor_builder"), push("coo_tensor_builders", bld if sp else None)), R(r"std::unique_ptr<.*>::~unique_ptr", nop), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop)]
        return dict(name="Decoder_state::" + ("init_coo_tensor_builder" if sp else "init_tensor"), fn=fn, setup=setup, post=post, covers=["made"], stubs=stubs, opts=F.opts(watch=[K, BV(0, 64)], opaque_mul=True), budget=60)
    spec.__name__ = f"spec_tensor_{'sparse' if sp else 'dense'}"; return spec
def specs(u): return [s(dt) for dt in KINDS for s in (spec_sparse, spec_shape, spec_copy, spec_append, spec_feature, spec_clear, spec_shape_of, spec_attribute)] + [spec_dispatch, spec_parse, spec_record, spec_serial, spec_parallel, spec_discard, spec_batch, spec_kind, spec_infer, spec_state, spec_tensor(False), spec_tensor(True)]
HARNESS = dict(file="P21.cc", srcs=lambda: build.protos(), secs=10)
NOTE = "decoding is proved for records of any size: which features are sparse, whether a feature's shape is the attribute's, that the values of a dense feature become the row of its attribute's tensor, element for element and nothing else (the watched position arbitrary), that a sparse one is appended with its own keys, that a feature is taken only by the attribute with its name, type, kind and shape, that a record is good only if every attribute has just one value and every one was taken, and that every reason to refuse it is reported as asked for. A refused record's row is emptied in every tensor and builder before the next one is decoded into it (ghost state), good rows are stacked without gaps, the worker of parallel decoding is proved on any sub-range of a batch, and an example gets the tensors of all attributes and the padding its rows leave. Inference of the schema (names, types, shapes, sparse or dense) and the making of tensors are proved too. The parsing of messages (protobuf) is a library contract; the oracle of the bounded harness encodes the messages itself, byte by byte. The harness is compiled with a shim for fmt::format with a format chosen at run time, which the installed fmt handles only for literals (harness/compat)."
ASSUME = ["the generated protobuf classes give the values that were encoded; a message's maps have every key once", "tbb::parallel_for runs its body on sub-ranges that make up the range once; other tasks may set the flag of a bad batch at any time", "std::vector, std::string and Intrusive_ptr keep their contracts; the COO builders keep theirs (P20), Dense_tensor and Schema too (P22)", "a record has fewer than 2^31 labels, features, values, keys and dimensions (protobuf's own limit); sizes of tensors are below 2^44"]
