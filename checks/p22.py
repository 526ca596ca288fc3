from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, words, vec_of, holds, arr_of, SHAPE, STR

SRCS = ["src/mlio/schema.cc", "src/mlio/example.cc"]
U = lambda x: bv(x, 64)
I1 = lambda b: z3.BoolVal(bool(b))
B64, BOOL = z3.BitVecSort(64), z3.BoolSort()
N, M, K, J, Q, DT = z3.BitVec("number of attributes", 64), z3.BitVec("number of others", 64), z3.BitVec("K", 64), z3.BitVec("J", 64), z3.BitVec("queried name", 64), z3.BitVec("data type", 32)
NAME = z3.Function("name of the attribute", B64, B64)          # names are numbered by their text
IN, AT = z3.Array("mapped names", B64, BOOL), z3.Array("mapped positions", B64, B64)
MAP = r".*unordered_map<.*>::"
def A(u, n): return field(u, "Attribute", n)
class Names:
    """attributes at a list with given names, and the name index as a function from names to positions"""
    def __init__(s, u, n=N): s.u, s.n, s.E = u, n, A(u, "__size__"); s.D = Obj("attributes", simp(U(n) * s.E), True); s.this, s.q = Obj("this", field(u, "Schema", "__size__"), True), Obj("queried text", 32, True)
    def init(s, ex, st, full=False):
        s.full = full
        for o in (s.D, s.this, s.q): ex.objs[o.id] = o
        ex.bounded(st, s.n); st.ghost["in"], st.ghost["at"] = IN, AT; st.ghost["dup"] = None
        for k in range(3): st.ghost[f"in{k}"], st.ghost[f"at{k}"] = z3.BoolVal(False), BV(0, 64)
    def vec(s, ex, st, p):
        m = s.u.mods[0]; e = simp(U(s.n) * s.E)
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(p.o, add(p.f, k)), Ptr(s.D, v), PT, m)
    def name(s, p):
        """the text at p"""
        if p.o is s.q and eqc(simp(p.f), 0): return Q
        if p.o is s.D:
            k = quot(simp(U(p.f) - A(s.u, "name_")), s.E)
            if k is not None: return NAME(bv(k, 64))
        raise ir.Unsupported("name of another object")
    def node(s, ex, st, n):
        o = Obj("map entry", 64, False); ex.objs[o.id] = o; ex.store(st, Ptr(o, 40), z3.Select(st.ghost["at"], n), I64, s.u.mods[0]); return Ptr(o, 0)
    def stubs(s):
        u = s.u
        def watched(ex, st, a, i):
            """as emplace; the index is only followed at the names Q, NAME(K), NAME(J) (arbitrary, so any name)"""
            n = s.name(a[1]); v = U(ex.load(st, a[2], I64)); ns = (Q, NAME(K), NAME(J)); g = st.ghost
            has = ex.freshb("mapped")
            for k in (2, 1, 0): has = z3.If(n == ns[k], g[f"in{k}"], has)
            t, f = fork(st, has, z3.Not(has)); t.ghost["dup"] = n
            for k in range(3): f.ghost[f"in{k}"] = z3.Or(g[f"in{k}"], n == ns[k]); f.ghost[f"at{k}"] = z3.If(n == ns[k], v, g[f"at{k}"])
            o = Obj("map entry", 64, True); ex.objs[o.id] = o; return [(t, ("ret", [Ptr(o, 0), 0])), (f, ("ret", [Ptr(o, 0), 1]))]
        def chain(ex, st, n):
            ns = (Q, NAME(K), NAME(J)); g = st.ghost; has, at = ex.freshb("mapped"), ex.fresh("position")
            for k in (2, 1, 0): has, at = z3.If(n == ns[k], g[f"in{k}"], has), z3.If(n == ns[k], g[f"at{k}"], at)
            return has, at
        def find(ex, st, a, i):
            if not s.full:
                n = s.name(a[1]); has, at = chain(ex, st, n); t, f = fork(st, has, z3.Not(has)); t.ghost["dup"] = n
                o = Obj("map entry", 64, False); ex.objs[o.id] = o; ex.store(t, Ptr(o, 40), at, I64, s.u.mods[0]); return [(t, ("ret", Ptr(o, 0))), (f, ("ret", NULL))]
            n = s.name(a[1]); has = z3.Select(st.ghost["in"], n); t, f = fork(st, has, z3.Not(has)); return [(t, ("ret", s.node(ex, t, n))), (f, ("ret", NULL))]
        def count(ex, st, a, i):
            if not s.full: st.ghost["dup"] = s.name(a[1]); return z3.If(chain(ex, st, s.name(a[1]))[0], BV(1, 64), BV(0, 64))
            return z3.If(z3.Select(st.ghost["in"], s.name(a[1])), BV(1, 64), BV(0, 64))
        return [R(MAP + r"(try_)?emplace<", watched), R(MAP + r"find\(", find), R(MAP + r"(count|contains)\(", count), R(MAP + r"c?end\(\)", lambda ex, st, a, i: NULL), R(MAP + r"(~?unordered_map\(\)|reserve\()", nop), R(r"std::vector<mlio::Attribute.*>::~vector\(\)", nop)]
def index_of(v, s): return quot(simp(U(v) if is_c(v) else v), s.E)
def spec_schema(u):
    fn = r"mlio::Schema::Schema\("; W = Names(u); av = Obj("attribute vector", 24, True)
    def setup(ex, st): W.init(ex, st); ex.objs[av.id] = av; W.vec(ex, st, Ptr(av, 0)); return args_of(u, fn, {0: Ptr(W.this, 0), 1: Ptr(av, 0)})
    def inv(st, i, k): j = 1 if k is K else 2; return z3.Implies(z3.ULT(k, i), z3.And(st.ghost[f"in{j}"], st.ghost[f"at{j}"] == k))
    def back(st, i, j, n): a = st.ghost[f"at{j}"]; return z3.Implies(st.ghost[f"in{j}"], z3.And(z3.ULT(a, i), NAME(a) == n))
    def same(st): g = st.ghost; return z3.And(*[z3.Implies(a == b, z3.And(g[f"in{i}"] == g[f"in{j}"], g[f"at{i}"] == g[f"at{j}"])) for i, a, j, b in ((0, Q, 1, NAME(K)), (0, Q, 2, NAME(J)), (1, NAME(K), 2, NAME(J)))])
    def cands(sn):
        r = [("one entry per name", same(sn.st))]; st = sn.st
        ix = [(n, U(v)) for n, (v, w) in sn.ints.items() if w == 64]
        for n, p in sn.ptrs.items():
            if p.o is W.D:
                k = quot(simp(p.f), W.E)
                if k is None: continue
                k = U(k); r.append((f"{n} in the list", z3.ULE(k, N)))
                for m, v in list(ix): r.append((f"{n} is {m}", k == v))
                r += [(f"before {n} K", inv(st, k, K)), (f"before {n} J", inv(st, k, J)), (f"mapped before {n} Q", back(st, k, 0, Q))]
        for n, v in ix:
            r += [(f"{n}<=N", z3.ULE(v, N)), (f"before {n} K", inv(st, v, K)), (f"before {n} J", inv(st, v, J)), (f"mapped before {n} Q", back(st, v, 0, Q))]
        return r
    def post(ex, st, out):
        q = z3.BitVec("name q", 64)
        if out[0] == "throw":
            d = st.ghost["dup"]; ex.cover("refused"); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument"))
            a = st.ghost["at0"]; yield "ensures: refused only for a name that is there twice", I1(False) if d is None else z3.Implies(d == Q, z3.And(z3.ULT(a, N), NAME(a) == Q)); return
        ex.cover("created", N != 0); o, n = vec_of(ex, st, W.this, field(u, "Schema", "attributes_")); yield "ensures: the attributes given", z3.And(I1(o is W.D), n == N * W.E)
        g = st.ghost
        yield "ensures: every name is mapped to the position of its attribute", z3.Implies(z3.ULT(K, N), z3.And(g["in1"], g["at1"] == K))
        yield "ensures: names are unique", z3.Implies(z3.And(z3.ULT(K, N), z3.ULT(J, N), NAME(K) == NAME(J)), K == J)
        yield "ensures: other names are not mapped", z3.Implies(g["in0"], z3.And(z3.ULT(g["at0"], N), NAME(g["at0"]) == Q))
    return dict(name="Schema::Schema", fn=fn, setup=setup, post=post, covers=["refused", "created"], cands=[cands], stubs=W.stubs(), opts=dict(watch=[K, J], scale={W.D.id: W.E}), budget=60)
OUT = 16
def spec_index(u):
    fn = r"mlio::Schema::get_index\("; W = Names(u); out = outobj("result", 16)
    def setup(ex, st): W.init(ex, st, True); ex.objs[out.id] = out; return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(W.this, 0), "name": Ptr(W.q, 0)})
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        v = o[1]; val, eng = (v[0], v[1]) if isinstance(v, list) else (cell(ex, st, out, 0, I64), cell(ex, st, out, 8, I8))
        e = z3.Extract(0, 0, bv(eng, 8)) == 1; ex.cover("found", e); ex.cover("not found", z3.Not(e)); yield "ensures: found exactly if an attribute has the name", e == z3.Select(IN, Q)
        yield "ensures: the position of the attribute", z3.Implies(e, U(val) == z3.Select(AT, Q))
    f = u.one(fn)
    if not any(n == "agg.result" for n, _ in f.params):
        def setup(ex, st): W.init(ex, st, True); return args_of(u, fn, {"this": Ptr(W.this, 0), "name": Ptr(W.q, 0)})
    return dict(name="Schema::get_index", fn=fn, setup=setup, post=post, covers=["found", "not found"], stubs=W.stubs(), budget=60)
def Ef(u, n): return field(u, "Example", n)
def spec_example(u):
    fn = r"mlio::Example::Example\("; W = Names(u); F = Obj("features", U(M) * 8, True); this, sp, fv = Obj("this", Ef(u, "__size__"), False), Obj("schema pointer", 8, True), Obj("feature vector", 24, True)
    def setup(ex, st):
        W.init(ex, st)
        for o in (this, sp, fv): ex.objs[o.id] = o
        words(ex, st, F, z3.Array("feature pointers", B64, B64)); ex.bounded(st, M); setvec(ex, st, Ptr(fv, 0), F, M); W.vec(ex, st, Ptr(W.this, field(u, "Schema", "attributes_"))); ex.store(st, Ptr(sp, 0), Ptr(W.this, 0), PT, u.mods[0])
        return args_of(u, fn, {0: Ptr(this, 0), 1: Ptr(sp, 0), 2: Ptr(fv, 0)})
    def post(ex, st, out):
        if out[0] == "throw": ex.cover("refused"); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument")); yield "ensures: refused only for another number of features", M != N; return
        ex.cover("created", N != 0); yield "ensures: a feature for every attribute", M == N; s = cell(ex, st, this, Ef(u, "schema_"), PT); yield "ensures: the schema and the features given", z3.And(I1(isinstance(s, Ptr) and s.o is W.this), holds(ex, st, this, Ef(u, "features_"), F, M))
    return dict(name="Example::Example", fn=fn, setup=setup, post=post, covers=["refused", "created"], stubs=REFS + W.stubs() + [R(r"std::vector<mlio::Intrusive_ptr<mlio::Tensor>.*>::~vector\(\)", nop)], budget=60)
def spec_find(u):
    fn = r"mlio::Example::find_feature\("; W = Names(u); F = Obj("features", U(N) * 8, True); this, out = Obj("this", Ef(u, "__size__"), True), outobj("result", 8); known = {}
    def elem(ex, st, i):
        o = Obj("feature", None, True); known[o.id] = i; ex.objs[o.id] = o; return Ptr(o, 0)
    def index(ex, st, a, i):
        """contract of get_index and the constructor: the position of the attribute with the name"""
        n = W.name(a[-1]); has = z3.Select(IN, n); at = z3.Select(AT, n); t, f = fork(st, z3.And(has, z3.ULT(at, N), NAME(at) == n), z3.Not(has))
        if len(a) == 3:
            for s, e, v in ((t, 1, at), (f, 0, BV(0, 64))): ex.store(s, a[0], v, I64, u.mods[0]); ex.store(s, Ptr(a[0].o, add(a[0].f, 8)), e, I8, u.mods[0])
            return [(t, ("ret", None)), (f, ("ret", None))]
        return [(t, ("ret", [at, 1])), (f, ("ret", [0, 0]))]
    def setup(ex, st):
        W.init(ex, st, True)
        for o in (this, out): ex.objs[o.id] = o
        words(ex, st, F, z3.Array("feature pointers", B64, B64)); setvec(ex, st, Ptr(this, Ef(u, "features_")), F, N); W.vec(ex, st, Ptr(W.this, field(u, "Schema", "attributes_"))); ex.store(st, Ptr(this, Ef(u, "schema_")), Ptr(W.this, 0), PT, u.mods[0])
        return args_of(u, fn, {0: Ptr(out, 0), "this": Ptr(this, 0), "name": Ptr(W.q, 0)})
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, out, 0, PT)
        if isinstance(p, Ptr) and p.o is not None: ex.cover("found"); k = known.get(p.o.id); yield "ensures: the feature at the position of the attribute with the name", I1(False) if k is None else z3.And(z3.Select(IN, Q), z3.ULT(bv(k, 64), N), NAME(bv(k, 64)) == Q)
        else: ex.cover("not found"); yield "ensures: nothing only if no attribute has the name", z3.Not(z3.Select(IN, Q))
    return dict(name="Example::find_feature", fn=fn, setup=setup, post=post, covers=["found", "not found"], stubs=REFS + [R(r"mlio::Schema::get_index\(", index)] + W.stubs(), opts=dict(elems={F.id: elem}), budget=60)
# ---- equality
def spec_attr_eq(u):
    fn = r"mlio::operator==\(mlio::Attribute const&"; L, R_ = Obj("lhs", A(u, "__size__"), True), Obj("rhs", A(u, "__size__"), True); SAME = {n: z3.Bool("same " + n) for n in ("name_", "shape_", "strides_")}; DL, DR = z3.BitVec("lhs type", 32), z3.BitVec("rhs type", 32); SL, SR = z3.BitVec("lhs sparse", 8), z3.BitVec("rhs sparse", 8)
    def same(n):
        def h(ex, st, a, i):
            """equality of the standard containers"""
            if a[0].o is a[1].o: return True
            for f in SAME:
                if all(is_c(x.f) and x.f == A(u, f) for x in a[:2]): return SAME[f]
            raise ir.Unsupported("comparison of other parts")
        return h
    def setup(ex, st):
        for o, d, s in ((L, DL, SL), (R_, DR, SR)): ex.objs[o.id] = o; ex.store(st, Ptr(o, A(u, "data_type_")), d, I32, u.mods[0]); ex.store(st, Ptr(o, A(u, "sparse_")), s, I8, u.mods[0]); st.assume(z3.ULE(s, 1))
        return args_of(u, fn, {0: Ptr(L, 0), 1: Ptr(R_, 0)})
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        r = asbool(out[1]); r = r if z3.is_expr(r) else z3.BoolVal(bool(r)); ex.cover("equal", r); ex.cover("different", z3.Not(r)); yield "ensures: equal exactly if all parts are", r == z3.And(*SAME.values(), DL == DR, SL == SR)
    return dict(name="operator==(Attribute)", fn=fn, setup=setup, post=post, covers=["equal", "different"], stubs=[R(r"bool std::operator==<(char|unsigned long|long)[,>]", same(None))], budget=60)
def spec_schema_eq(u):
    fn = r"mlio::operator==\(mlio::Schema const&"; X, Y = Names(u, N), Names(u, M); EQ = z3.Function("attributes at the position are equal", B64, BOOL)
    def eq(ex, st, a, i):
        p, q = a[:2]
        if {id(p.o), id(q.o)} != {id(X.D), id(Y.D)}: raise ir.Unsupported("comparison of other attributes")
        k, l = quot(simp(p.f), X.E), quot(simp(q.f), X.E)
        if k is None or l is None: raise ir.Unsupported("comparison inside an attribute")
        ex.oblige(st, "requires: attributes of the lists at the same position", z3.And(bv(k, 64) == bv(l, 64), z3.ULT(bv(k, 64), N), z3.ULT(bv(k, 64), M))); st.ghost["last"] = bv(k, 64); return EQ(bv(k, 64))
    def setup(ex, st):
        for W in (X, Y): W.init(ex, st); W.vec(ex, st, Ptr(W.this, field(u, "Schema", "attributes_")))
        st.ghost["last"] = BV((1 << 64) - 1, 64); return args_of(u, fn, {0: Ptr(X.this, 0), 1: Ptr(Y.this, 0)})
    def cands(sn):
        r = []; ps = [(n, p) for n, p in sn.ptrs.items() if p.o in (X.D, Y.D)]
        for n, p in ps:
            k = quot(simp(p.f), X.E)
            if k is None: continue
            k = U(k); r += [(f"{n} in the list", z3.ULE(k, N)), (f"{n} in the other list", z3.ULE(k, M)), (f"equal before {n}", z3.Implies(z3.ULT(K, k), EQ(K)))]
            for m, q in ps:
                l = quot(simp(q.f), X.E)
                if m < n and l is not None: r.append((f"{n} and {m} together", k == U(l)))
        for n, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{n}<=N", z3.ULE(U(v), N)), (f"equal before {n}", z3.Implies(z3.ULT(K, U(v)), EQ(K)))]
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        r = asbool(out[1]); r = r if z3.is_expr(r) else z3.BoolVal(bool(r)); L = st.ghost["last"]; ex.cover("equal", z3.And(r, N != 0)); ex.cover("different", z3.Not(r))
        yield "ensures: equal only with the same number of equal attributes", z3.Implies(r, z3.And(N == M, z3.Implies(z3.ULT(K, N), EQ(K)))); yield "ensures: different only for another number or a different attribute", z3.Implies(z3.Not(r), z3.Or(N != M, z3.And(z3.ULT(L, N), z3.Not(EQ(L)))))
    return dict(name="operator==(Schema)", fn=fn, setup=setup, post=post, covers=["equal", "different"], cands=[cands], stubs=[R(r"mlio::operator==\(mlio::Attribute const&", eq)], opts=dict(watch=[K], scale={X.D.id: X.E, Y.D.id: Y.E}), budget=60)
def spec_attr(u):
    fn = r"mlio::Attribute::Attribute\(std::"; D, S, R_ = Obj("shape data", U(N) * 8, True), Obj("stride data", U(M) * 8, True), Obj("row-major strides", U(N) * 8, True); this, nm, sv, tv = Obj("this", A(u, "__size__"), False), Obj("name", 32, True), Obj("shape vector", 24, True), Obj("stride vector", 24, True); SP = z3.BitVec("sparse", 1)
    def default(ex, st, a, i):
        """contract of Tensor::default_strides (P19)"""
        ex.oblige(st, "requires: the shape of the attribute", holds(ex, st, a[1].o, a[1].f, D, N)); r = st.copy(); setvec(ex, r, a[0], R_, N); t = st.copy(); t.ghost["large"] = True; return [(r, ("ret", None)), (t, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def move(ex, st, a, i): st.ghost["name"] = I1(a[0].o is this and eqc(simp(a[0].f), A(u, "name_")) and a[1].o is nm)
    def setup(ex, st):
        for o in (this, nm, sv, tv): ex.objs[o.id] = o
        words(ex, st, D, SHAPE); words(ex, st, S, STR); words(ex, st, R_, z3.Array("row-major", B64, B64)); ex.bounded(st, N, M); setvec(ex, st, Ptr(sv, 0), D, N); setvec(ex, st, Ptr(tv, 0), S, M); st.ghost["name"] = I1(False); st.ghost["large"] = False
        return args_of(u, fn, {0: Ptr(this, 0), "name": Ptr(nm, 0), "dt": DT, "shape": Ptr(sv, 0), "strides": Ptr(tv, 0), "sparse": SP})
    def post(ex, st, out):
        l = st.ghost["large"]
        if out[0] == "throw": ex.cover("refused"); yield "ensures: refused as an invalid argument", I1(is_exc(out, "invalid_argument")); yield "ensures: refused only for strides of another rank or a too large shape", z3.Or(z3.And(I1(l), M == 0), z3.And(M != 0, M != N)); return
        ex.cover("created", z3.And(M != 0, N != 0)); yield "ensures: name, type and sparseness as given", z3.And(st.ghost["name"], bv(cell(ex, st, this, A(u, "data_type_"), I32), 32) == DT, (z3.Extract(0, 0, bv(cell(ex, st, this, A(u, "sparse_"), I8), 8)) == SP))
        yield "ensures: the shape given", holds(ex, st, this, A(u, "shape_"), D, N); yield "ensures: the strides given, of the same rank", z3.Implies(M != 0, z3.And(N == M, holds(ex, st, this, A(u, "strides_"), S, M)))
        yield "ensures: the row-major strides if none are given", z3.Implies(z3.And(M == 0, N != 0), holds(ex, st, this, A(u, "strides_"), R_, N))
    VL, VU = r"std::vector<long, std::allocator<long> ?>::", r"std::vector<unsigned long, std::allocator<unsigned long> ?>::"
    return dict(name="Attribute::Attribute", fn=fn, setup=setup, post=post, covers=["refused", "created"], stubs=[R(r"mlio::Tensor::default_strides\(", default), R(r"std::(__cxx11::)?basic_string<char.*>::basic_string\(std::(__cxx11::)?basic_string<char[^&]*&&\)", move), R(VL + r"~vector\(\)", nop), R(VU + r"~vector\(\)", nop), R(r"operator delete", nop)], budget=60)
def specs(u): return [spec_schema, spec_index, spec_example, spec_find, spec_attr_eq, spec_schema_eq, spec_attr]
HARNESS = dict(file="P22.cc", srcs=lambda: build.core(), secs=5)
NOTE = "construction, lookup and equality are proved for every attribute list and name; hashes (equal parts, equal hash) are covered by the bounded stand-in only."
ASSUME = ["std::unordered_map is a partial function of the key's text: emplace inserts if absent, find and count report it", "equality of std::string and of vectors of numbers by the standard's contract", "lists of attributes below 2^44", "strides given or row-major by P19's contract of Tensor::default_strides"]
