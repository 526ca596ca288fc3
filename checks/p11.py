from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

IR = "src/mlio/instance_readers/"
SRCS = [IR + "sampled_instance_reader.cc", IR + "core_instance_reader.cc"]
J = z3.BitVec("J", 64)
F32 = z3.Float32()
RATIO = z3.FP("sample_ratio", F32); HAS = z3.BitVec("has_ratio", 8)
U = lambda x: bv(x, 64)
WIN = 100
def f(u, n): return field(u, "Sampled_instance_reader", n)
def keep_fp(n):
    """the ratio-th part of n instances, rounded down"""
    return z3.fpToSBV(z3.RTZ(), z3.fpMul(z3.RNE(), RATIO, z3.fpUnsignedToFP(z3.RNE(), n, F32)), z3.BitVecSort(64))
# the proofs follow it as an opaque function: where the code computes a number
# from floating point, the term is first shown to be keep_fp(n)
keep = z3.Function("keep", z3.BitVecSort(64), z3.BitVecSort(64))
def opaque(ex, st, t, n):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.decl().kind() in (z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_FPA_TO_UBV): out.append(x)
        else: todo += x.children()
    for x in out:
        k = keep_fp(n)
        if not z3.simplify(x).eq(z3.simplify(k)):
            s = z3.Solver(); s.set("timeout", 20000); s.add(in_range(RATIO), z3.ULE(n, BV(WIN, 64)), x != k)
            if s.check() != z3.unsat: continue
        st.assume(z3.ULE(keep(n), n))      # lemma "kept part" of the constructor's contract
        t = z3.substitute(t, (x, keep(n)))
    return t
def in_range(r): return z3.And(z3.fpGT(r, z3.FPVal(0.0, F32)), z3.fpLT(r, z3.FPVal(1.0, F32)))

def params(u, ex, st):
    o = Obj("params", field(u, "Data_reader_params", "__size__"), True); off = field(u, "Data_reader_params", "sample_ratio")
    ex.store(st, Ptr(o, off), Fp(RATIO, 32), ir.FloatTy(32) if hasattr(ir, "FloatTy") else ir.FLOAT, u.mods[0]); ex.store(st, Ptr(o, off + 4), HAS, I8, u.mods[0])
    st.assume(z3.ULE(HAS, BV(1, 8)))
    return o

class World:
    """the buffer holds the kept part of the window that started at 'base':
    element k is instance base+k; elements before the cursor are delivered"""
    def __init__(s, u):
        s.u = u; s.inner = Inner(u); s.I = s.inner.I
        s.this = Obj("this", f(u, "__size__"), True); s.V = AVec(s.inner, "std::optional<mlio::Instance>", True, f(u, "buffer_"), s.this)
        s.base, s.cur = z3.BitVecs("window.start cursor", 64)
    def init(s, ex, st):
        u, V = s.u, s.V; s.inner.init(ex, st); V.init(ex, st); s.p = params(u, ex, st)
        ex.store(st, Ptr(s.this, f(u, "params_")), Ptr(s.p, 0), PT, u.mods[0]); ex.store(st, Ptr(s.this, f(u, "inner_")), Ptr(s.inner.obj, 0), PT, u.mods[0])
        ex.store(st, Ptr(s.this, f(u, "buffer_pos_")), Ptr(V.D, simp(s.cur * V.E)), PT, u.mods[0])
        st.ghost["wstart"] = s.inner.pos0; st.ghost["skipped"] = BV(0, 8)
        st.assume(HAS == 1, z3.ULE(s.cur, V.n0), z3.ULE(V.n0, BV(WIN, 64)), z3.ULE(s.base, s.inner.pos0), z3.Implies(V.n0 != 0, z3.ULE(s.base + V.n0, s.inner.pos0)),
                  z3.Implies(z3.ULT(J, V.n0), z3.Implies(z3.ULE(s.cur, J), z3.Select(V.a0, J) == s.base + J)),
                  z3.Implies(z3.ULT(s.cur, V.n0), z3.Select(V.a0, s.cur) == s.base + s.cur))
    def stubs(s):
        V = s.V
        base = V.stubs()
        clr = next(h for r, h in base if r.match(f"std::vector<{V.T}, std::allocator<{V.T} > >::clear()"))
        def clear(ex, st, a, i):
            clr(ex, st, a, i)
            # a window is left behind without a delivery only if it was full
            # and no part of it is to be kept
            g = st.ghost; m = g["pos"] - g["wstart"]
            g["skipped"] = z3.If(z3.Or(m == 0, z3.And(m == WIN, keep(BV(WIN, 64)) == 0)), g["skipped"], BV(1, 8))
            g["wstart"] = g["pos"]
        ers = next(h for r, h in base if r.match(f"std::vector<{V.T}, std::allocator<{V.T} > >::erase(__gnu_cxx::__normal_iterator<a, b>, __gnu_cxx::__normal_iterator<a, b>)"))
        def erase(ex, st, a, i):
            return ers(ex, st, [a[0]] + [Ptr(x.o, opaque(ex, st, bv(x.f, 64), st.ghost[V.kn])) for x in a[1:3]], i)
        return REFS + [R(rf"std::vector<{re.escape(V.T)}, std::allocator<{re.escape(V.T)} ?> ?>::erase\(", erase)] + [R(rf"std::vector<{re.escape(V.T)}, std::allocator<{re.escape(V.T)} ?> ?>::clear\(\)", clear)] + base
    def cands(s, sn):
        g = sn.st.ghost; V = s.V; n, arr, p, w = g[V.kn], g[V.ka], g["pos"], g["wstart"]
        r = s.inner.cands(sn)
        for nm, (v, wd) in sn.ints.items():
            if wd in (1, 8):
                b = bv(v, wd) if wd == 8 else bo(asbool(v))
                b = (b & 1) == 0 if wd == 8 else z3.Not(b)
                r.append((f"{nm} tells the end", z3.Implies(b, p == s.inner.N)))
                r.append((f"{nm} not ended", z3.Not(b)))
        r += [("window", z3.And(z3.ULE(w, p), z3.ULE(s.inner.pos0, w))), ("no more than a window", z3.ULE(n, BV(WIN, 64))), ("filled as read", n == p - w), ("J-th of the window", z3.Implies(z3.ULT(J, n), z3.Select(arr, J) == w + J)),
              ("first of the window", z3.Implies(n != 0, z3.Select(arr, BV(0, 64)) == w)), ("nothing skipped", g["skipped"] == 0), ("empty", n == 0),
              ("last window dropped", z3.Or(p == w, z3.And(p - w == WIN, keep(BV(WIN, 64)) == 0)))]
        return r

def spec_read(u):
    w = World(u); I, V, inner = w.I, w.V, w.inner
    out = outobj("result", I.size)
    def setup(ex, st): w.init(ex, st); return [Ptr(out, 0), Ptr(w.this, 0)]
    def post(ex, st, o):
        g = st.ghost; n, p, ws = g[V.kn], g["pos"], g["wstart"]
        if o[0] == "throw":
            yield "ensures: only an error of the inner reader is passed on", z3.BoolVal(bool(g.get("err"))); return
        more = z3.ULT(w.cur, V.n0)     # something of the current window is left
        eng = simp(I.engaged(ex, st, out))
        q = cell(ex, st, w.this, f(u, "buffer_pos_"), PT)
        yield "ensures: windows are left out only if nothing of them is to be kept", g["skipped"] == 0
        m = p - ws
        if eng is True:
            x = U(cell(ex, st, out, I.index, I64))
            ex.cover("next of the window", more); ex.cover("new window", z3.Not(more)); 
            yield "ensures: it is an instance of the dataset", I.is_number(ex, st, out, 0, x, inner.store, inner.data)
            yield "ensures: the rest of a window is delivered before the next one is read", z3.Implies(more, z3.And(x == w.base + w.cur, p == inner.pos0, n == V.n0))
            yield "ensures: a new window is full or the last one", z3.Implies(z3.Not(more), z3.And(z3.ULE(m, BV(WIN, 64)), z3.Or(m == WIN, p == inner.N)))
            yield "ensures: its leading ratio-th part, rounded down, is kept", z3.Implies(z3.Not(more), n == keep(m))
            yield "ensures: the first instance of the new window is delivered", z3.Implies(z3.Not(more), x == ws)
            nb = z3.If(more, w.base, ws); nc = z3.If(more, w.cur, BV(0, 64)) + 1
            yield "ensures: the cursor moves to the next instance", z3.BoolVal(False) if not (isinstance(q, Ptr) and q.o is V.D) else z3.And(U(q.f) == nc * V.E, z3.ULE(nc, n))
            yield "ensures: the rest of the window waits in order", z3.Implies(z3.And(z3.ULE(nc, J), z3.ULT(J, n)), z3.Select(g[V.ka], J) == nb + J)
        elif eng is False:
            ex.cover("end")
            yield "ensures: the end is reported only at the end of the dataset", z3.And(p == inner.N, z3.Not(more))
            yield "ensures: nothing of the last window was to be kept", z3.Or(m == 0, keep(m) == 0)
            yield "ensures: after the end it stays at the end", z3.BoolVal(False) if not (isinstance(q, Ptr) and q.o is V.D) else z3.And(n == 0, U(q.f) == 0)
        else: yield "ensures: an instance or the end", False
    return dict(name="Sampled_instance_reader::read_instance_core", fn=r"mlio::detail::Sampled_instance_reader::read_instance_core\(", setup=setup, post=post, cands=[w.cands], stubs=w.stubs(),
                covers=["next of the window", "new window", "end"], opts=dict(virtual=inner.virtual(), timeout=60000))

def spec_reset(u):
    w = World(u); V, inner = w.V, w.inner
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        q = cell(ex, st, w.this, f(u, "buffer_pos_"), PT)
        yield "ensures: the inner reader starts again and nothing waits", z3.And(st.ghost["pos"] == 0, st.ghost[V.kn] == 0, z3.BoolVal(isinstance(q, Ptr) and q.o is V.D), U(q.f) == 0)
    return dict(name="Sampled_instance_reader::reset_core", fn=r"mlio::detail::Sampled_instance_reader::reset_core\(", setup=setup, post=post, stubs=w.stubs(), opts=dict(virtual=inner.virtual()))

def spec_ctor(u):
    w = World(u); inner = w.inner; arg = outobj("inner argument", 8); this = w.this; V = w.V
    def vctor(ex, st, a, i): st.ghost[V.kn] = BV(0, 64)
    def setup(ex, st):
        inner.init(ex, st); V.init(ex, st); w.p = p = params(u, ex, st); ex.store(st, Ptr(arg, 0), Ptr(inner.obj, 0), PT, u.mods[0])
        st.ghost["wstart"] = inner.pos0; st.ghost["skipped"] = BV(0, 8)
        return [Ptr(this, 0), Ptr(p, 0), Ptr(arg, 0)]
    def post(ex, st, o):
        good = z3.And(HAS == 1, in_range(RATIO))
        if o[0] == "throw":
            ex.cover("refused")
            yield "ensures: only a ratio that is not strictly between zero and one is rejected", z3.And(z3.Not(good), z3.BoolVal(is_exc(o, "invalid_argument"))); return
        ex.cover("accepted")
        yield "ensures: the ratio is strictly between zero and one", good
        q = cell(ex, st, this, f(u, "buffer_pos_"), PT); i, p = cell(ex, st, this, f(u, "inner_"), PT), cell(ex, st, this, f(u, "params_"), PT)
        n = z3.BitVec("n", 64)
        yield "lemma: the kept part of a window is not larger than the window", z3.Implies(z3.ULE(n, BV(WIN, 64)), z3.ULE(keep_fp(n), n))
        yield "ensures: nothing waits", z3.And(st.ghost[V.kn] == 0, z3.BoolVal(isinstance(q, Ptr) and q.o is V.D), U(q.f) == 0)
        yield "ensures: the given reader and parameters are used", z3.BoolVal(isinstance(i, Ptr) and i.o is inner.obj and isinstance(p, Ptr) and p.o is w.p)
    return dict(name="Sampled_instance_reader::Sampled_instance_reader", fn=r"mlio::detail::Sampled_instance_reader::Sampled_instance_reader\(", setup=setup, post=post, covers=["refused", "accepted"],
                stubs=[R(rf"std::vector<{re.escape(V.T)}, std::allocator<{re.escape(V.T)} ?> ?>::vector\(\)", vctor)] + w.stubs() + [R(r"mlio::detail::Instance_reader(_base)?::~|std::unique_ptr<mlio::detail::Instance_reader.*>::~unique_ptr", nop)], opts=dict(virtual=inner.virtual()))

def specs(u): return [spec_read, spec_reset, spec_ctor]
HARNESS = dict(file="P11.cc", srcs=build.core, secs=6)
NOTE = "read, reset and the constructor of the sampled reader are proved for every ratio and dataset size; std::vector stands as a library contract. The rounded-down part is the single-precision product truncated. The real readers are additionally run against an independent selection."
ASSUME = ["the inner reader delivers its sequence and then the end (P06, P13)", "datasets of at most 2^50 instances", "std::vector behaves as documented"]
