from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, vec_of, words

SRCS = ["src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc"]
U = lambda x: bv(x, 64)
I1 = lambda b: z3.BoolVal(bool(b))
I32 = ir.IntTy(32)
B64, B8 = z3.BitVecSort(64), z3.BitVecSort(8)
B, B2, K = z3.BitVec("bit width", 8), z3.BitVec("other bit width", 8), z3.BitVec("K", 64); REG, OTH = z3.Array("registers", B64, B8), z3.Array("other registers", B64, B8); HASH = z3.BitVec("hash", 32)
m_of = lambda b: BV(1, 64) << z3.ZeroExt(56, b)
def F(u, n): return field(u, "HyperLogLog", n)
class Sketch:
    """2^b registers with the given values; b is between 4 and 30 (representation invariant, established by the constructor)"""
    def __init__(s, u, name, b, arr): s.u, s.b, s.arr = u, b, arr; s.this = Obj(name, F(u, "__size__"), True); s.D = Obj(name + " registers", m_of(b), True, mode="bytes")
    def init(s, ex, st):
        u = s.u; m = u.mods[0]; n = m_of(s.b); st.assume(z3.UGE(s.b, BV(4, 8)), z3.ULE(s.b, BV(30, 8)))
        for o in (s.this, s.D): ex.objs[o.id] = o
        ex.omw(st, s.D).arr = s.arr; ex.store(st, Ptr(s.this, F(u, "b_")), s.b, I8, m); ex.store(st, Ptr(s.this, F(u, "m_")), z3.Extract(31, 0, n), I32, m)
        for k, f in ((0, 0), (8, n), (16, n)): ex.store(st, Ptr(s.this, F(u, "M_") + k), Ptr(s.D, f), PT, m)
    def reg(s, ex, st, k): return z3.Select(ex.om(st, s.D).arr, k)
    def same(s, ex, st):
        c = lambda n, t, w: bv(cell(ex, st, s.this, F(s.u, n), t), w); p, e = cell(ex, st, s.this, F(s.u, "M_"), PT), cell(ex, st, s.this, F(s.u, "M_") + 8, PT)
        if not (isinstance(p, Ptr) and isinstance(e, Ptr) and p.o is s.D and e.o is s.D): return z3.BoolVal(False)
        return z3.And(c("b_", I8, 8) == s.b, c("m_", I32, 32) == z3.Extract(31, 0, m_of(s.b)), U(p.f) == 0, U(e.f) == m_of(s.b))
VC = r"std::vector<unsigned char, std::allocator<unsigned char> ?>::"
def spec_ctor(u):
    fn = r"hll::HyperLogLog::HyperLogLog\("; this = Obj("this", F(u, "__size__"), False)
    def vec(ex, st, a, i):
        """vector(n, value): n elements of that value"""
        o = Obj("new registers", U(a[1]), False, mode="bytes"); ex.objs[o.id] = o; ex.omw(st, o).arr = z3.K(B64, bv(ex.load(st, a[2], I8, u.mods[0]), 8)); st.ghost["D"] = o
        for k, f in ((0, 0), (8, a[1]), (16, a[1])): ex.store(st, Ptr(a[0].o, add(a[0].f, k)), Ptr(o, f), PT, u.mods[0])
    def setup(ex, st): ex.objs[this.id] = this; st.ghost["D"] = None; return args_of(u, fn, {0: Ptr(this, 0), 1: B})
    def post(ex, st, out):
        ok = z3.And(z3.UGE(B, BV(4, 8)), z3.ULE(B, BV(30, 8)))
        if out[0] == "throw": ex.cover("refused"); yield "ensures: refused only out of range", z3.Not(ok); yield "ensures: an invalid argument", I1(is_exc(out, "invalid_argument")); yield "ensures: refused before anything is allocated", I1(st.ghost["D"] is None); return
        ex.cover("created"); yield "ensures: the parameter is in range", ok
        o, n = vec_of(ex, st, this, F(u, "M_")); yield "ensures: a register for every index", z3.And(I1(o is not None and o is st.ghost["D"]), n == m_of(B)) if o is not None else False
        yield "ensures: bit width and number of registers", z3.And(bv(cell(ex, st, this, F(u, "b_"), I8), 8) == B, bv(cell(ex, st, this, F(u, "m_"), I32), 32) == z3.Extract(31, 0, m_of(B)))
        if o is not None: yield "ensures: every register is zero", z3.Implies(z3.ULT(K, m_of(B)), z3.Select(ex.om(st, o).arr, K) == 0)
    return dict(name="HyperLogLog", fn=fn, setup=setup, post=post, covers=["refused", "created"], stubs=[R(VC + r"vector\(unsigned long, unsigned char const&", vec)], budget=60)
def clz(x):
    r = BV(32, 32)
    for i in range(32): r = z3.If(z3.Extract(i, i, x) == 1, BV(31 - i, 32), r)
    return r
def spec_add(u):
    fn = r"hll::HyperLogLog::add\("; S = Sketch(u, "this", B, REG); sv, text = Obj("view", 16, True), Obj("text", None, True, mode="bytes"); TN = z3.BitVec("text size", 64)
    def hash_(ex, st, a, i):
        """the hash of the text with the fixed seed"""
        ex.oblige(st, "requires: the whole text is hashed, with the fixed seed", z3.And(I1(isinstance(a[0], Ptr) and a[0].o is text and eqc(simp(a[0].f), 0)), U(a[1]) == TN, bv(a[2], 32) == 0)); return HASH
    def setup(ex, st):
        S.init(ex, st); ex.objs[sv.id] = sv; ex.store(st, Ptr(sv, 0), TN, I64, u.mods[0]); ex.store(st, Ptr(sv, 8), Ptr(text, 0), PT, u.mods[0]); return args_of(u, fn, {0: Ptr(S.this, 0), 1: Ptr(sv, 0)})
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        w = z3.ZeroExt(24, B); index = z3.ZeroExt(32, z3.LShR(HASH, 32 - w)); c = clz(HASH << w); rank = z3.Extract(7, 0, z3.If(z3.UGT(c, 32 - w), 32 - w, c) + 1)
        new, old = S.reg(ex, st, K), z3.Select(REG, K); ex.cover("raised", z3.And(K == index, new != old)); ex.cover("kept", z3.And(K == index, z3.UGT(old, rank)))
        yield "ensures: the size is unchanged", S.same(ex, st)
        yield "ensures: only the register selected by the hash changes", z3.Implies(z3.And(z3.ULT(K, m_of(B)), K != index), new == old)
        yield "ensures: the selected register becomes the maximum of its value and the rank", z3.Implies(K == index, new == z3.If(z3.UGT(old, rank), old, rank))
        yield "lemma: adding again changes nothing", z3.Implies(K == index, z3.UGE(new, rank))
    return dict(name="HyperLogLog::add", fn=fn, setup=setup, post=post, covers=["raised", "kept"], stubs=[R(r"XXH32\(", hash_)], budget=60)
def maxof(a, b): return z3.If(z3.UGT(a, b), a, b)
def loopix(sn, S):
    r = []
    for n, (v, w) in sn.ints.items():
        if w in (32, 64): r.append((n, z3.ZeroExt(32, bv(v, 32)) if w == 32 else U(v)))
    for n, p in sn.ptrs.items():
        if p.o in [s.D for s in S]: r.append((n, U(p.f)))
    return r
def spec_merge(u):
    fn = r"hll::HyperLogLog::merge\("; S, O = Sketch(u, "this", B, REG), Sketch(u, "other", B2, OTH)
    def setup(ex, st): S.init(ex, st); O.init(ex, st); return args_of(u, fn, {0: Ptr(S.this, 0), 1: Ptr(O.this, 0)})
    def cands(sn):
        r = []; k = S.reg(sn.ex, sn.st, K); a, b = z3.Select(REG, K), z3.Select(OTH, K)
        for n, v in loopix(sn, [S, O]): r += [(f"{n} in range", z3.ULE(v, m_of(B))), (f"before {n}", z3.Implies(z3.ULT(K, v), k == maxof(a, b))), (f"from {n}", z3.Implies(z3.UGE(K, v), k == a))]
        return r
    def post(ex, st, out):
        k = S.reg(ex, st, K); a, b = z3.Select(REG, K), z3.Select(OTH, K); inr = z3.ULT(K, m_of(B))
        if out[0] == "throw": ex.cover("refused"); yield "ensures: refused only for another number of registers", B != B2; yield "ensures: nothing is changed", z3.And(S.same(ex, st), z3.Implies(inr, k == a)); return
        ex.cover("merged"); yield "ensures: same number of registers", B == B2; yield "ensures: the size is unchanged", S.same(ex, st); yield "ensures: every register is the maximum of both", z3.Implies(inr, k == maxof(a, b)); yield "ensures: the other sketch is unchanged", z3.Implies(inr, O.reg(ex, st, K) == b)
    return dict(name="HyperLogLog::merge", fn=fn, setup=setup, post=post, covers=["refused", "merged"], cands=[cands], stubs=[R(r"std::(__cxx11::)?basic_(stringstream|ostream|string|ios)|std::.*operator<<|std::char_traits", lambda ex, st, a, i: a[0] if a else None)], opts=dict(watch=[K]), budget=60)
def spec_clear(u):
    fn = r"hll::HyperLogLog::clear\("; S = Sketch(u, "this", B, REG)
    def setup(ex, st): S.init(ex, st); return args_of(u, fn, {0: Ptr(S.this, 0)})
    def cands(sn):
        r = []; k = S.reg(sn.ex, sn.st, K)
        for n, v in loopix(sn, [S]): r += [(f"{n} in range", z3.ULE(v, m_of(B))), (f"before {n}", z3.Implies(z3.ULT(K, v), k == 0))]
        return r
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        ex.cover("cleared", z3.Select(REG, K) != 0); yield "ensures: every register is zero", z3.Implies(z3.ULT(K, m_of(B)), S.reg(ex, st, K) == 0); yield "ensures: the size is unchanged", S.same(ex, st)
    return dict(name="HyperLogLog::clear", fn=fn, setup=setup, post=post, covers=["cleared"], cands=[cands], opts=dict(watch=[K]), budget=60)
def spec_lemma(u):
    """order independence and union: from the contracts of add and merge"""
    a, b, c = (z3.BitVec(n, 8) for n in "abc")
    def setup(ex, st): S = Sketch(u, "this", B, REG); S.init(ex, st); return args_of(u, r"hll::HyperLogLog::register_size\(", {0: Ptr(S.this, 0)})
    def post(ex, st, out):
        ex.cover("end of lemma"); yield "ensures: the number of registers", bv(out[1], 32) == z3.Extract(31, 0, m_of(B))
        yield "lemma: the order of additions does not matter", maxof(maxof(a, b), c) == maxof(maxof(a, c), b); yield "lemma: adding twice is adding once", maxof(maxof(a, b), b) == maxof(a, b)
        yield "lemma: merging after adding is adding after merging", maxof(maxof(a, b), c) == maxof(maxof(a, c), b); yield "lemma: a merge with itself changes nothing", maxof(a, a) == a; yield "lemma: merging commutes", maxof(a, b) == maxof(b, a)
    return dict(name="register_size and the laws of the maximum", fn=r"hll::HyperLogLog::register_size\(", setup=setup, post=post, covers=["end of lemma"], budget=60)
def specs(u): return [spec_ctor, spec_add, spec_merge, spec_clear, spec_lemma]
HARNESS = dict(file="P27.cc", srcs=lambda: build.core() + ["src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc"], secs=5)
NOTE = "construction, add, merge and clear are proved for every precision, register content and hash value, order independence and union as lemmas over their contracts; the floating point estimate is covered by the bounded stand-in (an independent formula over the same registers)."
ASSUME = ["XXH32 is a function of the text and the seed (its bits are compared with an independent implementation in the bounded stand-in)", "vector(n, value) of the standard library by its contract", "stringstream operations only build the message"]
