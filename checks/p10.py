from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

IR = "src/mlio/instance_readers/"
SRCS = [IR + "shuffled_instance_reader.cc", IR + "core_instance_reader.cc"]
J, W = z3.BitVecs("J shuffle_window", 64)
SEED, DSEED = z3.BitVecs("shuffle_seed device_seed", 64); HAS, RE = z3.BitVecs("has_seed reshuffle_each_epoch", 8)
MAX = BV(NONE64, 64)
U = lambda x: bv(x, 64)
def f(u, n): return field(u, "Shuffled_instance_reader", n)

def params(u, ex, st):
    o = Obj("params", field(u, "Data_reader_params", "__size__"), True); P = lambda n: field(u, "Data_reader_params", n)
    ex.store_raw(st, o, P("shuffle_window"), 8, W); ex.store_raw(st, o, P("shuffle_seed"), 8, SEED)
    ex.store(st, Ptr(o, P("shuffle_seed") + 8), HAS, I8, u.mods[0]); ex.store(st, Ptr(o, P("reshuffle_each_epoch")), RE, I8, u.mods[0])
    st.assume(z3.ULE(HAS, BV(1, 8)), z3.ULE(RE, BV(1, 8)))
    return o

class World:
    """reader state before a call.  J is an arbitrary instance: it is waiting
    in the buffer, was delivered before, or was not read from the inner reader
    yet.  Object invariant: the window is not zero (zero stands for the largest
    number), the buffer is not larger than the window, buffered instances were
    read before, the draws range over the window."""
    def __init__(s, u):
        s.u = u; s.inner = Inner(u); s.I = s.inner.I; s.win = z3.BitVec("window", 64)
        s.this = Obj("this", f(u, "__size__"), True)
        s.V = AVec(s.inner, "mlio::Instance", False, f(u, "buffer_"), s.this, J); s.V.rng = (s.this, f(u, "mt_"))
        s.has = z3.BitVec("inner_has_instance", 8)
    def init(s, ex, st):
        u = s.u; s.inner.init(ex, st); s.V.init(ex, st); s.p = params(u, ex, st)
        S = lambda n, v, t: ex.store(st, Ptr(s.this, f(u, n)), v, t, u.mods[0])
        S("params_", Ptr(s.p, 0), PT); S("inner_", Ptr(s.inner.obj, 0), PT); S("shuffle_window_", s.win, I64); S("inner_has_instance_", s.has, I8)
        d = f(u, "dist_")
        ex.store_raw(st, s.this, d, 8, BV(0, 64)); ex.store_raw(st, s.this, d + 8, 8, s.win - 1)
        V = s.V
        st.ghost["draws"] = BV(0, 64)
        st.assume(s.win == z3.If(W == 0, MAX, W), z3.ULE(s.has, BV(1, 8)), z3.ULE(V.n0, s.win), z3.Implies(s.has == 0, s.inner.pos0 == s.inner.N), z3.ULT(J, s.inner.N),
                  z3.Or(V.l0 == NONE64, z3.ULT(J, s.inner.pos0)), z3.Implies(s.win == 1, V.n0 == 0))
    def stubs(s):
        def draw(ex, st, a, i):
            # uniform_int_distribution: a number between its two bounds
            lo, hi = U(cell(ex, st, a[0].o, a[0].f, I64)), U(cell(ex, st, a[0].o, a[0].f + 8, I64))
            ex.oblige(st, "requires: only the reader's own generator is used", z3.BoolVal(a[1].o is s.this and eqc(a[1].f, f(s.u, "mt_"))))
            ex.oblige(st, "requires: the bounds of the distribution are in order", z3.ULE(lo, hi))
            r = ex.fresh("random"); st.assume(z3.ULE(lo, r), z3.ULE(r, hi)); st.ghost["draws"] = st.ghost["draws"] + 1
            return r
        return REFS + s.V.stubs() + [R(r"unsigned long std::uniform_int_distribution<unsigned long>::operator\(\)<", draw), R(r"void std::vector<mlio::Instance", nop)]
    def cands(s, sn):
        g = sn.st.ghost; V = s.V; n, l, p = g[V.kn], g[V.kl], g["pos"]
        e = sn.entry["ghosts"]
        return s.inner.cands(sn) + [("buffer within window", z3.ULE(n, s.win)), ("buffer small", z3.ULE(n, BV(1 << 51, 64))), ("buffer grows as read", n - e[V.kn] == p - e["pos"]),
            ("J in at most one place", g["dup"] == 0), ("J in the buffer", z3.Or(l == NONE64, z3.ULT(l, n))), ("J read before", z3.Or(l == NONE64, z3.ULT(J, p))),
            ("J not lost", z3.Implies(z3.And(z3.ULE(s.inner.pos0, J), z3.ULT(J, p)), l != NONE64)), ("J not found again", z3.Implies(z3.ULT(J, s.inner.pos0), (l == NONE64) == (V.l0 == NONE64))),
            ("no draws", g["draws"] == 0)]

def spec_read(u):
    w = World(u); I = w.I; V = w.V; inner = w.inner
    out = outobj("result", I.size)
    def setup(ex, st):
        w.init(ex, st); return [Ptr(out, 0), Ptr(w.this, 0)]
    def post(ex, st, o):
        g = st.ghost; n, l, p = g[V.kn], g[V.kl], g["pos"]
        had = V.l0 != NONE64; new = z3.And(z3.ULE(inner.pos0, J), z3.ULT(J, p)); has = l != NONE64
        h2 = bv(cell(ex, st, w.this, f(u, "inner_has_instance_"), I8), 8)
        yield "ensures: the buffer never exceeds the window", z3.ULE(n, w.win)
        yield "ensures: no instance is in the buffer twice", g["dup"] == 0
        yield "ensures: the end of the inner reader is not forgotten", z3.Implies(h2 == 0, p == inner.N)
        if o[0] == "throw":
            yield "ensures: only an error of the inner reader is passed on", z3.BoolVal(bool(g.get("err")))
            yield "ensures: an error loses no instance", z3.And(z3.Implies(z3.Or(had, new), has), z3.Implies(has, z3.Or(had, new))); return
        eng = simp(I.engaged(ex, st, out))
        if eng is True:
            x = U(cell(ex, st, out, I.index, I64)); isJ = x == J
            ex.cover("delivered now", isJ); ex.cover("from the last buffer", h2 == 0); ex.cover("window of one", w.win == 1); ex.cover("random", g["draws"] == 1)
            yield "ensures: what is delivered is an instance of the dataset", I.is_number(ex, st, out, 0, x, inner.store, inner.data)
            yield "ensures: an instance read or waiting is delivered or waits on, not both", z3.Implies(z3.Or(had, new), z3.Xor(isJ, has))
            yield "ensures: an instance delivered before or not yet read is not delivered", z3.Implies(z3.Not(z3.Or(had, new)), z3.And(z3.Not(isJ), z3.Not(has)))
            yield "ensures: a window of one keeps the order", z3.Implies(w.win == 1, z3.And(x == inner.pos0, p == inner.pos0 + 1))
            yield "ensures: a window that does not end early is filled before an instance is chosen", z3.Or(p == inner.N, w.win == 1, n == w.win - 1)
        elif eng is False:
            ex.cover("end")
            yield "ensures: the end is reported only when every instance was read and delivered", z3.And(p == inner.N, n == 0, z3.Not(had), z3.Not(new))
        else: yield "ensures: an instance or the end", False
    return dict(name="Shuffled_instance_reader::read_instance_core", fn=r"mlio::detail::Shuffled_instance_reader::read_instance_core\(", setup=setup, post=post, cands=[w.cands], stubs=w.stubs(),
                covers=["delivered now", "from the last buffer", "window of one", "random", "end"], opts=dict(virtual=inner.virtual()))

MT = r"std::mersenne_twister_engine<.*>::"
def rng_stubs(w):
    def seed(ex, st, a, i):
        ex.oblige(st, "requires: the reader's own generator is seeded", z3.BoolVal(a[0].o is w.this and eqc(a[0].f, f(w.u, "mt_")))); st.ghost["mt"] = U(a[1])
    def device(ex, st, a, i): return z3.Extract(31, 0, DSEED)
    return [R(MT + r"(mersenne_twister_engine|seed)\(unsigned long\)", seed), R(r"std::random_device::operator\(\)\(\)", device), R(r"std::random_device::", nop)]

def spec_reset(u):
    w = World(u); V = w.V; inner = w.inner; s0 = z3.BitVec("seed", 64); m0 = z3.BitVec("generator", 64)
    def setup(ex, st):
        w.init(ex, st); ex.store(st, Ptr(w.this, f(u, "seed_")), s0, I64, u.mods[0]); st.ghost["mt"] = m0
        return [Ptr(w.this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        g = st.ghost
        yield "ensures: the next epoch starts with an empty buffer at the start of the dataset", z3.And(g["pos"] == 0, g[V.kn] == 0, g[V.kl] == NONE64, bv(cell(ex, st, w.this, f(u, "inner_has_instance_"), I8), 8) == 1)
        yield "ensures: without reshuffling the generator starts as it did in the first epoch", z3.Implies(RE == 0, g["mt"] == s0)
        yield "ensures: with reshuffling the generator goes on", z3.Implies(RE == 1, g["mt"] == m0)
        yield "ensures: the seed is kept", U(cell(ex, st, w.this, f(u, "seed_"), I64)) == s0
        ex.cover("reshuffle", RE == 1); ex.cover("repeat", RE == 0)
    return dict(name="Shuffled_instance_reader::reset_core", fn=r"mlio::detail::Shuffled_instance_reader::reset_core\(", setup=setup, post=post, stubs=w.stubs() + rng_stubs(w), covers=["reshuffle", "repeat"], opts=dict(virtual=inner.virtual()))

def spec_ctor(u):
    w = World(u); inner = w.inner; arg = outobj("inner argument", 8); this = w.this
    def vctor(ex, st, a, i): st.ghost[w.V.kn] = BV(0, 64)
    def setup(ex, st):
        inner.init(ex, st); w.V.init(ex, st); p = params(u, ex, st); ex.store(st, Ptr(arg, 0), Ptr(inner.obj, 0), PT, u.mods[0]); st.ghost["mt"] = z3.BitVec("mt0", 64)
        w.p = p
        return [Ptr(this, 0), Ptr(p, 0), Ptr(arg, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        C = lambda n: U(cell(ex, st, this, f(u, n), I64))
        win = C("shuffle_window_"); d = f(u, "dist_"); s = C("seed_")
        lo, hi = U(cell(ex, st, this, d, I64)), U(cell(ex, st, this, d + 8, I64))
        yield "ensures: a window of zero stands for the whole dataset, any other is kept", win == z3.If(W == 0, MAX, W)
        yield "ensures: the draws range over the window", z3.Implies(z3.And(win != 1, W != 0), z3.And(lo == 0, hi == win - 1))
        yield "ensures: the draws are well defined", z3.ULE(lo, hi)
        yield "ensures: a given seed decides the generator", z3.Implies(z3.And(HAS == 1, win != 1), z3.And(st.ghost["mt"] == SEED, s == SEED))
        yield "ensures: the generator starts from the kept seed", st.ghost["mt"] == s
        yield "ensures: the reader starts empty", z3.And(st.ghost[w.V.kn] == 0, bv(cell(ex, st, this, f(u, "inner_has_instance_"), I8), 8) == 1)
        i, p = cell(ex, st, this, f(u, "inner_"), PT), cell(ex, st, this, f(u, "params_"), PT)
        yield "ensures: the given reader and parameters are used", z3.BoolVal(isinstance(i, Ptr) and i.o is inner.obj and isinstance(p, Ptr) and p.o is w.p)
        ex.cover("seeded", HAS == 1); ex.cover("whole dataset", W == 0)
    return dict(name="Shuffled_instance_reader::Shuffled_instance_reader", fn=r"mlio::detail::Shuffled_instance_reader::Shuffled_instance_reader\(", setup=setup, post=post, covers=["seeded", "whole dataset"],
                stubs=[R(r"std::vector<mlio::Instance, std::allocator<mlio::Instance> ?>::vector\(\)", vctor)] + w.stubs() + rng_stubs(w) + [R(r"mlio::detail::Instance_reader(_base)?::~", nop)], opts=dict(virtual=inner.virtual()))

def specs(u): return [spec_read, spec_reset, spec_ctor]
HARNESS = dict(file="P10.cc", srcs=build.core, secs=6)
NOTE = "read, reset and the constructor of the shuffled reader are proved for every window and dataset size by following one arbitrary instance; std::vector, std::shuffle (a permutation drawing only from the given generator), std::mt19937_64 and std::uniform_int_distribution stand as library contracts. The real readers are additionally run and their deliveries counted."
ASSUME = ["the inner reader delivers its sequence and then the end (P06, P13)", "datasets of at most 2^50 instances, buffers of at most 2^40", "libstdc++: vector, shuffle, mt19937_64 and uniform_int_distribution behave as documented and are deterministic functions of the generator"]
