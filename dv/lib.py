"""Contracts and state builders shared by the checks: memory slices, records,
optionals, intrusive pointers."""
import re, z3
from . import ir
from .sym import *
from .spec import cell
from .build import field
from .stubs import R, nop, I8, I64, PT, thrower
I32 = ir.IntTy(32)
SIZE_MAX = 1 << 47      # no object is larger than the user address space

def args_of(u, fn, named):
    """argument list in the function's own parameter order; named: name (or
    position) -> value"""
    f = u.one(fn)
    out = []
    for i, (n, t) in enumerate(f.params):
        if n in named: out.append(named[n])
        elif i in named: out.append(named[i])
        else: raise ir.Unsupported(f"{fn}: parameter {n} has no value")
    return out

def bytes_obj(name, size=None):
    """an input byte buffer of (symbolic) exact size with arbitrary contents"""
    n = z3.BitVec(name + ".size", 64) if size is None else size
    o = Obj(name, n, True, mode="bytes")
    o.const = False
    return o, n, z3.Array(name + "[]", z3.BitVecSort(64), z3.BitVecSort(8))

class Slice:
    """layout-aware view of a Memory_slice"""
    def __init__(s, u):
        s.blk, s.beg, s.end = (field(u, "Memory_slice", f) for f in ("block_", "beg_", "end_"))
        s.size = field(u, "Memory_slice", "__size__") or 24
        s.m = u.mods[0]
    def set(s, ex, st, o, off, data, b, e, blk=None):
        ex.store(st, Ptr(o, off + s.blk), Ptr(blk, 0) if blk is not None else NULL, PT, s.m)
        ex.store(st, Ptr(o, off + s.beg), Ptr(data, b) if data is not None else NULL, PT, s.m)
        ex.store(st, Ptr(o, off + s.end), Ptr(data, e) if data is not None else NULL, PT, s.m)
    def get(s, ex, st, o, off):
        b = cell(ex, st, o, off + s.beg, PT); e = cell(ex, st, o, off + s.end, PT); k = cell(ex, st, o, off + s.blk, PT)
        return b, e, k
    def empty(s, ex, st, o, off):
        b, e, _ = s.get(ex, st, o, off)
        return bo(ex.icmp(st, "eq", b, e, PT))
    def within(s, ex, st, o, off, data):
        """(begin, end) offsets if the slice lies in data"""
        b, e, _ = s.get(ex, st, o, off)
        if isinstance(b, Ptr) and b.o is data and isinstance(e, Ptr) and e.o is data: return bv(b.f, 64), bv(e.f, 64)
        return None

class OptRecord:
    def __init__(s, u):
        s.payload = field(u, "Record", "payload_"); s.kind = field(u, "Record", "kind_")
        s.eng = field(u, "Record", "__size__")
        s.size = s.eng + 8
    def engaged(s, ex, st, o, off=0):
        v = cell(ex, st, o, off + s.eng, I8)
        return bv(v, 8) == 1
    def put_none(s, ex, st, p):
        ex.store(st, Ptr(p.o, add(p.f, s.eng)), 0, I8, ex.unit.mods[0])
    def put(s, ex, st, p, sl, data, b, e, blk=None, kind=0):
        sl.set(ex, st, p.o, p.f + s.payload, data, b, e, blk)
        ex.store(st, Ptr(p.o, p.f + s.kind), kind, I32, ex.unit.mods[0])
        ex.store(st, Ptr(p.o, p.f + s.eng), 1, I8, ex.unit.mods[0])

def outobj(name, size):
    return Obj(name, size, False)

# reference counting: the pointed-to object's life time is not the subject of
# these contracts (P15 verifies the counter itself)
REFS = [R(r"mlio::Intrusive_ptr<.*>::(inc|dec)rement_ref_count\(\)", nop), R(r"mlio::intrusive_ptr_(inc|dec)_ref\(", nop)]

def is_exc(out, *names):
    return bool(out[0] == "throw" and out[1].ty and any(n in out[1].ty for n in names))

def outs(*alts):
    return list(alts)

def fork(st, *conds):
    """copies of st, one per condition, with the condition assumed"""
    r = []
    for c in conds:
        n = st.copy(); n.assume(c); r.append(n)
    return r

# ---- virtual calls
def vtable(u, cls, rx=None):
    """slot -> demangled method of a concrete class of the unit, from its own
    virtual table (so that the slots follow the code)"""
    for m in u.mods:
        for n, g in m.globals.items():
            if n.startswith("_ZTV") and re.search(rx or r"\b%s$" % re.escape(cls), re.sub(r"^vtable for ", "", dem(n))) and g.init is not None:
                a = g.init.a[0]
                names = [e.v if e.k == "global" else None for e in a.a]
                return [dem(x) if x else None for x in names[2:]]
    raise ir.Unsupported("virtual table of " + cls + " not found")

def vinit(ex, st, o, key, off=0):
    """gives the object at o+off an abstract virtual table"""
    vt = Obj("vtable(" + key + ")", None, True); vt.tag = "vtable"; vt.cls = key
    ex.store(st, Ptr(o, off), Ptr(vt, 0), PT, ex.unit.mods[0])

def dispatch(tables, handlers):
    """opts['virtual'] handler.  tables: key -> slot list; handlers: key ->
    [(regex on the method's name, handler(ex, st, args, inst))]"""
    def h(ex, st, c, args, inst):
        if not isinstance(c, VFn) or c.obj not in tables: return None
        t = tables[c.obj]
        m = t[c.slot] if c.slot < len(t) else None
        for rx, f in handlers.get(c.obj, ()):
            if m and re.search(rx, m):
                ex.used.add("virtual " + re.sub(r"^mlio::(detail::)?\w+::", c.obj + "::", m))
                r = f(ex, st, args, inst)
                return r if isinstance(r, list) else [(st, ("ret", r))]
        raise ir.Unsupported(f"virtual call of {c.obj} slot {c.slot} ({m})")
    return h

# ---- sequences of instances
class OptInstance:
    """layout of optional<Instance>; an instance of an abstract sequence is
    identified by its index and by the address its payload starts at"""
    def __init__(s, u):
        s.store, s.index, s.bits = (field(u, "Instance", f) for f in ("store_", "index_", "bits_"))
        s.eng = field(u, "Instance", "__size__"); s.size = s.eng + 8
        s.sl = Slice(u); s.biteng = s.bits + s.sl.size; s.m = u.mods[0]
    def put(s, ex, st, p, n, store, data, blk=None):
        o, f = p.o, p.f
        ex.store(st, Ptr(o, f + s.store), Ptr(store, 0), PT, s.m)
        ex.store(st, Ptr(o, f + s.index), n, I64, s.m)
        s.sl.set(ex, st, o, f + s.bits, data, n, n, blk)
        ex.store(st, Ptr(o, f + s.biteng), 1, I8, s.m)
        ex.store(st, Ptr(o, f + s.eng), 1, I8, s.m)
    def put_none(s, ex, st, p):
        ex.store(st, Ptr(p.o, p.f + s.eng), 0, I8, s.m)
    def engaged(s, ex, st, o, off=0):
        return bv(cell(ex, st, o, off + s.eng, I8), 8) == 1
    def is_number(s, ex, st, o, off, n, store, data):
        """the instance at o+off is the n-th of the sequence"""
        d = cell(ex, st, o, off + s.store, PT); w = s.sl.within(ex, st, o, off + s.bits, data)
        if not (isinstance(d, Ptr) and d.o is store) or w is None: return z3.BoolVal(False)
        return z3.And(bv(cell(ex, st, o, off + s.index, I64), 64) == n, w[0] == n, bv(cell(ex, st, o, off + s.biteng, I8), 8) == 1)

class Inner:
    """abstract inner instance reader: its sequence is 0..N-1, its cursor the
    ghost 'pos'; read_instance returns the next one, nothing at the end, or
    fails"""
    def __init__(s, u, limits=()):
        s.u = u; s.limits = limits; s.I = OptInstance(u)
        s.N = z3.BitVec("dataset.size", 64); s.pos0 = z3.BitVec("pos0", 64)
        s.obj = Obj("inner", None, True); s.store = Obj("data store", None, True)
        s.data = Obj("payloads", None, True, mode="bytes"); s.blk = Obj("payload block", None, True)
    def init(s, ex, st):
        vinit(ex, st, s.obj, "Inner")
        st.ghost["pos"] = s.pos0; st.ghost["ended"] = BV(0, 8)
        st.assume(z3.ULE(s.pos0, s.N), z3.ULE(s.N, BV(1 << 50, 64)))
    def read(s, ex, st, a, i):
        out = a[0]; pos = st.ghost["pos"]
        r = []
        n = st.copy(); n.assume(z3.ULT(pos, s.N))
        s.I.put(ex, n, out, pos, s.store, s.data, s.blk); n.ghost["pos"] = pos + 1; r.append((n, ("ret", None)))
        n = st.copy(); n.assume(pos == s.N); s.I.put_none(ex, n, out); n.ghost["ended"] = BV(1, 8); r.append((n, ("ret", None)))
        n = st.copy(); n.ghost["err"] = True; r.append((n, ("throw", Thrown("_ZTI11inner_error"))))
        return r
    def reset(s, ex, st, a, i):
        st.ghost["pos"] = BV(0, 64); st.ghost["ended"] = BV(0, 8)
    def virtual(s, more=None):
        t = {"Inner": vtable(s.u, "Core_instance_reader")}
        h = {"Inner": [(r"::read_instance\(", s.read), (r"::reset\(", s.reset)]}
        if more: t.update(more[0]); h.update(more[1])
        return dispatch(t, h)
    def cands(s, sn):
        g = sn.st.ghost; p = g["pos"]
        r = [("in the dataset", z3.And(z3.ULE(s.pos0, p), z3.ULE(p, s.N))), ("not ended", g["ended"] == 0)]
        for b in s.limits: r.append((f"pos within {b}", z3.ULE(p - s.pos0, b)))
        for n, (v, w) in sn.ints.items():
            if w == 64:
                v = bv(v, 64); e = sn.entry.get(n)
                if e is not None: r.append((f"pos==pos0+{n}", p == s.pos0 + v - bv(e, 64)))
                r.append((f"pos+{n} const", p + v == sn.entry["ghosts"]["pos"] + bv(e, 64) if e is not None else z3.BoolVal(False)))
        return r

NONE64 = (1 << 64) - 1
def quot(t, e):
    """t / e for a sum of multiples of e, else None"""
    if is_c(t):
        if t >= 1 << 63: t -= 1 << 64
        return (t // e) & NONE64 if t % e == 0 else None
    t = z3.simplify(t) if z3.is_expr(t) else t
    if z3.is_bv_value(t): return quot(t.as_long(), e)
    k = t.decl().kind()
    if k == z3.Z3_OP_BADD:
        q = [quot(c, e) for c in t.children()]
        if any(x is None for x in q): return None
        r = bv(q[0], 64)
        for x in q[1:]: r = r + bv(x, 64)
        return r
    if k == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)):
        c = t.arg(0).as_long()
        if c >= 1 << 63: c -= 1 << 64
        if c % e == 0:
            r = BV(c // e & NONE64, 64)
            for x in t.children()[1:]: r = r * x
            return r
    if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() == 0:        # x << n
        n = t.arg(1).size(); x = t.arg(0)
        if x.decl().kind() == z3.Z3_OP_EXTRACT and x.decl().params() == [63 - n, 0] and x.arg(0).size() == 64 and (1 << n) % e == 0:
            return x.arg(0) * BV((1 << n) // e, 64) if (1 << n) != e else x.arg(0)
    return None

class AVec:
    """std::vector<T> of instances (T is Instance or optional<Instance>),
    replaced by its library contract: a sequence of n elements, the k-th being
    instance arr[k] of the inner sequence.  Element objects are moved, copied
    and swapped through T's own operations, which are modelled on the sequence
    when they touch an element.  Optionally one arbitrary instance J is
    followed: loc is the only position that may hold it."""
    def __init__(s, inner, T, opt, off, owner, J=None, name="buffer"):
        s.inner, s.I, s.u, s.opt, s.off, s.owner, s.J = inner, inner.I, inner.u, opt, off, owner, J
        s.T = T; s.E = s.I.size if opt else s.I.eng
        s.D = Obj(name + " elements", None, True); s.D.tag = "avec"
        s.kn, s.ka, s.kl = name + ".n", name + ".arr", name + ".loc"
        s.n0, s.a0, s.l0 = z3.BitVec(name + ".n0", 64), z3.Array(name + "0", z3.BitVecSort(64), z3.BitVecSort(64)), z3.BitVec(name + ".loc0", 64)
    def init(s, ex, st, n=None):
        ex.objs[s.D.id] = s.D
        st.ghost[s.kn] = s.n0 if n is None else bv(n, 64); st.ghost[s.ka] = s.a0
        st.assume(z3.ULE(s.n0, BV(1 << 40, 64)))
        if s.J is not None:
            st.ghost[s.kl] = s.l0; st.ghost["dup"] = BV(0, 8)
            st.assume(z3.Or(s.l0 == NONE64, z3.And(z3.ULT(s.l0, s.n0), s.J != NONE64)))
    def mine(s, p): return isinstance(p, Ptr) and p.o is s.owner and is_c(p.f) and p.f == s.off
    def vec(s, p):
        if not s.mine(p): raise ir.Unsupported("another vector")
    def idx(s, ex, st, p):
        k = quot(p.f, s.E)
        if k is None:
            k = z3.UDiv(bv(p.f, 64), BV(s.E, 64)); ex.oblige(st, "safety:pointer to a whole element", k * s.E == bv(p.f, 64))
        return bv(k, 64)
    def at(s, ex, st, p):
        """index of the element p points to"""
        k = s.idx(ex, st, p)
        ex.oblige(st, f"safety:element inside the vector ({ex.where(st)})", z3.ULT(k, st.ghost[s.kn]))
        if s.J is not None: st.assume((z3.Select(st.ghost[s.ka], k) == s.J) == (st.ghost[s.kl] == k))
        return k
    def hollow(s, ex, st):
        g = ex.fresh("moved-from"); st.assume(z3.UGT(g, s.inner.N)); return g
    def write(s, ex, st, k, v):
        st.ghost[s.ka] = z3.Store(st.ghost[s.ka], k, v)
        if s.J is not None:
            l = st.ghost[s.kl]; l2 = z3.If(l == k, BV(NONE64, 64), l)
            st.ghost["dup"] = z3.If(z3.And(v == s.J, l2 != NONE64), BV(1, 8), st.ghost["dup"])
            st.ghost[s.kl] = z3.simplify(z3.If(v == s.J, k, l2))
    def isel(s, p): return isinstance(p, Ptr) and p.o is s.D
    def value(s, ex, st, p, consume):
        """the instance number an object holds"""
        if s.isel(p):
            k = s.at(ex, st, p); v = z3.Select(st.ghost[s.ka], k)
            if consume: s.write(ex, st, k, s.hollow(ex, st))
            return v
        if not isinstance(p, Ptr) or not is_c(p.f): raise ir.Unsupported("instance at an unknown address")
        i = bv(cell(ex, st, p.o, p.f + s.I.index, I64), 64)
        ok = s.I.is_number(ex, st, p.o, p.f, i, s.inner.store, s.inner.data)
        if s.opt: ok = z3.And(ok, s.I.engaged(ex, st, p.o, p.f))
        if not ex.valid(st, ok): i = s.hollow(ex, st)
        if consume: ex.store(st, Ptr(p.o, p.f + s.I.index), s.hollow(ex, st), I64, s.u.mods[0])
        return i
    def put(s, ex, st, p, v):
        if s.isel(p): return s.write(ex, st, s.at(ex, st, p), v)
        s.I.put(ex, st, p, v, s.inner.store, s.inner.data, s.inner.blk) if s.opt else s.put_raw(ex, st, p, v)
    def put_raw(s, ex, st, p, v):
        I = s.I
        ex.store(st, Ptr(p.o, p.f + I.store), Ptr(s.inner.store, 0), PT, I.m); ex.store(st, Ptr(p.o, p.f + I.index), v, I64, I.m)
        I.sl.set(ex, st, p.o, p.f + I.bits, s.inner.data, v, v, s.inner.blk); ex.store(st, Ptr(p.o, p.f + I.biteng), 1, I8, I.m)
    def stubs(s):
        T = re.escape(s.T); V = rf"std::vector<{T}, std::allocator<{T} ?> ?>::"
        g = lambda st: st.ghost[s.kn]
        def body(ex, st, a, inst):
            f = ex.unit.func(inst.x[0].v, st.frames[-1].fn.mod)
            if f is None: raise ir.Unsupported("no body for " + str(inst.x[0].v))
            ex.inlined.add(dem(inst.x[0].v))
            return [(st, ("push", f, a))]
        def on_elem(h):
            def w(ex, st, a, i): return h(ex, st, a, i) if any(s.isel(x) for x in a[:2]) else body(ex, st, a, i)
            return w
        def size(ex, st, a, i): s.vec(a[0]); return g(st)
        def empty(ex, st, a, i): s.vec(a[0]); return simp(g(st) == 0)
        def begin(ex, st, a, i): s.vec(a[0]); return Ptr(s.D, 0)
        def end(ex, st, a, i): s.vec(a[0]); return Ptr(s.D, simp(g(st) * s.E))
        def index(ex, st, a, i):
            s.vec(a[0]); ex.oblige(st, f"safety:vector index in range ({ex.where(st)})", z3.ULT(bv(a[1], 64), g(st))); return Ptr(s.D, simp(bv(a[1], 64) * s.E))
        def back(ex, st, a, i):
            s.vec(a[0]); ex.oblige(st, "safety:back of a non-empty vector", g(st) != 0); return Ptr(s.D, simp((g(st) - 1) * s.E))
        def front(ex, st, a, i):
            s.vec(a[0]); ex.oblige(st, "safety:front of a non-empty vector", g(st) != 0); return Ptr(s.D, 0)
        def drop(ex, st, lo):     # elements from lo on are destroyed
            if s.J is not None:
                l = st.ghost[s.kl]; st.ghost[s.kl] = z3.simplify(z3.If(z3.And(l != NONE64, z3.UGE(l, lo)), BV(NONE64, 64), l))
            st.ghost[s.kn] = z3.simplify(lo)
        def pop(ex, st, a, i):
            s.vec(a[0]); ex.oblige(st, "safety:pop_back of a non-empty vector", g(st) != 0); drop(ex, st, g(st) - 1)
        def clear(ex, st, a, i):
            s.vec(a[0]); drop(ex, st, BV(0, 64))
        def emplace(ex, st, a, i):
            s.vec(a[0])
            if s.isel(a[1]): raise ir.Unsupported("element pushed into its own vector")
            v = s.value(ex, st, a[1], True); n = g(st)
            st.ghost[s.kn] = n + 1
            # the new element did not exist before: nothing is overwritten
            st.ghost[s.ka] = z3.Store(st.ghost[s.ka], n, v)
            if s.J is not None:
                l = st.ghost[s.kl]
                st.ghost["dup"] = z3.If(z3.And(v == s.J, l != NONE64), BV(1, 8), st.ghost["dup"]); st.ghost[s.kl] = z3.simplify(z3.If(v == s.J, n, l))
            return Ptr(s.D, simp(n * s.E))
        def erase(ex, st, a, i):
            s.vec(a[0]); lo, hi = s.idx(ex, st, a[1]), s.idx(ex, st, a[2])
            ex.oblige(st, "safety:erased range in the vector", z3.And(z3.ULE(lo, hi), z3.ULE(hi, g(st))))
            if not ex.valid(st, hi == g(st)): raise ir.Unsupported("erase in the middle")
            drop(ex, st, lo); return Ptr(s.D, simp(lo * s.E))
        def resize(ex, st, a, i):
            s.vec(a[0]); n = bv(a[1], 64); ex.oblige(st, "requires: resize only shrinks", z3.ULE(n, g(st))); drop(ex, st, n)
        def move_ctor(ex, st, a, i): s.put_new(ex, st, a[0], s.value(ex, st, a[1], True))
        def copy_ctor(ex, st, a, i): s.put_new(ex, st, a[0], s.value(ex, st, a[1], False))
        def move_as(ex, st, a, i): s.put(ex, st, a[0], s.value(ex, st, a[1], True)); return a[0]
        def copy_as(ex, st, a, i): s.put(ex, st, a[0], s.value(ex, st, a[1], False)); return a[0]
        def exchange(ex, st, a, i):     # sret, element, replacement (an empty optional)
            if not s.isel(a[1]): return body(ex, st, a, i)
            s.put_new(ex, st, a[0], s.value(ex, st, a[1], True))
        def swap(ex, st, a, i):
            x = s.value(ex, st, a[0], True); y = s.value(ex, st, a[1], True)
            s.put(ex, st, a[0], y); s.put(ex, st, a[1], x)
        def shuffle(ex, st, a, i):
            h = st.ghost.get("rng")
            ex.oblige(st, "requires: the whole buffer is shuffled", z3.And(z3.BoolVal(s.isel(a[0]) and s.isel(a[1])), bv(a[0].f, 64) == 0, bv(a[1].f, 64) == g(st) * s.E))
            ex.oblige(st, "requires: only the reader's own generator is used", z3.BoolVal(s.rng is not None and isinstance(a[2], Ptr) and a[2].o is s.rng[0] and eqc(a[2].f, s.rng[1])))
            ex.freshn += 1; st.ghost[s.ka] = z3.Const(f"shuffled!{ex.freshn}", s.a0.sort())
            if s.J is not None:
                l = st.ghost[s.kl]; n = ex.fresh("loc"); st.assume((n == NONE64) == (l == NONE64), z3.Or(n == NONE64, z3.ULT(n, g(st)))); st.ghost[s.kl] = n
            st.ghost["draws"] = st.ghost.get("draws", BV(0, 64)) + 1
        r = [R(V + r"size\(\)", size), R(V + r"empty\(\)", empty), R(V + r"c?begin\(\)", begin), R(V + r"c?end\(\)", end), R(V + r"(operator\[\]|at)\(", index), R(V + r"back\(\)", back), R(V + r"front\(\)", front),
             R(V + r"pop_back\(\)", pop), R(V + r"clear\(\)", clear), R(rf"({T}& |auto |void )?{V}(emplace_back|push_back)(<.*>)?\(", emplace), R(V + r"erase\(.*,.*,", erase), R(V + r"erase\(__gnu_cxx::__normal_iterator<[^,]*, .*>, __gnu", erase),
             R(V + r"resize\(unsigned long\)", resize), R(V + r"reserve\(", nop), R(V + r"~vector\(\)", nop), R(V + "(data)", begin),
             R(rf"{T}::(Instance|optional)\({T}&&\)", on_elem(move_ctor)), R(rf"{T}::(Instance|optional)\({T} const&\)", on_elem(copy_ctor)),
             R(rf"{T}::operator=\({T}&&\)", on_elem(move_as)), R(rf"{T}::operator=\({T} const&\)", on_elem(copy_as)), R(rf"{T} std::exchange<{T}", exchange),
             R(rf"(std::enable_if<.*>::type |void )std::swap<{T}|_ZSt4swapIN4mlio6abi_v18InstanceE", on_elem(swap)), R(r"void std::iter_swap<", lambda ex, st, a, i: on_elem(swap)(ex, st, a, i)),
             R(r"void std::shuffle<", shuffle)]
        return r
    rng = None
    def put_new(s, ex, st, p, v):
        if s.isel(p): raise ir.Unsupported("construction in the vector")
        s.I.put(ex, st, p, v, s.inner.store, s.inner.data, s.inner.blk) if s.opt else s.put_raw(ex, st, p, v)

def eqc(a, b):
    return is_c(a) and is_c(b) and a == b
