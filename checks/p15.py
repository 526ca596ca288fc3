import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p04 import ALLOC, alloc, blk_obj, new_block

M = "src/mlio/memory/"
SRCS = [os.path.join(build.VERIF, "harness/ir/refs.cc"), M + "heap_memory_block.cc", M + "file_backed_memory_block.cc", M + "file_backed_memory_allocator.cc", M + "heap_memory_allocator.cc", M + "memory_block.cc", M + "util.cc"]
J = z3.BitVec("J", 64)       # any byte position
U = lambda x: bv(x, 64)
LIM = BV(1 << 46, 64)
MAP_FAILED = Ptr(None, (1 << 64) - 1)
N0, N1 = z3.BitVecs("old.size new.size", 64)
A0 = z3.Array("old[]", z3.BitVecSort(64), z3.BitVecSort(8))
MIN = z3.If(z3.ULT(N0, N1), N0, N1)
SUP = [R(r"mlio::(Mutable_memory_block|Memory_block)::~", nop), R(r"mlio::(Mutable_memory_block|Memory_block)::(Mutable_memory_block|Memory_block)\(", nop)]

# ---- the C library's heap and the file system, by their documented contracts
def fresh_data(ex, st, n, name):
    d = ex.new_obj(st, name, n, mode="bytes"); m = ex.omw(st, d); m.arr = ex.fresharr(name); return d, m
def keep(ex, st, m, old, n):
    """m's bytes below n are those of old"""
    if old is not None: st.assume(z3.Implies(z3.ULT(J, n), z3.Select(m.arr, J) == z3.Select(old, J)))
def give(ex, st, p):
    """p goes back to the heap"""
    if p.o is None: return
    ex.oblige(st, "requires: only a live allocation is freed or resized, by its start", z3.And(z3.BoolVal(ex.om(st, p.o).alive and getattr(p.o, "tag", "") == "malloc"), U(p.f) == 0))
    ex.omw(st, p.o).alive = False
def realloc(ex, st, a, i):
    p, n = a[0], U(a[1]); ex.oblige(st, "requires: realloc is not asked for nothing", n != 0)
    e = st.copy(); e.ghost["nomem"] = True; st.assume(z3.ULE(n, LIM))
    d, m = fresh_data(ex, st, n, "heap"); d.tag = "malloc"
    if p.o is not None:
        old = ex.om(st, p.o).arr; sz = U(p.o.size); give(ex, st, p); keep(ex, st, m, old, z3.If(z3.ULT(sz, n), sz, n))
    return [(st, ("ret", Ptr(d, 0))), (e, ("ret", NULL))]
def malloc(ex, st, a, i): return realloc(ex, st, [NULL, a[0]], i)
def free(ex, st, a, i): give(ex, st, a[0])
HEAP = [R(r"^realloc$", realloc), R(r"^malloc$", malloc), R(r"^free$", free)]

def disk(ex, st): return st.ghost["file"], st.ghost["file.size"]
def current(ex, st):
    """the file's bytes: those of its mapping while there is one"""
    m = st.ghost.get("map"); return ex.om(st, m).arr if m is not None else st.ghost["file"]
def mkstemp(ex, st, a, i):
    e = st.copy(); e.ghost["oserr"] = True; st.ghost["fd"] = fd = ex.fresh("fd", 32); st.assume(fd >= 0); st.ghost["file"] = ex.fresharr("empty file"); st.ghost["file.size"] = BV(0, 64); st.ghost["named"] = True
    return [(st, ("ret", fd)), (e, ("ret", (1 << 32) - 1))]
def isfd(ex, st, v):
    fd = st.ghost.get("fd"); ex.oblige(st, "requires: the block's own file", z3.BoolVal(False) if fd is None else bv(v, 32) == fd)
def ftruncate(ex, st, a, i):
    isfd(ex, st, a[0]); n = U(a[1]); e = st.copy(); e.ghost["oserr"] = True
    st.assume(z3.ULE(n, LIM))
    old, sz = current(ex, st), st.ghost["file.size"]; m = ex.fresharr("truncated"); st.assume(z3.Implies(z3.And(z3.ULT(J, n), z3.ULT(J, sz)), z3.Select(m, J) == z3.Select(old, J)))
    st.ghost["file"], st.ghost["file.size"] = m, n
    if st.ghost.get("map") is not None: ex.omw(st, st.ghost["map"]).arr = m
    return [(st, ("ret", 0)), (e, ("ret", (1 << 32) - 1))]
def mmap(ex, st, a, i):
    n = U(a[1]); isfd(ex, st, a[4])
    ex.oblige(st, "requires: the mapping lies in the file", z3.And(n != 0, z3.ULE(n, st.ghost["file.size"]), U(a[5]) == 0))
    ex.oblige(st, "requires: the mapping is shared, readable and writable", z3.BoolVal(is_c(a[3]) and a[3] & 1 == 1 and is_c(a[2]) and a[2] & 3 == 3 and not a[3] & 0x30))
    e = st.copy(); e.ghost["oserr"] = True
    d, m = fresh_data(ex, st, n, "mapping"); d.tag = "mapping"; m.arr = st.ghost["file"]; st.ghost["map"] = d
    return [(st, ("ret", Ptr(d, 0))), (e, ("ret", MAP_FAILED))]
def whole(ex, st, p, n):
    ex.oblige(st, "requires: exactly the block's mapping", z3.And(z3.BoolVal(isinstance(p, Ptr) and p.o is not None and p.o is st.ghost.get("map") and ex.om(st, p.o).alive), U(p.f) == 0, U(n) == U(p.o.size) if p.o is not None else z3.BoolVal(False)))
def munmap(ex, st, a, i):
    whole(ex, st, a[0], a[1]); st.ghost["file"] = current(ex, st); st.ghost["map"] = None; ex.omw(st, a[0].o).alive = False; return 0
def mremap(ex, st, a, i):
    whole(ex, st, a[0], a[1]); n = U(a[2])
    ex.oblige(st, "requires: the mapping lies in the file", z3.And(n != 0, z3.ULE(n, st.ghost["file.size"])))
    ex.oblige(st, "requires: the mapping may move", z3.BoolVal(is_c(a[3]) and a[3] == 1))
    e = st.copy(); e.assume(z3.UGT(n, U(a[0].o.size))); e.ghost["oserr"] = True        # shrinking a mapping does not fail
    f = current(ex, st); ex.omw(st, a[0].o).alive = False
    d, m = fresh_data(ex, st, n, "mapping"); d.tag = "mapping"; m.arr = f; st.ghost["map"] = d
    return [(st, ("ret", Ptr(d, 0))), (e, ("ret", MAP_FAILED))]
def close(ex, st, a, i): isfd(ex, st, a[0]); st.ghost["closed"] = st.ghost.get("closed", 0) + 1; return 0
def unlink(ex, st, a, i): st.ghost["named"] = False; return 0
def errno(ex, st, a, i):
    o = ex.lazymemo.get("errno")
    if o is None: o = ex.lazymemo["errno"] = Obj("errno", None, True); ex.objs[o.id] = o
    return Ptr(o, 0)
STR = [R(r"std::basic_string<char.*::(basic_string|~basic_string|front|data|c_str|_M_)", lambda ex, st, a, i: a[0])]
OS = [R(r"^mkstemp(64)?$", mkstemp), R(r"^ftruncate(64)?$", ftruncate), R(r"^mmap(64)?$", mmap), R(r"^munmap$", munmap), R(r"^mremap$", mremap), R(r"^close$", close), R(r"^unlink$", unlink), R(r"__errno_location$", errno),
      R(r"mlio::detail::current_error_code\(\)", lambda ex, st, a, i: [(st, ("ret", [0, Ptr(Obj("category", None, True), 0)]))])]

# ---- blocks.  A heap block of n > 0 bytes owns a live allocation of exactly n bytes; a file-backed one a file and its
# mapping of exactly n bytes; an empty block has no data
class Kind:
    def __init__(s, u, cls, empty):
        s.u, s.cls, s.empty = u, cls, empty; s.file = cls == "File_backed_memory_block"; s.f = lambda n: field(u, cls, n)
        s.this = Obj("this", s.f("__size__"), True); s.D = Obj("data", N0, True, mode="bytes"); s.D.tag = "mapping" if s.file else "malloc"
        s.FD = z3.BitVec("file descriptor", 32)
    def init(s, ex, st):
        m = s.u.mods[0]
        ex.store(st, Ptr(s.this, s.f("data_")), NULL if s.empty else Ptr(s.D, 0), PT, m); ex.store(st, Ptr(s.this, s.f("size_")), N0, I64, m)
        st.assume(z3.ULE(N0, LIM), N0 == 0 if s.empty else N0 != 0, z3.ULT(J, LIM)); ex.omw(st, s.D).arr = A0
        if s.file:
            ex.store(st, Ptr(s.this, s.f("fd_")), s.FD, I32, m); st.assume(s.FD >= 0); g = st.ghost; g["fd"], g["file"], g["file.size"] = s.FD, A0, z3.BitVec("file.size", 64) if s.empty else N0
            # a file left longer by a failed attempt to map it is harmless
            st.assume(z3.ULE(g["file.size"], LIM)); g["map"] = None if s.empty else s.D
        return [Ptr(s.this, 0)]
    def holds(s, ex, st, n, kept, arr=A0):
        """the block has exactly n bytes, the first ones as before"""
        d = cell(ex, st, s.this, s.f("data_"), PT); z = U(cell(ex, st, s.this, s.f("size_"), I64))
        if not isinstance(d, Ptr): return z3.BoolVal(False), z3.BoolVal(False)
        if d.o is None: return z3.And(z == n, n == 0, U(d.f) == 0), z3.BoolVal(True)
        own = ex.om(st, d.o).alive and getattr(d.o, "tag", "") == ("mapping" if s.file else "malloc") and (not s.file or st.ghost.get("map") is d.o)
        ok = z3.And(z3.BoolVal(own), z == n, n != 0, U(d.f) == 0, U(d.o.size) == n)
        if s.file: ok = z3.And(ok, n == st.ghost["file.size"])
        return ok, z3.Implies(z3.ULT(J, kept), z3.Select(ex.om(st, d.o).arr, J) == z3.Select(arr, J))

def spec_ctor(cls):
    def spec(u):
        K = Kind(u, cls, True); NN = z3.BitVec("size", 64)
        def setup(ex, st): return [Ptr(K.this, 0), NN]
        def post(ex, st, o):
            if o[0] == "throw":
                ex.cover("failure"); yield "ensures: only a failing system call or lack of memory is an error", z3.BoolVal(bool(st.ghost.get("oserr") or st.ghost.get("nomem")))
                if st.ghost.get("fd") is not None: yield "ensures: the file is closed", z3.BoolVal(st.ghost.get("closed") == 1)
                return
            ex.cover("block", NN != 0); ex.cover("empty block", NN == 0)
            yield "ensures: a failure is not ignored", z3.BoolVal(not (st.ghost.get("oserr") or st.ghost.get("nomem")))
            yield "ensures: a block of exactly the requested size", K.holds(ex, st, NN, BV(0, 64))[0]
            if K.file:
                yield "ensures: the file is the block's own, for as long as the block lives", z3.And(z3.BoolVal(st.ghost.get("fd") is not None and not st.ghost.get("closed") and st.ghost.get("named") is False), bv(cell(ex, st, K.this, K.f("fd_"), I32), 32) == st.ghost.get("fd", BV(-1, 32)))
        return dict(name=cls + "(size)", fn=r"mlio::%s::%s\(unsigned long\)" % (cls, cls), setup=setup, post=post, covers=["failure", "block", "empty block"], stubs=SUP + HEAP + OS + STR, opts=dict(watch=[J]))
    spec.__name__ = "spec_ctor_" + cls
    return spec

def spec_dtor(cls, empty):
    def spec(u):
        K = Kind(u, cls, empty)
        def setup(ex, st): return K.init(ex, st)
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            yield "ensures: the memory is given back", z3.BoolVal(empty or not ex.om(st, K.D).alive)
            if K.file: yield "ensures: the file is closed once", z3.BoolVal(st.ghost.get("closed") == 1)
        return dict(name=f"~{cls} ({'empty' if empty else 'with data'})", fn=r"mlio::%s::~%s\(\)$" % (cls, cls), setup=setup, post=post, stubs=SUP + HEAP + OS + STR, opts=dict(watch=[J]))
    spec.__name__ = f"spec_dtor_{cls}_{empty}"
    return spec

def spec_resize(cls, empty):
    def spec(u):
        K = Kind(u, cls, empty)
        def setup(ex, st): return K.init(ex, st) + [N1]
        def post(ex, st, o):
            if o[0] == "throw":
                ex.cover("failure"); yield "ensures: only a failing system call or lack of memory is an error", z3.BoolVal(bool(st.ghost.get("oserr") or st.ghost.get("nomem")))
                # the file may have been made longer already
                if K.file: st.ghost["file.size"] = z3.If(z3.UGE(st.ghost["file.size"], N0), N0, st.ghost["file.size"])
                ok, same = K.holds(ex, st, N0, N0); yield "ensures: a failed resize leaves the block as it was", z3.And(ok, same); return
            ex.cover("larger", z3.ULT(N0, N1))
            if not empty: ex.cover("smaller", z3.And(N1 != 0, z3.ULT(N1, N0))); ex.cover("to nothing", N1 == 0)
            yield "ensures: a failure is not ignored", z3.BoolVal(not (st.ghost.get("oserr") or st.ghost.get("nomem")))
            ok, same = K.holds(ex, st, N1, MIN)
            yield "ensures: exactly the new size", z3.And(ok) if not (K.file and empty) else z3.Or(ok, z3.And(N1 == 0, U(cell(ex, st, K.this, K.f("size_"), I64)) == 0))
            yield "ensures: the bytes up to the smaller size are kept", same
            if not empty and (cell(ex, st, K.this, K.f("data_"), PT).o is not K.D): yield "ensures: the old memory is given back", z3.BoolVal(not ex.om(st, K.D).alive)
            if K.file: yield "frame: the block keeps its file", z3.And(z3.BoolVal(not st.ghost.get("closed")), bv(cell(ex, st, K.this, K.f("fd_"), I32), 32) == K.FD)
        return dict(name=f"{cls}::resize ({'empty' if empty else 'with data'})", fn=r"mlio::%s::resize\(" % cls, setup=setup, post=post, covers=["failure", "larger"] + ([] if empty else ["smaller", "to nothing"]), stubs=SUP + HEAP + OS + STR, opts=dict(watch=[J]))
    spec.__name__ = f"spec_resize_{cls}_{empty}"
    return spec

# ---- the hybrid block and the allocator: over the contracts above
def methods(ex):
    def get(ex, st, a, k): return st.ghost[("blk", a[0].o.id)][k]
    def data(ex, st, a, i):
        d, n = st.ghost[("blk", a[0].o.id)]; return Ptr(d, 0)
    def resize(ex, st, a, i):
        d, n = st.ghost[("blk", a[0].o.id)]; e = st.copy(); e.ghost["nomem"] = True; z = U(a[1]); st.assume(z3.ULE(z, LIM))
        d2, m = fresh_data(ex, st, z, "resized"); keep(ex, st, m, ex.om(st, d).arr, z3.If(z3.ULT(U(n), z), U(n), z)); ex.omw(st, d).alive = False
        st.ghost[("blk", a[0].o.id)] = (d2, z)
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt9bad_alloc")))]
    def resizable(ex, st, a, i): return st.ghost["resizable"]
    return [(r"::data\(", data), (r"::size\(", lambda ex, st, a, i: get(ex, st, a, 1)), (r"::resize\(", resize), (r"::resizable\(", resizable)]
def give_block(ex, st, o, d, n):
    """o is a block over d (n bytes)"""
    vinit(ex, st, o, "Block"); st.ghost[("blk", o.id)] = (d, n); ex.objs[o.id] = o; ex.objs[d.id] = d
def made(cls):
    def h(ex, st, a, i):
        """contract of the constructor"""
        p, n = a[0], U(a[1]); e = st.copy(); e.ghost["nomem"] = True; st.assume(z3.ULE(n, LIM))
        d, m = fresh_data(ex, st, n, "new block"); give_block(ex, st, p.o, d, n); st.ghost[("kind", p.o.id)] = cls
        ex.store(st, Ptr(p.o, field(ex.unit, cls, "data_")), Ptr(d, 0), PT, ex.unit.mods[0]); ex.store(st, Ptr(p.o, field(ex.unit, cls, "size_")), n, I64, ex.unit.mods[0])
        st.ghost["made"] = st.ghost.get("made", ()) + (p.o.id,)
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt9bad_alloc")))]
    return R(r"mlio::%s::%s\(unsigned long\)" % (cls, cls), h)
CTORS = [made("Heap_memory_block"), made("File_backed_memory_block")]
LOG = [R(r"^strlen$", lambda ex, st, a, i: ex.fresh("strlen")), R(r"void mlio::logger::", nop)]
def block_virtual(ex_u):
    def virtual(ex, st, c, a, i): return dispatch({"Block": vtable(ex_u, "Heap_memory_block"), "Alloc": vtable(ex_u, "Heap_memory_allocator")}, {"Block": methods(ex), "Alloc": [(r"::allocate\(", alloc_contract)]})(ex, st, c, a, i)
    return virtual
def alloc_contract(ex, st, a, i):
    n = U(a[-1]); e = st.copy(); e.ghost["nomem"] = True; st.assume(z3.ULE(n, LIM))
    d, m = fresh_data(ex, st, n, "allocated"); o = ex.new_obj(st, "block", None, lazy=True); give_block(ex, st, o, d, n); ex.store(st, a[0], Ptr(o, 0), PT, ex.unit.mods[0])
    return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt9bad_alloc")))]

class Hyb:
    TH = z3.BitVec("threshold", 64); FB = z3.BitVec("file_backed", 8)
    def __init__(s, u):
        s.u = u; s.f = lambda n: field(u, "Hybrid_memory_block", n); s.this = Obj("this", s.f("__size__"), True); s.inner = Obj("inner", None, True); s.D = Obj("data", N0, True, mode="bytes")
    def init(s, ex, st):
        m = s.u.mods[0]; give_block(ex, st, s.inner, s.D, N0); ex.omw(st, s.D).arr = A0
        ex.store(st, Ptr(s.this, s.f("inner_")), Ptr(s.inner, 0), PT, m); ex.store(st, Ptr(s.this, s.f("oversize_threshold_")), s.TH, I64, m); ex.store(st, Ptr(s.this, s.f("file_backed_")), s.FB, I8, m)
        # invariant: a block still on the heap does not exceed the threshold
        st.assume(z3.ULE(N0, LIM), z3.ULE(s.FB, BV(1, 8)), z3.Implies(s.FB == 0, z3.ULE(N0, s.TH)), z3.ULT(J, LIM)); return [Ptr(s.this, 0)]
    def state(s, ex, st):
        p = cell(ex, st, s.this, s.f("inner_"), PT)
        if not isinstance(p, Ptr) or p.o is None or ("blk", p.o.id) not in st.ghost: return None
        d, n = st.ghost[("blk", p.o.id)]
        if not ex.om(st, d).alive: return None
        fb = bv(cell(ex, st, s.this, s.f("file_backed_"), I8), 8)
        return d, U(n), z3.And(z3.Implies(fb == 0, z3.ULE(U(n), s.TH)), U(cell(ex, st, s.this, s.f("oversize_threshold_"), I64)) == s.TH), ex.om(st, d).arr
HN = r"mlio::detail::\(anonymous namespace\)::Hybrid_memory_block::"
def spec_hybrid_resize(u):
    H = Hyb(u)
    def setup(ex, st): return H.init(ex, st) + [N1]
    def post(ex, st, o):
        s = H.state(ex, st)
        if s is None: yield "ensures: the block has its data", False; return
        d, n, inv, arr = s
        same = lambda k: z3.Implies(z3.ULT(J, k), z3.Select(arr, J) == z3.Select(A0, J))
        if o[0] == "throw":
            ex.cover("failure"); yield "ensures: only lack of memory is an error", z3.BoolVal(bool(st.ghost.get("nomem")))
            yield "ensures: a failed resize leaves the block as it was", z3.And(n == N0, same(N0), inv); return
        ex.cover("moved to a file", z3.And(Hyb.FB == 0, z3.ULT(Hyb.TH, N1), N0 != 0)); ex.cover("larger", z3.And(z3.ULT(N0, N1), z3.ULE(N1, Hyb.TH))); ex.cover("smaller", z3.ULT(N1, N0)); ex.cover("file grows", z3.And(Hyb.FB == 1, z3.ULT(N0, N1)))
        yield "ensures: a failure is not ignored", z3.BoolVal(not st.ghost.get("nomem"))
        yield "ensures: exactly the new size", n == N1
        yield "ensures: the bytes up to the smaller size are kept", same(MIN)
        yield "ensures: a block on the heap does not exceed the threshold", inv
    return dict(name="Hybrid_memory_block::resize", fn=HN + r"resize\(", setup=setup, post=post, covers=["failure", "moved to a file", "larger", "smaller", "file grows"], stubs=CTORS + REFS + SUP + LOG, opts=dict(virtual=block_virtual(u), watch=[J]))
def spec_hybrid_view(what):
    def spec(u):
        H = Hyb(u)
        def setup(ex, st): return H.init(ex, st)
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            v = o[1]
            if what == "size": yield "ensures: the size of the data", U(v) == N0
            elif what == "resizable": yield "ensures: it can be resized", bo(asbool(v))
            else: yield "ensures: the start of the data", z3.BoolVal(isinstance(v, Ptr) and v.o is H.D and eqc(v.f, 0))
        return dict(name="Hybrid_memory_block::" + what, fn=HN + what + r"\(\)( const)?$" if what != "data" else HN + r"data\(\) const", setup=setup, post=post, stubs=REFS + SUP, opts=dict(virtual=block_virtual(u)))
    spec.__name__ = "spec_hybrid_" + what
    return spec
def spec_view(cls, what):
    def spec(u):
        K = Kind(u, cls, False)
        def setup(ex, st): return K.init(ex, st)
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            v = o[1]
            if what == "size": yield "ensures: the size of the data", U(v) == N0
            elif what == "resizable": yield "ensures: it can be resized", bo(asbool(v))
            else: yield "ensures: the start of the data", z3.BoolVal(isinstance(v, Ptr) and v.o is K.D and eqc(v.f, 0))
        return dict(name=cls + "::" + what, fn=r"mlio::" + cls + "::" + what + (r"\(\) const" if what == "data" else r"\(\)( const)?$"), setup=setup, post=post)
    spec.__name__ = f"spec_view_{cls}_{what}"
    return spec

def spec_allocate(cls):
    def spec(u):
        f = lambda n: field(u, cls, n); this = Obj("allocator", f("__size__") or 16, True); out = outobj("result", 8); NN = z3.BitVec("size", 64)
        def setup(ex, st):
            if cls.startswith("File"): ex.store(st, Ptr(this, f("oversize_threshold_")), Hyb.TH, I64, u.mods[0])
            return [Ptr(out, 0), Ptr(this, 0), NN]
        def post(ex, st, o):
            if o[0] == "throw": ex.cover("failure"); yield "ensures: only lack of memory is an error", z3.BoolVal(bool(st.ghost.get("nomem"))); return
            p = cell(ex, st, out, 0, PT); yield "ensures: a failure is not ignored", z3.BoolVal(not st.ghost.get("nomem"))
            if not isinstance(p, Ptr) or p.o is None or not ex.om(st, p.o).alive: yield "ensures: a block", False; return
            g = lambda o, n: field(u, o, n)
            if ("blk", p.o.id) in st.ghost: b = p.o; ex.cover("plain block")
            else:       # a hybrid block around one
                H = lambda n: field(u, "Hybrid_memory_block", n); q = cell(ex, st, p.o, H("inner_"), PT)
                if not isinstance(q, Ptr) or q.o is None or ("blk", q.o.id) not in st.ghost: yield "ensures: a block", False; return
                b = q.o; ex.cover("hybrid block"); yield "ensures: a block on the heap does not exceed the threshold", z3.And(bv(cell(ex, st, p.o, H("file_backed_"), I8), 8) == (1 if st.ghost.get(("kind", b.id)) == "File_backed_memory_block" else 0),
                    z3.Implies(bv(cell(ex, st, p.o, H("file_backed_"), I8), 8) == 0, z3.ULE(NN, U(cell(ex, st, p.o, H("oversize_threshold_"), I64)))))
            d, n = st.ghost[("blk", b.id)]; yield "ensures: exactly the requested size", U(n) == NN
        return dict(name=cls + "::allocate", fn=r"mlio::%s::allocate\(" % cls, setup=setup, post=post, covers=["failure", "plain block"] + (["hybrid block"] if cls.startswith("File") else []), stubs=CTORS + REFS + SUP + LOG, opts=dict(virtual=block_virtual(u)))
    spec.__name__ = "spec_allocate_" + cls
    return spec

def spec_util(u):
    out, arg = outobj("result", 8), outobj("argument", 8); b = Obj("block", None, True); D = Obj("data", N0, True, mode="bytes"); RS = z3.Bool("resizable")
    def setup(ex, st):
        give_block(ex, st, b, D, N0); ex.omw(st, D).arr = A0; st.ghost["resizable"] = RS; ex.store(st, Ptr(arg, 0), Ptr(b, 0), PT, u.mods[0]); st.assume(z3.ULE(N0, LIM), z3.ULT(J, LIM))
        return args_of(u, r"mlio::resize_memory_block\(", {0: Ptr(out, 0), 1: Ptr(arg, 0), 2: N1})
    def post(ex, st, o):
        if o[0] == "throw":
            ex.cover("failure"); p = cell(ex, st, arg, 0, PT); yield "ensures: only lack of memory is an error", z3.BoolVal(bool(st.ghost.get("nomem")))
            d, n = st.ghost[("blk", b.id)]; yield "ensures: on failure the caller keeps the block as it was", z3.And(z3.BoolVal(isinstance(p, Ptr) and p.o is b and d is D), U(n) == N0); return
        ex.cover("in place", RS); ex.cover("copied, larger", z3.And(z3.Not(RS), z3.ULT(N0, N1))); ex.cover("copied, smaller", z3.And(z3.Not(RS), z3.ULT(N1, N0)))
        yield "ensures: a failure is not ignored", z3.BoolVal(not st.ghost.get("nomem"))
        p = cell(ex, st, out, 0, PT)
        if not isinstance(p, Ptr) or p.o is None or ("blk", p.o.id) not in st.ghost: yield "ensures: a block", False; return
        d, n = st.ghost[("blk", p.o.id)]
        if not ex.om(st, d).alive: yield "ensures: a live block", False; return
        yield "ensures: exactly the new size", U(n) == N1
        yield "ensures: the bytes up to the smaller size are kept", z3.Implies(z3.ULT(J, MIN), z3.Select(ex.om(st, d).arr, J) == z3.Select(A0, J))
        if p.o is not b: yield "frame: a block that cannot be resized is not changed", z3.And(z3.BoolVal(st.ghost[("blk", b.id)][0] is D), z3.Implies(z3.ULT(J, N0), z3.Select(ex.om(st, D).arr, J) == z3.Select(A0, J)))
    return dict(name="resize_memory_block", fn=r"mlio::resize_memory_block\(", setup=setup, post=post, covers=["failure", "in place", "copied, larger", "copied, smaller"], stubs=[ALLOC] + REFS + SUP, opts=dict(virtual=block_virtual(u), watch=[J]))

# ---- reference counting
CNT = z3.BitVec("references", 64)
def spec_count(kind):
    def spec(u):
        this = Obj("counted", None, True); off = field(u, "Memory_block", "ref_count_")
        def setup(ex, st):
            vinit(ex, st, this, "Block"); ex.store(st, Ptr(this, off), CNT, I64, u.mods[0]); st.assume(z3.ULT(CNT, BV((1 << 64) - 1, 64)), CNT != 0 if kind == "dec" else z3.BoolVal(True))
            f = u.one(r"mlio::intrusive_ptr_%s_ref\(" % kind); return [Ptr(this, 8)] if False else [Ptr(this, OFFB(u))]
        def dele(ex, st, a, i):
            st.ghost["deleted"] = st.ghost.get("deleted", 0) + 1
        def virtual(ex, st, c, a, i): return dispatch({"Block": vtable(u, "Heap_memory_block")}, {"Block": [(r"::~", dele)]})(ex, st, c, a, i)
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            n = U(cell(ex, st, this, off, I64)); d = st.ghost.get("deleted", 0)
            if kind == "inc": yield "ensures: one more reference", z3.And(n == CNT + 1, z3.BoolVal(d == 0)); return
            ex.cover("last"); ex.cover("not last", CNT != 1)
            yield "ensures: the object is deleted exactly when the last reference is gone", z3.And(z3.BoolVal(d <= 1), z3.BoolVal(d == 1) == (CNT == 1))
            if d == 0: yield "ensures: one reference less", n == CNT - 1
        return dict(name="intrusive_ptr_%s_ref" % kind, fn=r"mlio::intrusive_ptr_%s_ref\(mlio::Intrusive_ref_counter<mlio::Memory_block> const\*\)" % kind, setup=setup, post=post, covers=["last", "not last"] if kind == "dec" else [], opts=dict(virtual=virtual))
    spec.__name__ = "spec_count_" + kind
    return spec
def OFFB(u): return field(u, "Memory_block", "ref_count_")
T = r"mlio::Intrusive_ptr<mlio::Memory_block>::"
def spec_ptr(name, fn, args, want, same):
    """p and q are intrusive pointers (q the other one, if any); every reference counted belongs to a pointer that exists afterwards"""
    def spec(u):
        p, q = outobj("p", 8), outobj("q", 8); A = Obj("A", None, True, z3.Bool("A is null")); B = A if same else Obj("B", None, True, z3.Bool("B is null"))
        cA, cB = z3.BitVecs("refs.A refs.B", 64)
        def setup(ex, st):
            m = u.mods[0]; nullary = "p" in args
            for o in (A, B): ex.objs[o.id] = o
            if name not in CONSTRUCT: ex.store(st, Ptr(p, 0), Ptr(A, 0), PT, m)
            if "q" in args: ex.store(st, Ptr(q, 0), Ptr(B, 0), PT, m)
            st.ghost["A"] = cA
            if not same: st.ghost["B"] = cB
            held = {"A": 0, "B": 0}
            if name not in CONSTRUCT: held["A"] += 1
            if "q" in args: held["A" if same else "B"] += 1
            st.assume(z3.UGE(cA, BV(held["A"], 64)), z3.UGE(cB, BV(held["B"], 64)), z3.ULT(cA, LIM), z3.ULT(cB, LIM))
            return [Ptr({"p": p, "q": q}[x], 0) if x in ("p", "q") else Ptr(A, 0) if x == "A" else NULL if x == "0" else x for x in args]
        def ev(d):
            def h(ex, st, a, i):
                o = a[0].o; k = "A" if o is A else "B" if o is B else None
                if k is None: raise Unsupported("reference to something else")
                ex.oblige(st, "requires: counting on an object that is there", z3.Not(bo(o.nullc)))
                if d < 0: ex.oblige(st, "requires: a counted reference is given up", st.ghost[k] != 0)
                elif name != "Intrusive_ptr(pointer)": ex.oblige(st, "requires: the object is still alive", st.ghost[k] != 0)
                st.ghost[k] = st.ghost[k] + d
            return h
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            now = {"A": BV(0, 64), "B": BV(0, 64)}; before = {"A": BV(0, 64), "B": BV(0, 64)}
            for k, o_ in (("A", A), ("B", B)):
                pass
            def add(t, v, n=1):
                if isinstance(v, Ptr) and v.o in (A, B) and v.o is not None: t["A" if v.o is A else "B"] += n
                elif not (isinstance(v, Ptr) and v.o is None): t["bad"] = 1
            gone = name == "~Intrusive_ptr"
            if not gone: add(now, cell(ex, st, p, 0, PT))
            if "q" in args: add(now, cell(ex, st, q, 0, PT))
            if name not in CONSTRUCT: add(before, Ptr(A, 0))
            if "q" in args: add(before, Ptr(B, 0))
            if name in ("Intrusive_ptr(pointer, false)", "release"):
                if name == "release": add(now, o[1])
                else: add(before, Ptr(A, 0))
            yield "ensures: pointers are only those given", z3.BoolVal("bad" not in now)
            for k, c, ob in (("A", cA, A), ("B", cB, B)):
                if k in st.ghost: yield f"ensures: every counted reference belongs to a pointer ({k})", z3.Or(bo(ob.nullc), st.ghost[k] - c == now[k] - before[k])
            w = want(A, B, NULL)
            def isnull(v): return z3.BoolVal(True) if v.o is None else bo(v.o.nullc)
            def isv(v, x): return z3.Or(z3.BoolVal(isinstance(v, Ptr) and v.o is x.o and eqc(v.f, 0)), z3.And(isnull(v), isnull(x)) if isinstance(v, Ptr) else False)
            if w[0] is not None: yield "ensures: the pointer refers to what it should", isv(cell(ex, st, p, 0, PT), w[0])
            if w[1] is not None: yield "ensures: the other pointer is as it should be", isv(cell(ex, st, q, 0, PT), w[1])
        return dict(name="Intrusive_ptr::" + name + (" (same object)" if same else ""), fn=T + fn, setup=setup, post=post, stubs=[R(r"mlio::intrusive_ptr_inc_ref\(", ev(1)), R(r"mlio::intrusive_ptr_dec_ref\(", ev(-1))])
    spec.__name__ = "spec_ptr_" + name + str(same)
    return spec
CONSTRUCT = ("copy constructor", "move constructor", "Intrusive_ptr(pointer)", "Intrusive_ptr(pointer, false)")
P = lambda o: Ptr(o, 0)
def specs(u):
    r = []
    for c in ("Heap_memory_block", "File_backed_memory_block"):
        r.append(spec_ctor(c))
        for e in (False, True): r += [spec_dtor(c, e), spec_resize(c, e)]
        r += [spec_view(c, w) for w in ("size", "data", "resizable")]
    r += [spec_hybrid_resize] + [spec_hybrid_view(w) for w in ("size", "data", "resizable")] + [spec_allocate("File_backed_memory_allocator"), spec_allocate("Heap_memory_allocator"), spec_util, spec_count("inc"), spec_count("dec")]
    r += [spec_ptr("copy constructor", r"Intrusive_ptr\(mlio::Intrusive_ptr<mlio::Memory_block> const&\)", "pq", lambda A, B, N: (P(B), P(B)), False),
          spec_ptr("move constructor", r"Intrusive_ptr\(mlio::Intrusive_ptr<mlio::Memory_block>&&\)", "pq", lambda A, B, N: (P(B), N), False),
          spec_ptr("Intrusive_ptr(pointer)", r"Intrusive_ptr\(mlio::Memory_block\*, bool\)", ["p", "A", 1], lambda A, B, N: (P(A), None), False),
          spec_ptr("Intrusive_ptr(pointer, false)", r"Intrusive_ptr\(mlio::Memory_block\*, bool\)", ["p", "A", 0], lambda A, B, N: (P(A), None), False),
          spec_ptr("~Intrusive_ptr", r"~Intrusive_ptr\(\)", "p", lambda A, B, N: (None, None), False),
          spec_ptr("release", r"release\(\)", "p", lambda A, B, N: (N, None), False),
          spec_ptr("operator=(nullptr)", r"operator=\(decltype\(nullptr\)\)", "p0", lambda A, B, N: (N, None), False)]
    for same in (False, True):
        r += [spec_ptr("copy assignment", r"operator=\(mlio::Intrusive_ptr<mlio::Memory_block> const&\)", "pq", lambda A, B, N: (P(B), P(B)), same),
              spec_ptr("move assignment", r"operator=\(mlio::Intrusive_ptr<mlio::Memory_block>&&\)", "pq", lambda A, B, N: (P(B), N), same)]
    return r
HARNESS = dict(file="P15.cc", srcs=build.core, secs=5)
NOTE = "heap, file-backed and hybrid blocks, the allocators, resize_memory_block, the reference counter and the intrusive pointer are proved for all sizes and contents."
ASSUME = ["the documented contracts of malloc/realloc/free, mkstemp, ftruncate, mmap, mremap and munmap; shrinking a mapping does not fail", "objects are smaller than 2^46 bytes", "std::atomic operations are atomic (the counter's read-modify-write is one step)"]
