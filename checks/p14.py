import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p04 import ALLOC, alloc, block_methods, new_block, blk_obj

SRCS = [os.path.join(build.VERIF, "harness/ir/slices.cc"), "src/mlio/memory/memory_slice.cc", "src/mlio/streams/memory_input_stream.cc", "src/mlio/streams/input_stream_base.cc", "src/mlio/streams/file_input_stream.cc",
        "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/heap_memory_allocator.cc"]
J = z3.BitVec("J", 64)
U = lambda x: bv(x, 64)
SZ, B, E = z3.BitVecs("block.size slice.begin slice.end", 64)
LIM = BV(1 << 47, 64)

# ---- slices: every way of naming a part, against the range it stands for
A1, A2 = z3.BitVecs("arg1 arg2", 64)
N = E - B
# (function, arguments: n=number i=iterator, [first, last) of the requested part relative to the slice as (value, is it representable))
def want(kind):
    # offsets relative to the slice and the condition that the request is inside it
    if kind == "subslice n": return A1, N, z3.ULE(A1, N)
    if kind == "subslice nn": return A1, A1 + A2, z3.And(z3.ULE(A1, N), z3.ULE(A2, N - A1))
    if kind == "subslice i": return A1 - B, N, z3.And(z3.UGE(A1, B), z3.ULE(A1, E))
    if kind == "subslice ii": return A1 - B, A2 - B, z3.And(z3.UGE(A1, B), z3.ULE(A1, A2), z3.ULE(A2, E))
    if kind == "first n": return BV(0, 64), A1, z3.ULE(A1, N)
    if kind == "first i": return BV(0, 64), A1 - B, z3.And(z3.UGE(A1, B), z3.ULE(A1, E))
    if kind == "last n": return N - A1, N, z3.ULE(A1, N)
    if kind == "last i": return A1 - B, N, z3.And(z3.UGE(A1, B), z3.ULE(A1, E))

def mk(kind, rv):
    name, ar = kind.split()
    sig = ", ".join("unsigned long" if c == "n" else r"std::byte const\*" for c in ar)
    def spec(u):
        S = Slice(u); d = Obj("block data", SZ, True, mode="bytes"); blk = Obj("block", None, True); this = outobj("slice", S.size); out = outobj("result", S.size)
        lo, hi, ok = want(kind)
        def setup(ex, st):
            S.set(ex, st, this, 0, d, B, E, blk); st.assume(z3.ULE(SZ, LIM), z3.ULE(B, E), z3.ULE(E, SZ))
            args = [Ptr(d, v) if c == "i" else v for c, v in zip(ar, (A1, A2))]
            for c, v in zip(ar, (A1, A2)):
                if c == "i": st.assume(z3.ULE(v, SZ))
            return ([] if rv else [Ptr(out, 0)]) + [Ptr(this, 0)] + args
        def post(ex, st, o):
            w0 = S.within(ex, st, this, 0, d)
            if o[0] == "throw":
                ex.cover("refused"); yield "ensures: only a part outside the slice is refused, as an invalid argument", z3.And(z3.Not(ok), z3.BoolVal(is_exc(o, "invalid_argument")))
                yield "ensures: a refused request changes nothing", z3.And(w0[0] == B, w0[1] == E); return
            ex.cover("part"); ex.cover("empty part", lo == hi)
            yield "ensures: a part outside the slice is refused", ok
            t = this if rv else out
            if rv: yield "ensures: the slice itself is narrowed", z3.BoolVal(isinstance(o[1], Ptr) and o[1].o is this and eqc(o[1].f, 0))
            else: yield "ensures: the slice is not changed", z3.And(w0[0] == B, w0[1] == E)
            w = S.within(ex, st, t, 0, d); k = cell(ex, st, t, S.blk, PT)
            yield "ensures: exactly the requested bytes", z3.BoolVal(False) if w is None else z3.And(w[0] == B + lo, w[1] == B + hi)
            yield "ensures: the block is kept alive", z3.BoolVal(isinstance(k, Ptr) and k.o is blk)
        return dict(name="Memory_slice::" + name + "(" + ", ".join("size" if c == "n" else "iterator" for c in ar) + ")" + (" &&" if rv else " const &"), fn=r"mlio::Memory_slice::%s\(%s\) %s" % (name, sig, "&&" if rv else "const &"),
                    setup=setup, post=post, covers=["refused", "part", "empty part"], stubs=REFS)
    spec.__name__ = "spec_slice_" + kind.replace(" ", "_") + ("_rv" if rv else "")
    return spec

def spec_view(fn, result):
    def spec(u):
        S = Slice(u); d = Obj("block data", SZ, True, mode="bytes"); blk = Obj("block", None, True); this = outobj("slice", S.size)
        def setup(ex, st):
            S.set(ex, st, this, 0, d, B, E, blk); st.assume(z3.ULE(SZ, LIM), z3.ULE(B, E), z3.ULE(E, SZ)); return [Ptr(this, 0)]
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            v = o[1]
            if isinstance(v, Ptr): yield "ensures: the truth about the slice", z3.And(z3.BoolVal(v.o is d), U(v.f) == result())
            elif z3.is_bool(result()): yield "ensures: the truth about the slice", (bo(asbool(v)) if not z3.is_bv(v) else v == 1) == result()
            else: yield "ensures: the truth about the slice", U(v) == result()
        return dict(name="Memory_slice::" + fn, fn=r"mlio::Memory_slice::%s\(\) const" % fn, setup=setup, post=post, stubs=REFS)
    spec.__name__ = "spec_view_" + fn
    return spec

def spec_whole(u):
    S = Slice(u); out = outobj("slice", S.size); arg = outobj("argument", 8); d = Obj("block data", SZ, True, mode="bytes"); H = {}
    def setup(ex, st):
        st.assume(z3.ULE(SZ, LIM)); H["b"] = b = blk_obj(ex, st, u, "block", d, SZ); ex.store(st, Ptr(arg, 0), Ptr(b, 0), PT, u.mods[0]); return [Ptr(out, 0), Ptr(arg, 0)]
    def virtual(ex, st, c, a, i): return dispatch({"Block": vtable(u, "Heap_memory_block")}, {"Block": block_methods(ex)})(ex, st, c, a, i)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        w = S.within(ex, st, out, 0, d); k = cell(ex, st, out, S.blk, PT)
        yield "ensures: a slice of a block is all of it", z3.BoolVal(False) if w is None else z3.And(w[0] == 0, w[1] == SZ)
        yield "ensures: the block is kept alive", z3.BoolVal(isinstance(k, Ptr) and k.o is H["b"])
    return dict(name="Memory_slice::Memory_slice(block)", fn=r"mlio::Memory_slice::Memory_slice<mlio::Memory_block>\(mlio::Intrusive_ptr<mlio::Memory_block>\)", setup=setup, post=post, stubs=REFS, opts=dict(virtual=virtual))

# ---- the stream: a cursor POS over the source [B, E)
POS = z3.BitVec("position", 64); CLOSED = z3.BitVec("closed", 8)
def f(u, n): return field(u, "Memory_input_stream", n)
class W:
    def __init__(s, u, null):
        s.u = u; s.null = null; s.S = Slice(u); s.d = Obj("source", SZ, True, mode="bytes"); s.blk = Obj("block", None, True); s.this = Obj("this", f(u, "__size__"), True)
        s.arr = z3.Array("source[]", z3.BitVecSort(64), z3.BitVecSort(8))
    def init(s, ex, st):
        o = f(s.u, "source_")
        if s.null:
            s.S.set(ex, st, s.this, o, None, 0, 0); ex.store(st, Ptr(s.this, f(s.u, "pos_")), NULL, PT, s.u.mods[0]); st.assume(B == 0, E == 0, POS == 0, SZ == 0)
        else:
            s.S.set(ex, st, s.this, o, s.d, B, E, s.blk); ex.store(st, Ptr(s.this, f(s.u, "pos_")), Ptr(s.d, POS), PT, s.u.mods[0])
        ex.store(st, Ptr(s.this, f(s.u, "closed_")), CLOSED, I8, s.u.mods[0])
        st.assume(z3.ULE(SZ, LIM), z3.ULE(B, E), z3.ULE(E, SZ), z3.ULE(B, POS), z3.ULE(POS, E), z3.ULE(CLOSED, BV(1, 8)))
    def pos(s, ex, st):
        p = cell(ex, st, s.this, f(s.u, "pos_"), PT)
        if not isinstance(p, Ptr): return None
        if s.null: return U(p.f) if p.o is None else None
        return U(p.f) if p.o is s.d else None
    def same(s, ex, st):
        """the source and the closed flag are as before"""
        c = bv(cell(ex, st, s.this, f(s.u, "closed_"), I8), 8) == CLOSED
        if s.null: return c
        w = s.S.within(ex, st, s.this, f(s.u, "source_"), s.d)
        return z3.BoolVal(False) if w is None else z3.And(c, w[0] == B, w[1] == E)
def closed_post(w, ex, st, o):
    if o[0] == "throw":
        ex.cover("closed")
        p = w.pos(ex, st)
        yield "ensures: only a closed stream refuses", z3.And(CLOSED == 1, z3.BoolVal(is_exc(o, "Stream_error")))
        yield "ensures: a refusal changes nothing", z3.BoolVal(False) if p is None else z3.And(p == POS, w.same(ex, st))
def stream_spec(name, fn, args, check, covers, out=None, stubs=(), null=False):
    def spec(u):
        w = W(u, null); cx = {}
        def setup(ex, st):
            w.init(ex, st); a, cx["x"] = args(w, ex, st, u); return a
        def post(ex, st, o):
            if o[0] == "throw": yield from closed_post(w, ex, st, o); return
            ex.cover("open"); yield "ensures: a closed stream refuses", CLOSED == 0
            yield "frame: source and state are kept", w.same(ex, st)
            yield from check(w, ex, st, o, cx["x"])
        return dict(name="Memory_input_stream::" + name + (" (empty default source)" if null else ""), fn=fn, setup=setup, post=post, covers=["closed", "open"] + ([] if null else list(covers)), stubs=REFS + list(stubs), opts=dict(watch=[J]))
    spec.__name__ = "spec_" + re.sub(r"\W", "_", name) + ("_null" if null else "")
    return spec
import re
NREQ = z3.BitVec("requested", 64); DB, DSZ = z3.BitVecs("dest.begin dest.size", 64)
LEFT = E - POS
K = z3.If(z3.ULT(NREQ, LEFT), NREQ, LEFT)
def moved(w, ex, st, to):
    p = w.pos(ex, st); return z3.BoolVal(False) if p is None else p == to
def a_read(w, ex, st, u):
    d = Obj("destination", DSZ, True, mode="bytes"); st.assume(z3.ULE(DSZ, LIM), z3.ULE(DB, DSZ), z3.ULE(NREQ, DSZ - DB)); return [Ptr(w.this, 0), Ptr(d, DB), NREQ], d
def p_read(w, ex, st, o, d):
    ex.cover("short", z3.ULT(LEFT, NREQ)); ex.cover("full", z3.And(NREQ != 0, z3.ULT(NREQ, LEFT))); ex.cover("at the end", z3.And(NREQ != 0, LEFT == 0))
    yield "ensures: as many bytes as asked for or left", U(o[1]) == K
    yield "ensures: the cursor advances by as many", moved(w, ex, st, POS + K)
    a = ex.om(st, d).arr; a0 = z3.Array("destination[]", z3.BitVecSort(64), z3.BitVecSort(8))
    inn = z3.And(z3.UGE(J, DB), z3.ULT(J - DB, K))
    if a is None: a = a0
    yield "ensures: the next bytes, and nothing else of the destination is touched", z3.Implies(z3.ULT(J, DSZ), z3.Select(a, J) == (z3.Select(a0, J) if w.null else z3.If(inn, z3.Select(w.arr, POS + J - DB), z3.Select(a0, J))))
def a_slice(w, ex, st, u):
    out = outobj("result", w.S.size); return [Ptr(out, 0), Ptr(w.this, 0), NREQ], out
def p_slice(w, ex, st, o, out):
    ex.cover("short", z3.ULT(LEFT, NREQ)); ex.cover("full", z3.And(NREQ != 0, z3.ULT(NREQ, LEFT)))
    yield "ensures: the cursor advances by the bytes delivered", moved(w, ex, st, POS + K)
    b, e, k = w.S.get(ex, st, out, 0)
    if w.null or not (isinstance(b, Ptr) and b.o is w.d):
        yield "ensures: an empty slice only when nothing was asked for or nothing is left", z3.And(K == 0, bo(ex.icmp(st, "eq", b, e, PT))); return
    ww = w.S.within(ex, st, out, 0, w.d)
    yield "ensures: exactly the next bytes, in place", z3.BoolVal(False) if ww is None else z3.And(ww[0] == POS, ww[1] == POS + K)
    yield "ensures: the block is kept alive", z3.BoolVal(isinstance(k, Ptr) and k.o is w.blk)
def a_num(w, ex, st, u): return [Ptr(w.this, 0), NREQ], None
def p_seek(w, ex, st, o, x):
    ex.cover("beyond the end", z3.UGT(NREQ, N)); ex.cover("inside", z3.And(NREQ != 0, z3.ULT(NREQ, N)))
    yield "ensures: the cursor is at the given position or the end", moved(w, ex, st, B + z3.If(z3.ULT(NREQ, N), NREQ, N))
def a_this(w, ex, st, u): return [Ptr(w.this, 0)], None
def p_size(w, ex, st, o, x): yield "ensures: the size of the source", U(o[1]) == N; yield "frame: the cursor stays", moved(w, ex, st, POS)
def p_pos(w, ex, st, o, x): yield "ensures: the cursor's distance from the start", U(o[1]) == POS - B; yield "frame: the cursor stays", moved(w, ex, st, POS)

def spec_close(u):
    w = W(u, False)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        yield "ensures: the stream is closed", bv(cell(ex, st, w.this, f(u, "closed_"), I8), 8) == 1
        k = cell(ex, st, w.this, f(u, "source_") + w.S.blk, PT); yield "ensures: the source is let go", z3.BoolVal(isinstance(k, Ptr) and k.o is None)
    return dict(name="Memory_input_stream::close", fn=r"mlio::Memory_input_stream::close\(", setup=setup, post=post, stubs=REFS)
def spec_closed(u):
    w = W(u, False)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def post(ex, st, o): yield "ensures: whether it was closed", z3.BoolVal(False) if o[0] == "throw" else (asbv(o[1]) == 1) == (CLOSED == 1)
    def asbv(v): return z3.If(bo(asbool(v)), BV(1, 8), BV(0, 8)) if not z3.is_bv(v) or v.size() != 8 else v
    return dict(name="Memory_input_stream::closed", fn=r"mlio::Memory_input_stream::closed\(", setup=setup, post=post, stubs=REFS)

# ---- the slice-returning read that every other stream inherits
def spec_base_read(u):
    S = Slice(u); this = Obj("this", None, True); out = outobj("result", S.size)
    def setup(ex, st): vinit(ex, st, this, "Stream"); st.assume(z3.ULE(NREQ, LIM)); return [Ptr(out, 0), Ptr(this, 0), NREQ]
    got = z3.BitVec("delivered", 64); src = z3.Array("delivered[]", z3.BitVecSort(64), z3.BitVecSort(8))
    def read(ex, st, a, i):
        p, n = a[1], U(a[2]); ex.oblige(st, "requires: the whole block is offered", z3.And(U(p.f) == 0, n == U(p.o.size)))
        st.ghost["reads"] = st.ghost.get("reads", 0) + 1; st.assume(z3.ULE(got, n)); m = ex.omw(st, p.o); old = m.arr; m.arr = ex.fresharr("filled")
        st.assume(z3.Implies(z3.ULT(J, got), z3.Select(m.arr, J) == z3.Select(src, J)))
        e = st.copy(); e.ghost["err"] = True
        return [(st, ("ret", got)), (e, ("throw", Thrown("_ZTI12stream_error")))]
    def virtual(ex, st, c, a, i):
        return dispatch({"Stream": vtable(u, "File_input_stream"), "Alloc": vtable(u, "Heap_memory_allocator"), "Block": vtable(u, "Heap_memory_block")}, {"Stream": [(r"::read\(", read)], "Alloc": [(r"::allocate\(", alloc)], "Block": block_methods(ex)})(ex, st, c, a, i)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: only an error of the stream is passed on", z3.BoolVal(bool(st.ghost.get("err"))); return
        yield "ensures: an error is not swallowed", z3.BoolVal(not st.ghost.get("err"))
        yield "ensures: one read", z3.BoolVal(st.ghost.get("reads") == 1)
        b, e, k = S.get(ex, st, out, 0)
        if not (isinstance(b, Ptr) and b.o is not None and isinstance(e, Ptr) and e.o is b.o): yield "ensures: a block of its own", False; return
        yield "ensures: as many bytes as delivered", z3.And(U(b.f) == 0, U(e.f) == got, U(b.o.size) == NREQ)
        yield "ensures: the bytes delivered", z3.Implies(z3.ULT(J, got), z3.Select(ex.om(st, b.o).arr, J) == z3.Select(src, J))
    return dict(name="Input_stream_base::read(size)", fn=r"mlio::Input_stream_base::read\(unsigned long\)", setup=setup, post=post, stubs=[ALLOC] + REFS, opts=dict(virtual=virtual, watch=[J]))

def specs(u):
    r = [mk(k, rv) for k in ("subslice n", "subslice nn", "subslice i", "subslice ii", "first n", "first i", "last n", "last i") for rv in (False, True)]
    r += [spec_view("size", lambda: N), spec_view("empty", lambda: N == 0), spec_view("begin", lambda: B), spec_view("end", lambda: E), spec_whole]
    T = r"mlio::Memory_input_stream::"
    for null in (False, True):
        r += [stream_spec("read(span)", T + r"read\(mlio::stdx::span<std::byte>\)", a_read, p_read, ["short", "full", "at the end"], null=null),
              stream_spec("read(size)", T + r"read\(unsigned long\)", a_slice, p_slice, ["short", "full"], null=null),
              stream_spec("seek", T + r"seek\(", a_num, p_seek, ["beyond the end", "inside"], null=null),
              stream_spec("size", T + r"size\(\) const", a_this, p_size, [], null=null), stream_spec("position", T + r"position\(\) const", a_this, p_pos, [], null=null)]
    return r + [spec_close, spec_closed, spec_base_read]
HARNESS = dict(file="P14.cc", srcs=build.core, secs=5)
NOTE = "every way of slicing and every operation of the memory stream is proved for all sizes, positions and requested counts."
ASSUME = ["objects are smaller than 2^47 bytes", "reference counts keep a block alive while a slice refers to it (P15)"]
