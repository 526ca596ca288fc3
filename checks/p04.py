from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

RR = "src/mlio/record_readers/"
SRCS = [RR + "detail/default_chunk_reader.cc", RR + "stream_record_reader.cc", RR + "detail/chunk_reader.cc", RR + "detail/in_memory_chunk_reader.cc", RR + "parquet_record_reader.cc",
        "src/mlio/streams/memory_input_stream.cc", "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/heap_memory_allocator.cc", "src/mlio/memory/memory_slice.cc", "src/mlio/memory/util.cc"]
J = z3.BitVec("J", 64)
U = lambda x: bv(x, 64)

def blk_obj(ex, st, u, name, data, size, nullc=None):
    """an abstract memory block: its data and size live in lazymemo so that
    every path agrees on them"""
    o = Obj(name, None, True)
    vinit(ex, st, o, "Block")
    o.nullc = nullc
    ex.lazymemo[("blk", o.id)] = (data, size); ex.lazymemo[("keepblk", o.id)] = o
    ex.objs[o.id] = o
    return o
def block_methods(ex):
    def data(ex, st, a, i):
        d, n = ex.lazymemo[("blk", a[0].o.id)]; return Ptr(d, 0)
    def size(ex, st, a, i):
        d, n = ex.lazymemo[("blk", a[0].o.id)]; return n
    return [(r"::data\(", data), (r"::size\(", size)]

def new_block(ex, st, u, n, arr=None):
    d = ex.new_obj(st, "block data", n, mode="bytes")
    m = ex.omw(st, d); m.arr = arr if arr is not None else ex.fresharr("new block")
    o = ex.new_obj(st, "block", None, lazy=True)
    vinit(ex, st, o, "Block")
    ex.lazymemo[("blk", o.id)] = (d, n); ex.lazymemo[("keepblk", o.id)] = (o, d)
    return o

class Stream:
    """the logical content of the source stream: ST[0..LEN), cursor in the ghost 'pos'"""
    ST = z3.Array("stream[]", z3.BitVecSort(64), z3.BitVecSort(8)); LEN = z3.BitVec("stream.len", 64)
    @staticmethod
    def read(ex, st, args, inst):
        """assumed contract of Input_stream::read(span) (P14, P16, P17 and P30
        are about the streams): at most the requested bytes, the next ones of
        the stream, none only at its end"""
        p, n = args[1], U(args[2])
        ex.oblige(st, "requires: the span handed to the stream lies in its block", z3.And(z3.ULE(U(p.f), U(p.o.size)), z3.ULE(n, U(p.o.size) - U(p.f))))
        pos = st.ghost["pos"]
        k = ex.fresh("num_bytes_read")
        st.assume(z3.ULE(k, n), z3.ULE(k, Stream.LEN - pos), z3.Implies(z3.And(n != 0, pos != Stream.LEN), k != 0))
        m = ex.omw(st, p.o); old = m.arr
        m.arr = ex.fresharr("filled")
        st.assume(z3.Select(m.arr, J) == z3.If(z3.And(z3.ULE(U(p.f), J), z3.ULT(J - U(p.f), k)), z3.Select(Stream.ST, pos + J - U(p.f)), z3.Select(old, J)))
        G = ex.opts.get("also")
        if G is not None:      # another watched byte
            g = G(ex, st, p)
            if g is not None: st.assume(z3.Select(m.arr, g) == z3.If(z3.And(z3.ULE(U(p.f), g), z3.ULT(g - U(p.f), k)), z3.Select(Stream.ST, pos + g - U(p.f)), z3.Select(old, g)))
        st.ghost["pos"] = pos + k
        return k

def alloc(ex, st, args, inst):
    n = U(args[-1])
    out = args[0]
    o = new_block(ex, st, ex.unit, n)
    ex.store(st, out, Ptr(o, 0), PT, ex.unit.mods[0])
    return None
def resize_contract(ex, st, args, inst):
    """resize_memory_block(block, n) (P15): the same bytes up to the smaller
    size, exactly the new size; the old block is given up"""
    out, bp, n = args[0], args[1], U(args[2])
    b = ex.load(st, bp, PT, ex.unit.mods[0])
    d, sz = ex.lazymemo[("blk", b.o.id)]
    o = new_block(ex, st, ex.unit, n, ex.om(st, d).arr)
    # bytes beyond the old size are arbitrary, as they are in the old array
    ex.store(st, bp, NULL, PT, ex.unit.mods[0])
    ex.store(st, out, Ptr(o, 0), PT, ex.unit.mods[0])
    ex.omw(st, d).alive = False
    return None
RESIZE = R(r"mlio::resize_memory_block\(", resize_contract)
def allocator(ex, st, args, inst):
    o = ex.lazymemo.get("allocator")
    if o is None:
        o = ex.lazymemo["allocator"] = Obj("allocator", None, True); ex.objs[o.id] = o
    vinit(ex, st, o, "Alloc")
    return Ptr(o, 0)
ALLOC = R(r"mlio::memory_allocator\(\)", allocator)

def virtuals(u):
    tabs = {"Stream": vtable(u, "Memory_input_stream"), "Block": vtable(u, "Heap_memory_block"), "Alloc": vtable(u, "Heap_memory_allocator")}
    return tabs

def spec_default(u):
    S = Slice(u); f = lambda n: field(u, "Default_chunk_reader", n)
    FN = r"mlio::detail::Default_chunk_reader::read_chunk\(mlio::stdx::span<std::byte const>\)"
    this = Obj("this", f("__size__"), True); out = outobj("result", S.size)
    C, L, NX = z3.BitVec("chunk.size", 64), z3.BitVec("leftover.size", 64), z3.BitVec("next_size", 64)
    eof = z3.BitVec("eof", 8); pos0 = z3.BitVec("pos0", 64); uses = z3.BitVec("uses", 64)
    none = z3.Bool("no chunk yet")
    D0 = Obj("chunk data", C, True, mode="bytes"); A0 = z3.Array("chunk data[]", z3.BitVecSort(64), z3.BitVecSort(8))
    strm = Obj("stream", None, True)
    tabs = virtuals(u)
    H = {}
    def setup(ex, st):
        H["ex"] = ex
        vinit(ex, st, strm, "Stream")
        blk = blk_obj(ex, st, u, "chunk block", D0, C, none)
        ex.store_raw(st, blk, field(u, "Memory_block", "ref_count_"), 8, uses)
        ex.store(st, Ptr(this, f("stream_")), Ptr(strm, 0), PT, u.mods[0])
        ex.store(st, Ptr(this, f("next_chunk_size_")), NX, I64, u.mods[0])
        ex.store(st, Ptr(this, f("chunk_")), Ptr(blk, 0), PT, u.mods[0])
        ex.store(st, Ptr(this, f("eof_")), eof, I8, u.mods[0])
        st.ghost["pos"] = pos0
        lim = BV(1 << 45, 64)
        st.assume(z3.ULE(eof, BV(1, 8)), z3.ULE(pos0, Stream.LEN), z3.ULE(Stream.LEN, lim), z3.ULE(NX, lim), z3.UGE(NX, BV(1, 64)), z3.ULE(C, NX), z3.UGE(C, BV(1, 64)), z3.ULE(L, C),
                  z3.Implies(none, L == 0), uses >= 1)
        return [Ptr(out, 0), Ptr(this, 0), Ptr(D0, simp(C - L)), L]
    def cands(sn):
        r = []
        ex, st = sn.ex, sn.st
        pos = st.ghost.get("pos")
        for n, p in sn.ptrs.items():
            if p.o is None or p.o.mode != "bytes": continue
            arr = ex.om(st, p.o).arr; off = U(p.f)
            r.append((f"leftover kept [{n}]", z3.Implies(z3.ULT(J, L), z3.Select(arr, J) == z3.Select(A0, C - L + J))))
            r.append((f"filled with the next bytes [{n}]", z3.Implies(z3.And(z3.ULE(L, J), z3.ULT(J, off)), z3.Select(arr, J) == z3.Select(Stream.ST, pos0 + J - L))))
            r.append((f"cursor [{n}]", pos == pos0 + off - L))
            r.append((f"leftover before [{n}]", z3.ULE(L, off)))
            for m, (v, w) in sn.ints.items():
                if w == 64: r.append((f"{n}+{m}==size", z3.And(off + U(v) == U(p.o.size), z3.ULE(U(v), U(p.o.size)))))
        d0 = ex.om(st, D0)
        r.append(("data of others untouched", z3.Or(none, uses <= 2, L == C, z3.Select(d0.arr, J) == z3.Select(A0, J))))
        if pos is not None: r.append(("cursor in stream", z3.And(z3.ULE(pos, Stream.LEN), z3.ULE(pos0, pos))))
        return r
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        pos = st.ghost["pos"]
        was = eof == 1
        b, e, k = S.get(ex, st, out, 0)
        e2 = bv(cell(ex, st, this, f("eof_"), I8), 8)
        d0 = ex.om(st, D0)
        yield "ensures: data that others may still hold is never written", z3.Or(none, uses <= 2, L == C, z3.Select(d0.arr, J) == z3.Select(A0, J)) if d0.arr is not None else z3.BoolVal(True)
        empty = bo(ex.icmp(st, "eq", b, e, PT))
        if ex.valid(st, was):
            ex.cover("after the end")
            yield "ensures: nothing is read after the end", z3.And(pos == pos0, empty, e2 == 1)
            return
        if not (isinstance(b, Ptr) and b.o is not None and b.o.mode == "bytes" and isinstance(e, Ptr) and e.o is b.o):
            yield "ensures: the chunk is a range of one block", False; return
        arr = ex.om(st, b.o).arr; bb, ee = U(b.f), U(e.f)
        n = ee - bb
        if ex.valid(st, e2 == 1): ex.cover("end reached")
        else: ex.cover("more may come")
        yield "ensures: the chunk lies in its block", z3.And(z3.ULE(bb, ee), z3.ULE(ee, U(b.o.size)))
        yield "ensures: the chunk holds the leftover and the newly read bytes", n == L + pos - pos0
        yield "ensures: the chunk starts with the leftover bytes", z3.Implies(z3.And(z3.ULT(J, L), bb == 0), z3.Select(arr, J) == z3.Select(A0, C - L + J))
        yield "ensures: the chunk continues with the next bytes of the stream", z3.Implies(z3.And(z3.ULE(L, J), z3.ULT(J, n)), z3.Select(arr, J) == z3.Select(Stream.ST, pos0 + J - L))
        yield "ensures: the chunk starts at its block", bb == 0
        yield "ensures: the end is reported only at the end of the stream", z3.Implies(e2 == 1, pos == Stream.LEN)
        yield "ensures: some progress is made", z3.Or(e2 == 1, pos != pos0)
        yield "ensures: the chunk keeps its block alive", z3.BoolVal(isinstance(k, Ptr) and k.o is not None and ex.lazymemo.get(("blk", k.o.id), (None,))[0] is b.o)
        ck = cell(ex, st, this, f("chunk_"), PT)
        nx2 = U(cell(ex, st, this, f("next_chunk_size_"), I64))
        yield "ensures: the buffer size only grows", z3.UGE(nx2, NX)
        mine = isinstance(ck, Ptr) and ck.o is not None and ck.o is k.o
        yield "ensures: unless the end was reached the whole block is the chunk and is kept", z3.Or(e2 == 1, z3.And(z3.BoolVal(bool(mine)), ee == U(b.o.size), z3.ULE(ee, nx2)))
    return dict(name="Default_chunk_reader::read_chunk", fn=FN, setup=setup, post=post, cands=[cands], stubs=REFS + [RESIZE, ALLOC],
                covers=["after the end", "end reached", "more may come"],
                opts=dict(watch=[J], virtual=lambda ex, st, c, a, i: dispatch(tabs, {"Stream": [(r"::read\(mlio::stdx::span", Stream.read)], "Block": block_methods(ex), "Alloc": [(r"::allocate\(", alloc)]})(ex, st, c, a, i)))

def spec_hint(u):
    f = lambda n: field(u, "Default_chunk_reader", n)
    this = Obj("this", f("__size__"), True)
    NX, V = z3.BitVec("next_size", 64), z3.BitVec("value", 64)
    def setup(ex, st):
        ex.store(st, Ptr(this, f("next_chunk_size_")), NX, I64, u.mods[0])
        st.assume(z3.UGE(NX, BV(1, 64)), z3.ULE(NX, BV(1 << 46, 64)), z3.ULE(V, BV(1 << 46, 64)))
        return [Ptr(this, 0), V]
    def cands(sn):
        return [(f"{n} bounded", z3.And(z3.UGE(v, BV(1, 64)), z3.ULE(v, BV(1 << 47, 64)))) for n, (v, w) in sn.ints.items() if w == 64]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        n = U(cell(ex, st, this, f("next_chunk_size_"), I64))
        yield "ensures: the buffer holds at least the hinted size and never shrinks", z3.And(z3.UGE(n, V), z3.UGE(n, NX))
    return dict(name="Default_chunk_reader::set_chunk_size_hint", fn=r"mlio::detail::Default_chunk_reader::set_chunk_size_hint\(", setup=setup, post=post, cands=[cands], stubs=[])

def spec_memory(u):
    S = Slice(u); f = lambda n: field(u, "In_memory_chunk_reader", n)
    this = Obj("this", f("__size__"), True); out = outobj("result", S.size); blk = Obj("block", None, True)
    data, N, T = bytes_obj("data"); lb, le = z3.BitVecs("chunk.begin chunk.end", 64)
    def setup(ex, st):
        st.assume(z3.ULE(lb, le), z3.ULE(le, N))
        S.set(ex, st, this, f("chunk_"), data, lb, le, blk)
        return [Ptr(out, 0), Ptr(this, 0), NULL, 0]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        w = S.within(ex, st, out, 0, data); k = S.get(ex, st, out, 0)[2]
        yield "ensures: all remaining data is delivered in one chunk", z3.BoolVal(False) if w is None else z3.And(w[0] == lb, w[1] == le)
        yield "ensures: the chunk keeps its block alive", z3.BoolVal(k.o is blk)
        yield "ensures: nothing is delivered twice", S.empty(ex, st, this, f("chunk_"))
    return dict(name="In_memory_chunk_reader::read_chunk", fn=r"mlio::detail::In_memory_chunk_reader::read_chunk\(", setup=setup, post=post, stubs=REFS)

def spec_make(u):
    S = Slice(u)
    strm = Obj("stream", None, True); sp = outobj("stream argument", 8); out = outobj("result", 8)
    tabs = virtuals(u)
    data, N, T = bytes_obj("data"); zc = z3.BitVec("zero_copy", 8); blk = Obj("block", None, True)
    got = z3.BitVec("read.size", 64)
    def size(ex, st, a, i): return Stream.LEN
    def zero(ex, st, a, i): return asbool(zc == 1)
    def read(ex, st, a, i):
        # Input_stream::read(size): a slice of at most the requested bytes, the next ones
        n = U(a[2])
        ex.oblige(st, "requires: the stream is read from its start", st.ghost["pos"] == 0)
        st.assume(z3.ULE(got, n), z3.ULE(got, Stream.LEN), z3.ULE(got, N))
        S.set(ex, st, a[0].o, a[0].f, data, BV(0, 64), got, blk)
        st.ghost["pos"] = got
    def seek(ex, st, a, i):
        st.ghost["pos"] = U(a[1])
    def setup(ex, st):
        vinit(ex, st, strm, "Stream"); ex.store(st, Ptr(sp, 0), Ptr(strm, 0), PT, u.mods[0])
        st.ghost["pos"] = BV(0, 64)
        st.assume(z3.ULE(zc, BV(1, 8)), z3.ULE(Stream.LEN, BV(1 << 45, 64)))
        return [Ptr(out, 0), Ptr(sp, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, out, 0, PT)
        if not isinstance(p, Ptr) or p.o is None: yield "ensures: a chunk reader is made", False; return
        vt = cell(ex, st, p.o, 0, PT)
        cls = dem(vt.o.gname) if isinstance(vt, Ptr) and vt.o is not None and vt.o.gname else ""
        if "In_memory_chunk_reader" in cls:
            ex.cover("in one piece")
            w = S.within(ex, st, p.o, p.f + field(u, "In_memory_chunk_reader", "chunk_"), data)
            yield "ensures: data is taken in one piece only when all of it was read", z3.BoolVal(False) if w is None else z3.And(w[0] == 0, w[1] == Stream.LEN, got == Stream.LEN)
        else:
            ex.cover("piece by piece")
            yield "ensures: otherwise the stream is read piece by piece", z3.BoolVal("Default_chunk_reader" in cls)
            yield "ensures: from its start", st.ghost["pos"] == 0
            s2 = cell(ex, st, p.o, p.f + field(u, "Default_chunk_reader", "stream_"), PT)
            yield "ensures: it is the given stream that is read", z3.BoolVal(isinstance(s2, Ptr) and s2.o is strm)
            yield "ensures: starts with no chunk and not at the end", z3.And(bo(ex.icmp(st, "eq", cell(ex, st, p.o, p.f + field(u, "Default_chunk_reader", "chunk_"), PT), NULL, PT)),
                     bv(cell(ex, st, p.o, p.f + field(u, "Default_chunk_reader", "eof_"), I8), 8) == 0, z3.UGE(U(cell(ex, st, p.o, p.f + field(u, "Default_chunk_reader", "next_chunk_size_"), I64)), BV(1, 64)))
    return dict(name="make_chunk_reader", fn=r"mlio::detail::make_chunk_reader\(", setup=setup, post=post, stubs=REFS, covers=["in one piece", "piece by piece"],
                opts=dict(virtual=dispatch(tabs, {"Stream": [(r"::read\(unsigned long", read), (r"::size\(", size), (r"::supports_zero_copy\(", zero), (r"::seek\(", seek)]})))

def spec_core(u):
    """Stream_record_reader::read_record_core over the contracts of its chunk
    reader and of record decoding.  Positions are positions of the stream: the
    chunk holds the bytes [done, have)."""
    S, O = Slice(u), OptRecord(u)
    f = lambda n: field(u, "Stream_record_reader", n)
    this = Obj("this", f("__size__"), True); out = outobj("result", O.size); cr = Obj("chunk reader", None, True); blk = Obj("block", None, True)
    tabs = {"Chunks": vtable(u, "Default_chunk_reader"), "This": vtable(u, "Parquet_record_reader")}
    data = Obj("stream data", Stream.LEN, True, mode="bytes")
    done0, have0, eof0 = z3.BitVec("done0", 64), z3.BitVec("have0", 64), z3.Bool("eof0")
    N = Stream.LEN
    def eof(ex, st, a, i): return asbool(st.ghost["eof"] == 1)
    def chunk(ex, st, a, i):
        # contract proved for the chunk readers above
        ret, lp, ln = a[0], a[2], U(a[3])
        done, have, e = st.ghost["done"], st.ghost["have"], st.ghost["eof"]
        ex.oblige(st, "requires: exactly the undecoded bytes are left over", ln == have - done)
        ex.oblige(st, "requires: the leftover is where it was decoded", z3.Or(ln == 0, z3.BoolVal(lp.o is data) if lp.o is None or lp.o is not data else U(lp.f) == done))
        ex.oblige(st, "requires: decoding was told the truth about more data before more is read", z3.Or(st.ghost["tried"] == 1))
        h2, e2 = ex.fresh("have"), ex.fresh("eof", 8)
        st.assume(z3.ULE(have, h2), z3.ULE(h2, N), z3.ULE(e2, BV(1, 8)), z3.Implies(e2 == 1, h2 == N), z3.Implies(e == 1, z3.And(e2 == 1, h2 == have)), z3.Or(e2 == 1, h2 != have))
        # after the end nothing is delivered, whatever is left over
        nb = ex.fresh("chunk.begin"); st.assume(nb == z3.If(e == 1, h2, done))
        S.set(ex, st, ret.o, ret.f, data, nb, h2, blk)
        st.ghost["done"] = nb; st.ghost["have"] = h2; st.ghost["eof"] = e2; st.ghost["tried"] = BV(0, 8)
        st.ghost["lost"] = z3.If(nb == done, st.ghost["lost"], BV(1, 8))
    def decode(ex, st, a, i):
        ret, ch, ign = a[0], a[2], bo(asbool(a[3]))
        done, have = st.ghost["done"], st.ghost["have"]
        w = S.within(ex, st, ch.o, ch.f, data)
        if w is None: raise ir.Unsupported("decode of a chunk outside the stream")
        ex.oblige(st, "requires: decoding sees exactly the undecoded bytes", z3.And(w[0] == done, w[1] == have))
        ex.oblige(st, "requires: decoding is told whether more data may come", ign == (st.ghost["eof"] == 0))
        r = []
        n = st.copy(); b, e, d = (ex.fresh(k) for k in ("record.begin", "record.end", "done"))
        n.assume(z3.ULE(done, b), z3.ULE(b, e), z3.ULE(e, d), z3.ULE(d, have), z3.ULT(done, d))
        O.put(ex, n, ret, S, data, b, e, blk); S.set(ex, n, ch.o, ch.f, data, d, have, blk)
        n.ghost["done"] = d; n.ghost["rec"] = (b, e, done, d)
        r.append((n, ("ret", None)))
        # no record: while more may come part of the data may be dropped (blank
        # lines, comments); at the end all of it has been
        n = st.copy(); d = ex.fresh("done")
        n.assume(z3.ULE(done, d), z3.ULE(d, have), z3.Implies(z3.Not(ign), d == have))
        O.put_none(ex, n, ret); S.set(ex, n, ch.o, ch.f, data, d, have, blk)
        n.ghost["done"] = d; n.ghost["tried"] = BV(1, 8)
        r.append((n, ("ret", None)))
        n = st.copy(); r.append((n, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE"))))
        return r
    def setup(ex, st):
        vinit(ex, st, this, "This"); vinit(ex, st, cr, "Chunks")
        ex.store(st, Ptr(this, f("chunk_reader_")), Ptr(cr, 0), PT, u.mods[0])
        S.set(ex, st, this, f("chunk_"), data, done0, have0, blk)
        st.ghost.update(done=done0, have=have0, eof=z3.BitVec("eof0", 8), tried=BV(0, 8), lost=BV(0, 8), rec=None)
        st.assume(z3.ULE(done0, have0), z3.ULE(have0, N), z3.ULE(N, BV(1 << 45, 64)), z3.ULE(st.ghost["eof"], BV(1, 8)), z3.Implies(st.ghost["eof"] == 1, have0 == N))
        return [Ptr(out, 0), Ptr(this, 0)]
    def cands(sn):
        g = sn.st.ghost; r = []
        d, h, e = g["done"], g["have"], g["eof"]
        r.append(("stream order", z3.And(z3.ULE(done0, d), z3.ULE(d, h), z3.ULE(h, N))))
        r.append(("eof means all", z3.And(z3.ULE(e, BV(1, 8)), z3.Implies(e == 1, h == N))))
        r.append(("nothing lost", g["lost"] == 0))
        r.append(("not tried", g["tried"] == 0))
        o = this
        for off, t in ((S.beg, d), (S.end, h)):
            v = sn.ex.load(sn.st, Ptr(this, f("chunk_") + off), PT, u.mods[0])
            if isinstance(v, Ptr) and v.o is data: r.append((f"chunk+{off}", U(v.f) == t))
        return r
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw":
            yield "ensures: only decoding can fail", z3.BoolVal(is_exc(o, "Corrupt_record_error")); return
        eng = simp(O.engaged(ex, st, out))
        w = S.within(ex, st, this, f("chunk_"), data)
        yield "ensures: the kept chunk is the undecoded rest", z3.BoolVal(False) if w is None else z3.And(w[0] == g["done"], w[1] == g["have"])
        yield "ensures: no byte of the stream is skipped", g["lost"] == 0
        if eng is True:
            ex.cover("record")
            r = S.within(ex, st, out, O.payload, data)
            yield "ensures: the record is the decoded one", z3.BoolVal(False) if r is None or g["rec"] is None else z3.And(r[0] == g["rec"][0], r[1] == g["rec"][1], g["done"] == g["rec"][3])
        elif eng is False:
            ex.cover("end")
            yield "ensures: the end is reported only when every byte of the stream was decoded", z3.And(g["done"] == N, g["have"] == N)
        else: yield "ensures: a record or the end", False
    return dict(name="Stream_record_reader::read_record_core", fn=r"mlio::Stream_record_reader::read_record_core\(\)", setup=setup, post=post, cands=[cands], stubs=REFS, covers=["record", "end"],
                opts=dict(virtual=dispatch(tabs, {"Chunks": [(r"::eof\(", eof), (r"::read_chunk\(", chunk)], "This": [(r"::decode_record\(", decode)]})))

def specs(u): return [spec_default, spec_core, spec_make, spec_memory, spec_hint]

HARNESS = dict(file="P04.cc", srcs=build.core, secs=6, thorough_secs=150,
   rule="texts built from known records x 4 record readers x (read sizes, zero copy, buffer size, size hint, peeks), held records checked again at the end")
LEVEL = "proof"
NOTE = "Chunk readers, their factory and the read loop are proved over an abstract stream; the record decoders' part (consume nothing while waiting, everything at the end) is proved in P02, P03, P05 and P07."
ASSUME = ["Input_stream::read delivers the next bytes of the stream and zero only at its end (P14, P16, P17, P30)", "memory_allocator().allocate gives a block of the requested size (P15)", "streams and buffers are at most 2^45 bytes"]
