from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from dv.stubs import nop

SRCS = ["src/mlio/streams/gzip_inflate_stream.cc", "src/mlio/streams/detail/zlib.cc", "src/mlio/streams/input_stream_base.cc", "src/mlio/streams/memory_input_stream.cc", "src/mlio/memory/memory_slice.cc"]
J = z3.BitVec("J", 64)
U = lambda x: bv(x, 64)
LIM = BV(1 << 44, 64)
OUT = z3.Array("decompressed[]", z3.BitVecSort(64), z3.BitVecSort(8))
Z_OK, Z_END = 0, 1

# ---- the inflater over the documented contract of zlib's inflate()
def spec_inflate(u):
    f = lambda n: field(u, "Zlib_inflater", n)
    this = Obj("this", f("__size__"), True); inp, out = outobj("inp", 16), outobj("out", 16); IB, IL, OB, OL, IS, OS = z3.BitVecs("in.begin in.size out.begin out.size in.object out.object", 64)
    I, D = Obj("input", IS, True, mode="bytes"), Obj("output", OS, True, mode="bytes"); ST = z3.BitVec("state", 32); D0 = z3.Array("output[]", z3.BitVecSort(64), z3.BitVecSort(8))
    OP0 = z3.BitVec("produced before", 64); zs = f("stream_")
    def setup(ex, st):
        m = u.mods[0]
        ex.store(st, Ptr(this, f("state_")), ST, I32, m); st.assume(z3.Or(*[ST == k for k in (0, 1, 2, (1 << 32) - 3, (1 << 32) - 4)]), z3.ULE(IS, LIM), z3.ULE(OS, LIM), z3.ULE(IB, IS), z3.ULE(IL, IS - IB), z3.ULE(OB, OS), z3.ULE(OL, OS - OB), IL != 0, OL != 0)
        for o, d, b, n in ((inp, I, IB, IL), (out, D, OB, OL)): ex.store(st, Ptr(o, 0), Ptr(d, b), PT, m); ex.store(st, Ptr(o, 8), n, I64, m)
        st.ghost.update(calls=0, c=BV(0, 64), p=BV(0, 64), code=None, ended=False)
        return [Ptr(this, 0), Ptr(inp, 0), Ptr(out, 0)]
    def inflate(ex, st, a, i):
        z, m, g = a[0], u.mods[0], st.ghost
        ex.oblige(st, "requires: the inflater's own stream, not at the end of a member", z3.BoolVal(z.o is this and eqc(z.f, zs) and not g["ended"]))
        ni, no = ex.load(st, Ptr(this, zs), PT, m), ex.load(st, Ptr(this, zs + 24), PT, m); ai, ao = (z3.ZeroExt(32, bv(ex.load(st, Ptr(this, zs + k), I32, m), 32)) for k in (8, 32))
        ex.oblige(st, "requires: the input is the caller's next input", z3.And(z3.BoolVal(isinstance(ni, Ptr) and ni.o is I), U(ni.f) == IB + g["c"], ai != 0, z3.ULE(ai, IL - g["c"])))
        ex.oblige(st, "requires: the output is the caller's next output", z3.And(z3.BoolVal(isinstance(no, Ptr) and no.o is D), U(no.f) == OB + g["p"], ao != 0, z3.ULE(ao, OL - g["p"])))
        ex.oblige(st, "requires: decompression is not forced to finish", z3.BoolVal(is_c(a[1]) and a[1] in (0, 2)))
        c, p = ex.fresh("consumed", 32), ex.fresh("produced", 32); c64, p64 = z3.ZeroExt(32, c), z3.ZeroExt(32, p)
        st.assume(z3.ULE(c64, ai), z3.ULE(p64, ao)); r = []
        for code in (0, 1, 2, (1 << 32) - 3, (1 << 32) - 4):
            n = st.copy(); h = n.ghost
            if code in (0, 1): n.assume(z3.Or(c != 0, p != 0))
            d = ex.omw(n, D); old = d.arr; d.arr = ex.fresharr("out")
            at = OB + g["p"]
            n.assume(z3.Select(d.arr, J) == z3.If(z3.And(z3.UGE(J, at), z3.ULT(J - at, p64)), z3.Select(OUT, OP0 + g["p"] + J - at), z3.Select(old, J)))
            ex.store(n, Ptr(this, zs), Ptr(I, U(ni.f) + c64), PT, m); ex.store(n, Ptr(this, zs + 8), z3.Extract(31, 0, ai) - c, I32, m); ex.store(n, Ptr(this, zs + 24), Ptr(D, U(no.f) + p64), PT, m); ex.store(n, Ptr(this, zs + 32), z3.Extract(31, 0, ao) - p, I32, m)
            h["calls"] = h["calls"] + 1; h["c"] = g["c"] + c64; h["p"] = g["p"] + p64; h["code"] = code; h["ended"] = code == Z_END; r.append((n, ("ret", code)))
        return r
    def reset(ex, st, a, i):
        ex.oblige(st, "requires: reset only at the end of a member", z3.BoolVal(bool(st.ghost["ended"]))); st.ghost["ended"] = False; return 0
    def post(ex, st, o):
        g = st.ghost; bad = ST != 0 if False else z3.And(ST != 0, ST != 1); s2 = bv(cell(ex, st, this, f("state_"), I32), 32)
        if o[0] == "throw":
            ex.cover("refused", bad)
            if g["calls"] == 0: yield "ensures: only an inflater that failed before refuses", bad; yield "ensures: and it keeps refusing", s2 == ST; return
            ex.cover("data error"); yield "ensures: corrupt data or lack of memory is an error", z3.BoolVal(g["code"] not in (0, 1)); yield "ensures: a failed inflater stays failed", s2 == (g["code"] or 0)
            yield "ensures: the right kind of error", z3.BoolVal(is_exc(o, "bad_alloc") if g["code"] == (1 << 32) - 4 else is_exc(o, "Inflate_error")); return
        yield "ensures: an error is not ignored", z3.BoolVal(g["calls"] != 0 and g["code"] in (0, 1))
        if g["calls"] == 0: return
        ex.cover("end of a member") if g["code"] == 1 else ex.cover("inside a member")
        i0, i1, o0, o1 = cell(ex, st, inp, 0, PT), U(cell(ex, st, inp, 8, I64)), cell(ex, st, out, 0, PT), U(cell(ex, st, out, 8, I64))
        yield "ensures: the rest of the input", z3.And(z3.BoolVal(isinstance(i0, Ptr) and i0.o is I), U(i0.f) == IB + g["c"], i1 == IL - g["c"])
        yield "ensures: the rest of the output", z3.And(z3.BoolVal(isinstance(o0, Ptr) and o0.o is D), U(o0.f) == OB + g["p"], o1 == OL - g["p"])
        yield "ensures: some progress", z3.Or(g["c"] != 0, g["p"] != 0)
        yield "ensures: whether a member just ended", s2 == (g["code"] or 0)
        yield "ensures: ready for the next member", z3.BoolVal(not g["ended"])
        a = ex.om(st, D).arr
        yield "ensures: the next decompressed bytes, nothing else is touched", z3.Select(a, J) == z3.If(z3.And(z3.UGE(J, OB), z3.ULT(J - OB, g["p"])), z3.Select(OUT, OP0 + J - OB), z3.Select(D0, J))
    return dict(name="Zlib_inflater::inflate", fn=r"mlio::detail::Zlib_inflater::inflate\(", setup=setup, post=post, covers=["refused", "data error", "end of a member", "inside a member"],
                stubs=[R(r"^inflate$", inflate), R(r"^inflateReset$", reset)], opts=dict(watch=[J]))
def spec_open(u):
    f = lambda n: field(u, "Zlib_inflater", n); this = Obj("this", f("__size__"), True)
    def setup(ex, st): return [Ptr(this, 0)]
    def init(ex, st, a, i):
        ex.oblige(st, "requires: the inflater's own stream", z3.BoolVal(a[0].o is this and eqc(a[0].f, f("stream_"))))
        ex.oblige(st, "ensures: gzip and zlib data of any window size", z3.BoolVal(is_c(a[1]) and a[1] == 47)); r = []
        # the default memory functions of zlib are asked for
        z = [ex.load(st, Ptr(this, f("stream_") + k), PT, u.mods[0]) for k in (64, 72, 80)]; ex.oblige(st, "requires: the default allocation functions", z3.BoolVal(all(isinstance(x, Ptr) and x.o is None for x in z)))
        for c in (0, (1 << 32) - 4, (1 << 32) - 6): n = st.copy(); n.ghost["code"] = c; r.append((n, ("ret", c)))
        return r
    def post(ex, st, o):
        c = st.ghost.get("code")
        if o[0] == "throw": ex.cover("failure"); yield "ensures: only a failure of zlib is an error", z3.BoolVal(c != 0); return
        ex.cover("opened"); yield "ensures: a failure is not ignored", z3.BoolVal(c == 0)
        yield "ensures: nothing has begun", bv(cell(ex, st, this, f("state_"), I32), 32) == Z_END
    return dict(name="Zlib_inflater()", fn=r"mlio::detail::Zlib_inflater::Zlib_inflater\(", setup=setup, post=post, covers=["failure", "opened"], stubs=[R(r"^inflateInit2_$", init)])

# ---- the stream.  The compressed bytes are the sequence 0..LEN of the inner stream (cursor 'pos'); of these the inflater has consumed
# 'ip'.  A buffer read from the inner stream is placed at [base, base + bn) of D and holds the bytes from 'bpos' on; every
# read places it elsewhere, so that positions in an older buffer are outside.  A missing buffer is an empty one.
class W:
    def __init__(s, u):
        s.u = u; s.S = Slice(u); s.f = lambda n: field(u, "Gzip_inflate_stream", n); s.z = lambda n: field(u, "Zlib_inflater", n)
        s.this = Obj("this", s.f("__size__"), True); s.inner = Obj("inner", None, True); s.inf = Obj("inflater", s.z("__size__"), True)
        s.D = Obj("compressed buffer", None, True, mode="bytes"); s.B = Obj("buffer block", None, True)
        s.LEN, s.pos0, s.ip0, s.op0, s.off0, s.base0, s.bn0 = z3.BitVecs("compressed.size inner.position consumed produced buffer.position buffer.base buffer.size", 64)
        s.ST = z3.BitVec("inflater.state", 32); s.closed = z3.Bool("closed")
        s.DB, s.DN, s.DS = z3.BitVecs("dest.begin dest.size dest.object", 64); s.dst = Obj("destination", s.DS, True, mode="bytes"); s.d0 = z3.Array("destination[]", z3.BitVecSort(64), z3.BitVecSort(8))
    def init(s, ex, st):
        m = s.u.mods[0]; vinit(ex, st, s.inner, "Inner"); ex.objs[s.D.id] = s.D; ex.objs[s.B.id] = s.B
        ex.store(st, Ptr(s.this, s.f("inner_")), Ptr(s.inner, 0), PT, m); ex.store(st, Ptr(s.this, s.f("inflater_")), Ptr(s.inf, 0), PT, m)
        s.S.set(ex, st, s.this, s.f("buffer_"), s.D, s.base0, s.base0 + s.bn0, s.B); ex.store(st, Ptr(s.this, s.f("buffer_pos_")), Ptr(s.D, s.base0 + s.off0), PT, m)
        ex.store(st, Ptr(s.inf, s.z("state_")), s.ST, I32, m)
        g = st.ghost; g.update(pos=s.pos0, ip=s.ip0, op=s.op0, base=s.base0, bn=s.bn0, bpos=s.pos0 - s.bn0, ended=BV(0, 8))
        st.assume(z3.ULE(s.LEN, LIM), z3.ULE(s.pos0, s.LEN), z3.ULE(s.bn0, s.pos0), z3.ULE(s.off0, s.bn0), z3.ULE(s.base0, LIM), s.ip0 == s.pos0 - s.bn0 + s.off0, z3.ULE(s.op0, LIM), z3.ULE(s.DS, LIM), z3.ULE(s.DB, s.DS), z3.ULE(s.DN, s.DS - s.DB),
                  z3.Or(*[s.ST == k for k in (0, 1, 2, (1 << 32) - 3, (1 << 32) - 4)]))
    def inner_read(s, ex, st, a, i):
        out, n = a[0], U(a[-1]); g = st.ghost; ex.oblige(st, "requires: something is asked for", n != 0)
        e = st.copy(); e.ghost["err"] = True
        k, b = ex.fresh("bytes read"), ex.fresh("base"); st.assume(z3.ULE(k, n), z3.ULE(k, s.LEN - g["pos"]), (k == 0) == (g["pos"] == s.LEN), z3.ULE(b, LIM))
        g["base"], g["bn"], g["bpos"] = b, k, g["pos"]; g["ended"] = z3.If(k == 0, BV(1, 8), g["ended"]); g["pos"] = g["pos"] + k
        s.S.set(ex, st, out.o, out.f, s.D, b, b + k, s.B)
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTI11inner_error")))]
    def inflate(s, ex, st, a, i):
        m, g = s.u.mods[0], st.ghost; ip, on = ex.load(st, Ptr(a[1].o, a[1].f), PT, m), ex.load(st, Ptr(a[2].o, a[2].f), PT, m); il, ol = U(ex.load(st, Ptr(a[1].o, add(a[1].f, 8)), I64, m)), U(ex.load(st, Ptr(a[2].o, add(a[2].f, 8)), I64, m))
        o = U(ip.f) - g["base"] if isinstance(ip, Ptr) else None
        if ip.o is not s.D or on.o is not s.dst: ex.oblige(st, "requires: the compressed bytes and the destination", False); raise PathEnd()
        ex.oblige(st, "requires: exactly the next compressed bytes are inflated", z3.And(g["bpos"] + o == g["ip"], z3.ULE(o, g["bn"]), il != 0, z3.ULE(il, g["bn"] - o)))
        ex.oblige(st, "requires: into the next free bytes of the destination", z3.And(U(on.f) == s.DB + g["op"] - s.op0, ol != 0, z3.ULE(U(on.f) - s.DB, s.DN), z3.ULE(ol, s.DN - (U(on.f) - s.DB))))
        e = st.copy(); e.ghost["err"] = True
        c, p, code = ex.fresh("consumed"), ex.fresh("produced"), ex.fresh("state", 32); st.assume(z3.ULE(c, il), z3.ULE(p, ol), z3.Or(c != 0, p != 0), z3.ULE(code, BV(1, 32)))
        d = ex.omw(st, s.dst); old = d.arr; d.arr = ex.fresharr("out"); st.assume(z3.Select(d.arr, J) == z3.If(z3.And(z3.UGE(J, U(on.f)), z3.ULT(J - U(on.f), p)), z3.Select(OUT, g["op"] + J - U(on.f)), z3.Select(old, J)))
        g["ip"], g["op"] = g["ip"] + c, g["op"] + p; ex.store(st, Ptr(s.inf, s.z("state_")), code, I32, m)
        for x, q, l in ((a[1], Ptr(s.D, U(ip.f) + c), il - c), (a[2], Ptr(s.dst, U(on.f) + p), ol - p)): ex.store(st, x, q, PT, m); ex.store(st, Ptr(x.o, add(x.f, 8)), l, I64, m)
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTI13Inflate_error")))]
    def virtual(s, ex, st, c, a, i):
        def close(ex, st, a, i): st.ghost["closes"] = st.ghost.get("closes", 0) + 1
        return dispatch({"Inner": vtable(s.u, "Memory_input_stream")}, {"Inner": [(r"::read\(unsigned long\)", s.inner_read), (r"::closed\(", lambda *x: s.closed), (r"::close\(", close)]})(ex, st, c, a, i)
    def inv(s, ex, st):
        g = st.ghost; b, e, k = s.S.get(ex, st, s.this, s.f("buffer_")); q = cell(ex, st, s.this, s.f("buffer_pos_"), PT)
        if not all(isinstance(x, Ptr) and x.o is s.D for x in (b, e, q)): return z3.BoolVal(False)
        o = U(q.f) - g["base"]
        return z3.And(U(b.f) == g["base"], U(e.f) == g["base"] + g["bn"], z3.ULE(o, g["bn"]), g["ip"] == g["bpos"] + o, g["pos"] == g["bpos"] + g["bn"])
def spec_read(u):
    w = W(u)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0), Ptr(w.dst, w.DB), w.DN]
    def cands(sn):
        ex, st = sn.ex, sn.st; g = st.ghost
        r = [("buffer", w.inv(ex, st)), ("in the stream", z3.And(z3.ULE(g["pos"], w.LEN), z3.ULE(g["bn"], g["pos"]), g["bpos"] == g["pos"] - g["bn"])), ("nothing out", g["op"] == w.op0), ("not ended", g["ended"] == 0), ("base", z3.ULE(g["base"], LIM)),
             ("destination", z3.Select(ex.om(st, w.dst).arr, J) == z3.Select(w.d0, J)), ("produced", z3.And(z3.ULE(w.op0, g["op"]), z3.ULE(g["op"] - w.op0, w.DN))), ("open", z3.Not(w.closed)), ("filled", z3.Select(ex.om(st, w.dst).arr, J) == z3.If(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, g["op"] - w.op0)), z3.Select(OUT, w.op0 + J - w.DB), z3.Select(w.d0, J)))]
        s = bv(cell(ex, st, w.inf, w.z("state_"), I32), 32); r.append(("fine", z3.ULE(s, BV(1, 32))))
        for n, (v, wd) in sn.ints.items():
            if wd == 64: r += [(f"{n}==left", U(v) == w.DN - (g["op"] - w.op0)), (f"{n}==done", U(v) == g["op"] - w.op0)]
        for n, p in sn.ptrs.items():
            if p.o is w.dst: r.append((f"{n} at the cursor", U(p.f) == w.DB + g["op"] - w.op0))
            if p.o is w.D: r += [(f"{n} end", U(p.f) == g["base"] + g["bn"]), (f"{n} next", U(p.f) == g["base"] + g["ip"] - g["bpos"])]
        return r
    def post(ex, st, o):
        g = st.ghost; s = bv(cell(ex, st, w.inf, w.z("state_"), I32), 32)
        a = ex.om(st, w.dst).arr
        yield "ensures: nothing outside the destination is touched", z3.Implies(z3.Or(z3.ULT(J, w.DB), z3.UGE(J - w.DB, w.DN)), z3.Select(a, J) == z3.Select(w.d0, J))
        if o[0] == "throw":
            if g.get("err"): ex.cover("failure"); return
            ex.cover("closed", w.closed); ex.cover("truncated", z3.Not(w.closed))
            yield "ensures: refused only if closed or if the data ends inside a member", z3.Or(z3.And(w.closed, z3.BoolVal(is_exc(o, "Stream_error"))), z3.And(g["ip"] == w.LEN, g["pos"] == w.LEN, s != Z_END, z3.BoolVal(is_exc(o, "Inflate_error")))); return
        yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err"))
        n = U(o[1]); ex.cover("bytes", z3.UGT(n, BV(1, 64))); ex.cover("end", z3.And(n == 0, w.DN != 0))
        yield "ensures: a closed stream refuses", z3.Not(w.closed)
        yield "ensures: as many bytes as were decompressed", z3.And(n == g["op"] - w.op0, z3.ULE(n, w.DN))
        yield "ensures: the next decompressed bytes", z3.Implies(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, n)), z3.Select(a, J) == z3.Select(OUT, w.op0 + J - w.DB))
        yield "ensures: the end is reported only after the last member is complete", z3.Implies(z3.And(n == 0, w.DN != 0), z3.And(g["ip"] == w.LEN, s == Z_END))
        yield "invariant: the buffer position is the next compressed byte", w.inv(ex, st)
    return dict(name="Gzip_inflate_stream::read(span)", fn=r"mlio::Gzip_inflate_stream::read\(mlio::stdx::span<std::byte>\)", setup=setup, post=post, cands=[cands], covers=["failure", "closed", "truncated", "bytes", "end"],
                stubs=REFS + [R(r"mlio::detail::Zlib_inflater::inflate\(", w.inflate)], opts=dict(virtual=w.virtual, watch=[J]))
def spec_close(u):
    w = W(u)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def post(ex, st, o):
        yield "ensures: the inner stream is closed", z3.BoolVal(o[0] != "throw" and st.ghost.get("closes") == 1)
    return dict(name="Gzip_inflate_stream::close", fn=r"mlio::Gzip_inflate_stream::close\(", setup=setup, post=post, stubs=REFS + [R(r"mlio::detail::Zlib_inflater::~", nop)], opts=dict(virtual=w.virtual))
def spec_closed(u):
    w = W(u)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def post(ex, st, o):
        yield "ensures: closed when the inner stream is", z3.BoolVal(False) if o[0] == "throw" else bo(asbool(o[1])) == w.closed
    return dict(name="Gzip_inflate_stream::closed", fn=r"mlio::Gzip_inflate_stream::closed\(", setup=setup, post=post, opts=dict(virtual=w.virtual))
def specs(u): return [spec_inflate, spec_open, spec_read, spec_close, spec_closed]
HARNESS = dict(file="P16.cc", srcs=build.core, secs=6)
NOTE = "the stream and the inflater are proved for all sizes and contents over zlib's documented contract: the compressed bytes are handed over exactly once and in order, the decompressed ones are delivered exactly once and in order, and the end is only reported between members."
ASSUME = ["zlib's inflate() obeys its documentation: it consumes a prefix of the input, produces the next decompressed bytes into the output, makes progress when both are non-empty and reports Z_STREAM_END exactly at the end of a member", "the inner stream returns its next bytes and nothing only at its end (P14, P30)", "destinations and streams are smaller than 2^44 bytes"]
