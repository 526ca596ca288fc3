from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from dv.stubs import nop
from checks.p04 import blk_obj, block_methods, new_block, alloc, ALLOC

SRCS = ["src/mlio/streams/utf8_input_stream.cc", "src/mlio/streams/detail/iconv.cc", "src/mlio/text_encoding.cc", "src/mlio/streams/input_stream_base.cc", "src/mlio/streams/memory_input_stream.cc", "src/mlio/memory/memory_slice.cc",
        "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/heap_memory_allocator.cc"]
J, K = z3.BitVecs("J K", 64)          # an arbitrary byte of the destination, an arbitrary byte of the text
U = lambda x: bv(x, 64)
LIM = BV(1 << 44, 64)
A8 = lambda n: z3.Array(n, z3.BitVecSort(64), z3.BitVecSort(8))
IN, OUT = A8("text[]"), A8("utf8[]")
CONV, INNER = "_ZTI12convert_error", "_ZTI11inner_error"
FILL = r"mlio::detail::\(anonymous namespace\)::fill_buffer\("

# ---- the wrapper of iconv over its documented contract
def conv_spec(u, flush):
    this = Obj("this", 256, True); inp, out = outobj("inp", 16), outobj("out", 16); IB, IL, OB, OL, IS, OS = z3.BitVecs("in.begin in.size out.begin out.size in.object out.object", 64)
    I, D, ERR = Obj("input", IS, True, mode="bytes"), Obj("output", OS, True, mode="bytes"), Obj("errno", 4, True); D0 = A8("output[]"); cd = Obj("conversion descriptor", None, True)
    f = lambda n: field(u, "Iconv_desc", n)
    def setup(ex, st):
        m = u.mods[0]; st.assume(z3.ULE(IS, LIM), z3.ULE(OS, LIM), z3.ULE(IB, IS), z3.ULE(IL, IS - IB), z3.ULE(OB, OS), z3.ULE(OL, OS - OB)); ex.objs[ERR.id] = ERR
        for o, d, b, n in ((inp, I, IB, IL), (out, D, OB, OL)): ex.store(st, Ptr(o, 0), Ptr(d, b), PT, m); ex.store(st, Ptr(o, 8), n, I64, m)
        ex.store(st, Ptr(this, f("desc_")), Ptr(cd, 0), PT, m)
        st.ghost.update(c=BV(0, 64), p=BV(0, 64), calls=0, code=None)
        return [Ptr(this, 0), Ptr(out, 0)] if flush else [Ptr(this, 0), Ptr(inp, 0), Ptr(out, 0)]
    def iconv(ex, st, a, i):
        m = u.mods[0]; d, pi, pn, po, pm = a; ok = isinstance(d, Ptr) and d.o is cd and st.ghost["calls"] == 0
        nul = lambda p: isinstance(p, Ptr) and p.o is None
        ex.oblige(st, "requires: the open descriptor, once", z3.BoolVal(bool(ok)))
        bo_, no = ex.load(st, po, PT, m), ex.load(st, pm, I64, m)
        ex.oblige(st, "requires: into the output the caller gave", z3.BoolVal(isinstance(bo_, Ptr) and bo_.o is D) if not isinstance(bo_, Ptr) or bo_.o is not D else z3.And(U(bo_.f) == OB, U(no) == OL))
        if flush: ex.oblige(st, "requires: asks for what was held back", z3.BoolVal(nul(pi) and (nul(pn) or True)))
        else:
            if nul(pi): ex.oblige(st, "requires: the input the caller gave", False); raise PathEnd()
            bi, ni = ex.load(st, pi, PT, m), ex.load(st, pn, I64, m)
            ex.oblige(st, "requires: the input the caller gave", z3.BoolVal(False) if not isinstance(bi, Ptr) or bi.o is not I else z3.And(U(bi.f) == IB, U(ni) == IL))
        c = ex.fresh("consumed") if not flush else BV(0, 64); p = ex.fresh("produced"); st.assume(z3.ULE(c, IL), z3.ULE(p, OL)); r = []
        for code in (0, 22, 7, 84, 9):
            if flush and code in (22, 84): continue
            n = st.copy(); g = n.ghost; g["calls"] += 1; g["code"] = code; g["c"], g["p"] = c, p
            if code == 0 and not flush: n.assume(c == IL)
            if code == 22: n.assume(c != IL)
            w = ex.omw(n, D); old = w.arr; w.arr = ex.fresharr("out"); n.assume(z3.Select(w.arr, J) == z3.If(z3.And(z3.UGE(J, OB), z3.ULT(J - OB, p)), z3.Select(OUT, J - OB), z3.Select(old, J)))
            if not flush: ex.store(n, pi, Ptr(I, IB + c), PT, m); ex.store(n, pn, IL - c, I64, m)
            ex.store(n, po, Ptr(D, OB + p), PT, m); ex.store(n, pm, OL - p, I64, m)
            if code: ex.store(n, Ptr(ERR, 0), code, I32, m); r.append((n, ("ret", (1 << 64) - 1)))
            else:
                k = ex.fresh("irreversible"); n.assume(k != BV((1 << 64) - 1, 64)); r.append((n, ("ret", k)))
        return r
    def post(ex, st, o):
        g = st.ghost; code = g["code"]
        if o[0] == "throw":
            ex.cover("error"); yield "ensures: only a failed conversion is an error", z3.BoolVal(code in ((9,) if flush else (84, 9)))
            if not flush: yield "ensures: an invalid sequence is a stream error", z3.BoolVal(code != 84 or is_exc(o, "Stream_error"))
            return
        yield "ensures: an error is not ignored", z3.BoolVal(code in ((0, 7) if flush else (0, 22, 7)))
        o0, o1 = cell(ex, st, out, 0, PT), U(cell(ex, st, out, 8, I64))
        yield "ensures: the rest of the output", z3.BoolVal(False) if not isinstance(o0, Ptr) or o0.o is not D else z3.And(U(o0.f) == OB + g["p"], o1 == OL - g["p"])
        if not flush:
            i0, i1 = cell(ex, st, inp, 0, PT), U(cell(ex, st, inp, 8, I64))
            yield "ensures: the rest of the input", z3.BoolVal(False) if not isinstance(i0, Ptr) or i0.o is not I else z3.And(U(i0.f) == IB + g["c"], i1 == IL - g["c"])
            yield "ensures: the reason it stopped", bv(o[1], 32) == {0: 0, 22: 1, 7: 2}.get(code, 9)
            ex.cover({0: "all", 22: "incomplete", 7: "output full"}.get(code, "?"))
        else: ex.cover("flushed")
        yield "ensures: only the converted bytes are written", z3.Select(ex.om(st, D).arr, J) == z3.If(z3.And(z3.UGE(J, OB), z3.ULT(J - OB, g["p"])), z3.Select(OUT, J - OB), z3.Select(D0, J))
    return dict(name="Iconv_desc::flush" if flush else "Iconv_desc::convert", fn=r"mlio::detail::Iconv_desc::%s\(" % ("flush" if flush else "convert"), setup=setup, post=post, covers=["error", "flushed"] if flush else ["error", "all", "incomplete", "output full"],
                stubs=[R(r"^iconv$", iconv), R(r"^__errno_location$", lambda ex, st, a, i: Ptr(ERR, 0)), R(r"mlio::detail::current_error_code\(", lambda ex, st, a, i: [(st, ("ret", [0, NULL]))])], opts=dict(watch=[J]))
def spec_convert_desc(u): return conv_spec(u, False)
def spec_flush(u): return conv_spec(u, True)
def spec_open(u):
    f = lambda n: field(u, "Iconv_desc", n); this = outobj("this", f("__size__")); enc = Obj("encoding", 32, True); cd = Obj("conversion descriptor", None, True); ERR = Obj("errno", 4, True); s1, s2 = Obj("encoding.name", None, True), Obj("UTF-8", None, True)
    def setup(ex, st): ex.objs[ERR.id] = ERR; st.ghost.update(r=None, moved=0); return [Ptr(this, 0), Ptr(enc, 0)]
    def move(ex, st, a, i): st.ghost["moved"] = int(a[0].o is this and eqc(a[0].f, f("encoding_")) and a[1].o is enc); ex.store(st, a[0], Ptr(s1, 0), PT, u.mods[0])
    def cstr(ex, st, a, i):
        p = a[0]
        if p.o is this: return Ptr(s1, 0)
        return Ptr(s2, 0) if p.o is not None and "4utf8" in (getattr(p.o, "gname", "") or "") else Ptr(Obj("other name", None, True), 0)
    def iopen(ex, st, a, i):
        ex.oblige(st, "ensures: from the given encoding to UTF-8", z3.BoolVal(isinstance(a[0], Ptr) and a[0].o is not None and (a[0].o is s2 or "13Text_encoding4utf8E" in a[0].o.name) and isinstance(a[1], Ptr) and a[1].o is s1))
        g = st.copy(); g.ghost["r"] = "ok"; b = st; b.ghost["r"] = "bad"; return [(g, ("ret", Ptr(cd, 0))), (b, ("ret", Ptr(None, (1 << 64) - 1)))]
    def post(ex, st, o):
        r = st.ghost["r"]
        if o[0] == "throw": ex.cover("unsupported"); yield "ensures: only an unsupported encoding is refused", z3.BoolVal(r == "bad"); return
        ex.cover("open"); d = cell(ex, st, this, f("desc_"), PT)
        yield "ensures: a failure is not ignored", z3.BoolVal(r == "ok"); yield "ensures: the descriptor is kept", z3.BoolVal(isinstance(d, Ptr) and d.o is cd); yield "ensures: the encoding is kept", z3.BoolVal(st.ghost["moved"] == 1)
    return dict(name="Iconv_desc()", fn=r"mlio::detail::Iconv_desc::Iconv_desc\(", setup=setup, post=post, covers=["open", "unsupported"],
                stubs=[R(r"^mlio::Text_encoding::Text_encoding\(mlio::Text_encoding&&\)", move), R(r"^mlio::Text_encoding::~", nop), R(r"^mlio::Text_encoding::name", lambda ex, st, a, i: a[0]), R(r"basic_string<.*>::c_str\(\)", cstr), R(r"^iconv_open$", iopen),
                       R(r"mlio::detail::current_error_code\(", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("code", 32), NULL]))]), R(r"std::_V2::(generic|system)_category", lambda ex, st, a, i: NULL), R(r"std::operator==\(std::error_code", lambda ex, st, a, i: ex.fresh("same", 1) == 1)])

# ---- reading until the buffer is full or the text ends
def spec_fill(u):
    inner = Obj("inner", None, True); SZ, B, N, LEN, P0 = z3.BitVecs("object.size buffer.begin buffer.size text.size position", 64); D = Obj("buffer", SZ, True, mode="bytes"); D0 = A8("buffer[]")
    def setup(ex, st):
        vinit(ex, st, inner, "Inner"); st.ghost.update(pos=P0, end=z3.BoolVal(False)); st.assume(z3.ULE(SZ, LIM), z3.ULE(B, SZ), z3.ULE(N, SZ - B), z3.ULE(LEN, LIM), z3.ULE(P0, LEN)); return [Ptr(inner, 0), Ptr(D, B), N]
    def read(ex, st, a, i):
        p, n = a[-2], U(a[-1]); g = st.ghost
        if not isinstance(p, Ptr) or p.o is not D: ex.oblige(st, "requires: into the buffer", False); raise PathEnd()
        ex.oblige(st, "requires: into the next free bytes of the buffer", z3.And(U(p.f) == B + g["pos"] - P0, n != 0, z3.ULE(n, N - (g["pos"] - P0))))
        e = st.copy(); e.ghost["err"] = True
        k = ex.fresh("bytes read"); st.assume(z3.ULE(k, n), z3.ULE(k, LEN - g["pos"]), (k == 0) == (g["pos"] == LEN))
        w = ex.omw(st, D); old = w.arr; w.arr = ex.fresharr("buf"); st.assume(z3.Select(w.arr, J) == z3.If(z3.And(z3.UGE(J, U(p.f)), z3.ULT(J - U(p.f), k)), z3.Select(IN, g["pos"] + J - U(p.f)), z3.Select(old, J)))
        g["end"] = z3.Or(g["end"], k == 0); g["pos"] = g["pos"] + k
        return [(st, ("ret", k)), (e, ("throw", Thrown(INNER)))]
    def cands(sn):
        g = sn.st.ghost; a = sn.ex.om(sn.st, D).arr; done = g["pos"] - P0
        r = [("progress", z3.And(z3.ULE(P0, g["pos"]), z3.ULE(done, N), z3.ULE(g["pos"], LEN))), ("not ended", z3.Not(g["end"])), ("filled", z3.Select(a, J) == z3.If(z3.And(z3.UGE(J, B), z3.ULT(J - B, done)), z3.Select(IN, P0 + J - B), z3.Select(D0, J)))]
        for n, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{n} left", U(v) == N - done), (f"{n} done", U(v) == done)]
        for n, p in sn.ptrs.items():
            if p.o is D: r.append((f"{n} next", U(p.f) == B + done))
        return r
    def post(ex, st, o):
        g = st.ghost; a = ex.om(st, D).arr
        if o[0] == "throw": ex.cover("failure"); yield "ensures: only the inner stream fails", z3.BoolVal(bool(g.get("err"))); return
        yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err")); n = U(o[1]); ex.cover("full", z3.And(n == N, N != 0)); ex.cover("end", z3.ULT(n, N))
        yield "ensures: as many bytes as were read", n == g["pos"] - P0
        yield "ensures: full unless the text has ended", z3.Or(n == N, g["pos"] == LEN)
        yield "ensures: the next bytes of the text, nothing else is touched", z3.Select(a, J) == z3.If(z3.And(z3.UGE(J, B), z3.ULT(J - B, n)), z3.Select(IN, P0 + J - B), z3.Select(D0, J))
    return dict(name="fill_buffer", fn=FILL, setup=setup, post=post, cands=[cands], covers=["failure", "full", "end"], stubs=REFS, opts=dict(watch=[J], virtual=dispatch({"Inner": vtable(u, "Memory_input_stream")}, {"Inner": [(r"::read\(mlio::stdx::span", read)]})))

# ---- the conversion.  The text is the sequence IN[0..LEN) of the inner stream (cursor 'pos'); 'ip' of its bytes have been converted
# to OUT[0..op).  'inc': the bytes left over are the beginning of a character.  'held' becomes false when iconv was asked for the
# character it may hold back and had none.
class W:
    def __init__(s, u):
        s.u = u; s.f = lambda n: field(u, "Utf8_input_stream", n); s.this = Obj("this", s.f("__size__"), True); s.inner = Obj("inner", None, True); s.conv = Obj("converter", None, True)
        s.BSZ, s.LEN, s.P0, s.E0, s.pos0, s.ip0, s.op0 = z3.BitVecs("buffer.size text.size buffer.position buffer.end inner.position converted produced", 64); s.H0, s.F0, s.inc0, s.closed, s.utf8 = z3.Bools("has_preamble should_fill incomplete closed is_utf8")
        s.B = Obj("buffer", s.BSZ, True, mode="bytes"); s.DB, s.DN, s.DS = z3.BitVecs("dest.begin dest.size dest.object", 64); s.dst = Obj("destination", s.DS, True, mode="bytes"); s.d0 = A8("destination[]")
    def init(s, ex, st):
        m = s.u.mods[0]; vinit(ex, st, s.inner, "Inner"); s.blk = blk_obj(ex, st, s.u, "buffer block", s.B, s.BSZ); ex.objs[s.B.id] = s.B
        for n, o in (("inner_", s.inner), ("converter_", s.conv), ("buffer_", s.blk)): ex.store(st, Ptr(s.this, s.f(n)), Ptr(o, 0), PT, m)
        ex.store(st, Ptr(s.this, s.f("buffer_pos_")), Ptr(s.B, s.P0), PT, m); ex.store(st, Ptr(s.this, s.f("buffer_end_")), Ptr(s.B, s.E0), PT, m)
        for n, v in (("should_fill_buffer_", s.F0), ("has_preamble_", s.H0), ("is_utf8_", s.utf8)): ex.store(st, Ptr(s.this, s.f(n)), z3.If(v, BV(1, 8), BV(0, 8)), I8, m)
        st.ghost.update(pos=s.pos0, ip=s.ip0, op=s.op0, inc=s.inc0, done=z3.BoolVal(False))
        st.assume(z3.ULE(BV(16, 64), s.BSZ), z3.ULE(s.BSZ, LIM), z3.ULE(s.LEN, LIM), z3.ULE(s.op0, LIM), z3.ULE(s.DS, LIM), z3.ULE(s.DB, s.DS), z3.ULE(s.DN, s.DS - s.DB))
        st.assume(*[c for _, c in s.inv(ex, st)])
    def inv(s, ex, st):
        g = st.ghost; p, e = cell(ex, st, s.this, s.f("buffer_pos_"), PT), cell(ex, st, s.this, s.f("buffer_end_"), PT); F, H = (bv(cell(ex, st, s.this, s.f(n), I8), 8) != 0 for n in ("should_fill_buffer_", "has_preamble_"))
        if not all(isinstance(x, Ptr) and x.o is s.B for x in (p, e)): return [("buffer", z3.BoolVal(False))]
        P, E = U(p.f), U(e.f); b = ex.om(st, s.B).arr; pos, ip = g["pos"], g["ip"]; here = z3.And(z3.ULE(ip, K), z3.ULT(K, pos))
        return [("bounds", z3.And(z3.ULE(P, E), z3.ULE(E, s.BSZ))), ("cursor", z3.And(z3.ULE(ip, pos), z3.ULE(pos, s.LEN))), ("full buffer has the unconverted bytes", z3.Or(F, pos == ip + (E - P))), ("no preamble", z3.Or(F, z3.Not(H))), ("text ahead", z3.Implies(z3.And(z3.Not(F), here), z3.Select(b, P + K - ip) == z3.Select(IN, K))),
                ("left over", z3.Implies(F, pos == ip + P)), ("few left over", z3.Implies(F, z3.ULT(P, BV(16, 64)))), ("preamble", z3.Implies(z3.And(F, H), P != 0)), ("incomplete", z3.Implies(z3.And(F, z3.Not(H), P != 0), g["inc"])), ("text left over", z3.Implies(z3.And(F, here), z3.Select(b, K - ip) == z3.Select(IN, K))), ("room", z3.Or(E == s.BSZ, pos == s.LEN))]
    def watch(s, ex, st, o): return [K - st.ghost["ip"]] if o.name == "buffer" else [J]
    def fill(s, ex, st, a, i):
        g = st.ghost; p, n = a[1], U(a[2])
        if not (isinstance(a[0], Ptr) and a[0].o is s.inner and isinstance(p, Ptr) and p.o is s.B): ex.oblige(st, "requires: the inner stream is read into the buffer", False); raise PathEnd()
        b = U(p.f); ex.oblige(st, "requires: inside the buffer", z3.And(z3.ULE(b, s.BSZ), z3.ULE(n, s.BSZ - b)))
        ex.oblige(st, "requires: nothing unconverted is overwritten", b == g["pos"] - g["ip"])
        e = st.copy(); e.ghost["err"] = "inner"
        k = ex.fresh("filled"); st.assume(z3.ULE(k, n), z3.ULE(k, s.LEN - g["pos"]), z3.Or(k == n, g["pos"] + k == s.LEN)); w = ex.omw(st, s.B); old = w.arr; w.arr = ex.fresharr("buf"); x = K - g["ip"]
        st.assume(z3.Select(w.arr, x) == z3.If(z3.And(z3.UGE(x, b), z3.ULT(x - b, k)), z3.Select(IN, g["pos"] + x - b), z3.Select(old, x)))
        g["pos"] = g["pos"] + k; g["inc"] = z3.And(g["inc"], k == 0)
        return [(st, ("ret", k)), (e, ("throw", Thrown(INNER)))]
    def convert(s, ex, st, a, i):
        m, g = s.u.mods[0], st.ghost; ib, il, ob, ol = ex.load(st, a[1], PT, m), U(ex.load(st, Ptr(a[1].o, add(a[1].f, 8)), I64, m)), ex.load(st, a[2], PT, m), U(ex.load(st, Ptr(a[2].o, add(a[2].f, 8)), I64, m))
        if not (a[0].o is s.conv and isinstance(ib, Ptr) and ib.o is s.B and isinstance(ob, Ptr) and ob.o is s.dst): ex.oblige(st, "requires: from the buffer to the destination", False); raise PathEnd()
        b, d = U(ib.f), U(ob.f); arr = ex.om(st, s.B).arr
        ex.oblige(st, "requires: inside the buffer", z3.And(z3.ULE(b, s.BSZ), z3.ULE(il, s.BSZ - b)))
        ex.oblige(st, "requires: exactly the text that follows what was converted", z3.And(il == g["pos"] - g["ip"], z3.Implies(z3.And(z3.ULE(g["ip"], K), z3.ULT(K, g["pos"])), z3.Select(arr, b + K - g["ip"]) == z3.Select(IN, K))))
        ex.oblige(st, "requires: into the next free bytes of the destination", z3.And(d == s.DB + g["op"] - s.op0, ol == s.DN - (g["op"] - s.op0)))
        e = st.copy(); e.ghost["err"] = "conversion"; r = [(e, ("throw", Thrown(CONV)))]
        c, p = ex.fresh("consumed"), ex.fresh("produced"); st.assume(z3.ULE(c, il), z3.ULE(p, ol))
        for code in (0, 1, 2):
            n = st.copy(); h = n.ghost; rest = il - c
            n.assume([c == il, z3.And(rest != 0, z3.ULT(rest, BV(16, 64))), z3.Implies(z3.UGE(ol, BV(4, 64)), p != 0)][code])
            w = ex.omw(n, s.dst); old = w.arr; w.arr = ex.fresharr("out"); n.assume(z3.Select(w.arr, J) == z3.If(z3.And(z3.UGE(J, d), z3.ULT(J - d, p)), z3.Select(OUT, g["op"] + J - d), z3.Select(old, J)))
            for x, q, l in ((a[1], Ptr(s.B, b + c), rest), (a[2], Ptr(s.dst, d + p), ol - p)): ex.store(n, x, q, PT, m); ex.store(n, Ptr(x.o, add(x.f, 8)), l, I64, m)
            h["ip"], h["op"], h["inc"] = g["ip"] + c, g["op"] + p, z3.BoolVal(code == 1); r.append((n, ("ret", code)))
        return r
    def flush(s, ex, st, a, i):
        m, g = s.u.mods[0], st.ghost; ob, ol = ex.load(st, a[1], PT, m), U(ex.load(st, Ptr(a[1].o, add(a[1].f, 8)), I64, m))
        if not (a[0].o is s.conv and isinstance(ob, Ptr) and ob.o is s.dst): ex.oblige(st, "requires: to the destination", False); raise PathEnd()
        ex.oblige(st, "requires: only at the end of the text", g["ip"] == s.LEN); d = U(ob.f)
        ex.oblige(st, "requires: into the next free bytes of the destination", z3.And(d == s.DB + g["op"] - s.op0, ol == s.DN - (g["op"] - s.op0)))
        e = st.copy(); e.ghost["err"] = "conversion"; p = ex.fresh("produced"); st.assume(z3.ULE(p, ol))
        w = ex.omw(st, s.dst); old = w.arr; w.arr = ex.fresharr("out"); st.assume(z3.Select(w.arr, J) == z3.If(z3.And(z3.UGE(J, d), z3.ULT(J - d, p)), z3.Select(OUT, g["op"] + J - d), z3.Select(old, J)))
        ex.store(st, a[1], Ptr(s.dst, d + p), PT, m); ex.store(st, Ptr(a[1].o, add(a[1].f, 8)), ol - p, I64, m); g["op"] = g["op"] + p; g["done"] = p == 0
        return [(st, ("ret", None)), (e, ("throw", Thrown(CONV)))]
    def virtual(s, inner=()):
        return lambda ex, st, c, a, i: dispatch({"Inner": vtable(s.u, "Memory_input_stream"), "Block": vtable(s.u, "Heap_memory_block"), "Alloc": vtable(s.u, "Heap_memory_allocator")}, {"Inner": [(r"::closed\(", lambda *x: s.closed)] + list(inner), "Block": block_methods(ex), "Alloc": [(r"::allocate\(", alloc)]})(ex, st, c, a, i)
    def stubs(s): return REFS + [R(FILL, s.fill), R(r"mlio::detail::Iconv_desc::convert\(", s.convert), R(r"mlio::detail::Iconv_desc::flush\(", s.flush), R(r"mlio::detail::Iconv_desc::encoding\(", lambda ex, st, a, i: Ptr(Obj("encoding", 32, True), 0))]
def spec_convert(u):
    w = W(u)
    def setup(ex, st): w.init(ex, st); st.assume(w.DN != 0); st.assume(z3.UGE(w.DN, BV(4, 64))); return [Ptr(w.this, 0), Ptr(w.dst, w.DB), w.DN]
    def cands(sn):
        ex, st = sn.ex, sn.st; g = st.ghost; a = ex.om(st, w.dst).arr; r = w.inv(ex, st) + [("nothing out", g["op"] == w.op0), ("destination", z3.Select(a, J) == z3.Select(w.d0, J)), ("not done", z3.Not(g["done"])), ("produced", z3.And(z3.ULE(w.op0, g["op"]), z3.ULE(g["op"] - w.op0, w.DN))),
            ("filled", z3.Select(a, J) == z3.If(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, g["op"] - w.op0)), z3.Select(OUT, w.op0 + J - w.DB), z3.Select(w.d0, J)))]
        for n, (v, wd) in sn.ints.items():
            if wd == 64: r.append((f"{n} left", U(v) == w.DN - (g["op"] - w.op0)))
        for n, p in sn.ptrs.items():
            if p.o is w.dst: r.append((f"{n} next", U(p.f) == w.DB + g["op"] - w.op0))
        return r
    def post(ex, st, o):
        g = st.ghost; a = ex.om(st, w.dst).arr
        yield "ensures: nothing outside the destination is touched", z3.Implies(z3.Or(z3.ULT(J, w.DB), z3.UGE(J - w.DB, w.DN)), z3.Select(a, J) == z3.Select(w.d0, J))
        if o[0] == "throw":
            if g.get("err"): ex.cover("failure"); return
            ex.cover("text ends inside a character"); yield "ensures: refused only if the text ends inside a character", z3.And(g["pos"] == w.LEN, g["ip"] != w.LEN, g["inc"], z3.BoolVal(is_exc(o, "Stream_error"))); return
        yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err")); n = U(o[1]); ex.cover("bytes", n != 0); ex.cover("end", n == 0)
        yield "ensures: as many bytes as were converted", z3.And(n == g["op"] - w.op0, z3.ULE(n, w.DN))
        yield "ensures: the next converted bytes", z3.Implies(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, n)), z3.Select(a, J) == z3.Select(OUT, w.op0 + J - w.DB))
        yield "ensures: the end is reported only after the whole text", z3.Implies(n == 0, z3.And(g["ip"] == w.LEN, g["done"]))
        for n_, c in w.inv(ex, st): yield "invariant: the buffer holds the text that is not yet converted (" + n_ + ")", c
    return dict(name="Utf8_input_stream::convert", fn=r"mlio::Utf8_input_stream::convert\(", setup=setup, post=post, cands=[cands], covers=["failure", "text ends inside a character", "bytes", "end"], stubs=w.stubs(), budget=400, opts=dict(virtual=w.virtual(), watch=w.watch))

# ---- what a reader sees: char_buffer_ and remaining_bits_ hold converted bytes that are not yet delivered
def rem(s, ex, st):
    """remaining_bits_ as (pointer, size)"""
    return cell(ex, st, s.this, s.f("remaining_bits_"), PT), U(cell(ex, st, s.this, s.f("remaining_bits_") + 8, I64))
def spec_read_rest(u):
    """bytes left over from an earlier read: they are delivered first"""
    w = W(u); CB = Obj("char buffer", 4, True, mode="bytes"); c0 = A8("char buffer[]"); Q, N = z3.BitVecs("rest.begin rest.size", 64)
    def setup(ex, st):
        w.init(ex, st); ex.objs[CB.id] = CB; m = u.mods[0]; ex.store(st, Ptr(w.this, w.f("remaining_bits_")), Ptr(CB, Q), PT, m); ex.store(st, Ptr(w.this, w.f("remaining_bits_") + 8), N, I64, m)
        st.assume(z3.ULE(Q, BV(4, 64)), z3.ULE(N, BV(4, 64) - Q), N != 0, z3.Not(w.closed)); return [Ptr(w.this, 0), Ptr(w.dst, w.DB), w.DN]
    def post(ex, st, o):
        a = ex.om(st, w.dst).arr; p, n = rem(w, ex, st)
        if o[0] == "throw": yield "ensures: what is left over is delivered", False; return
        r = U(o[1]); ex.cover("some left", z3.ULT(r, N)); ex.cover("all", r == N)
        yield "ensures: as many of the left over bytes as fit", r == z3.If(z3.ULE(N, w.DN), N, w.DN)
        yield "ensures: the left over bytes in order, nothing else is touched", z3.Select(a, J) == z3.If(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, r)), z3.Select(c0, Q + J - w.DB), z3.Select(w.d0, J))
        yield "ensures: the others remain", z3.And(n == N - r, z3.Or(n == 0, z3.BoolVal(isinstance(p, Ptr) and p.o is CB) if not (isinstance(p, Ptr) and p.o is CB) else U(p.f) == Q + r))
        yield "ensures: nothing more is read", z3.And(st.ghost["pos"] == w.pos0, st.ghost["ip"] == w.ip0, st.ghost["op"] == w.op0)
    return dict(name="Utf8_input_stream::read(span), left over bytes", fn=READ, setup=setup, post=post, covers=["some left", "all"], stubs=w.stubs(), opts=dict(virtual=w.virtual(), watch=[J]))
READ = r"mlio::Utf8_input_stream::read\(mlio::stdx::span<std::byte>\)"
def read_spec(size):
    """nothing left over; the destination has 1, 2 or 3 bytes, or at least four (0: no more than the inner stream is asked)"""
    def spec(u):
        w = W(u); D = Obj("destination", size, False) if size else w.dst
        def setup(ex, st):
            w.init(ex, st); m = u.mods[0]; ex.store(st, Ptr(w.this, w.f("remaining_bits_")), NULL, PT, m); ex.store(st, Ptr(w.this, w.f("remaining_bits_") + 8), 0, I64, m); st.ghost["inner"] = None
            if not size: st.assume(z3.Or(w.DN == 0, z3.UGE(w.DN, BV(4, 64))))
            return [Ptr(w.this, 0), Ptr(D, 0 if size else w.DB), size or w.DN]
        def convert(ex, st, a, i):
            p, n = a[1], U(a[2]); g = st.ghost; r = []
            ex.oblige(st, "requires: a text that needs converting", z3.Not(w.utf8)); ex.oblige(st, "requires: room for any character", z3.UGE(n, BV(4, 64)))
            e = st.copy(); e.ghost["err"] = "conversion"; r.append((e, ("throw", Thrown(CONV))))
            if size == 0:
                ex.oblige(st, "requires: the destination", z3.BoolVal(p.o is w.dst) if p.o is not w.dst else z3.And(U(p.f) == w.DB, n == w.DN))
                k = ex.fresh("converted"); st.assume(z3.ULE(k, n)); d = ex.omw(st, w.dst); old = d.arr; d.arr = ex.fresharr("out"); st.assume(z3.Select(d.arr, J) == z3.If(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, k)), z3.Select(OUT, g["op"] + J - w.DB), z3.Select(old, J)))
                g["k"] = k; g["op"] = g["op"] + k; r.append((st, ("ret", k))); return r
            for k in range(5):
                n_ = st.copy()
                for x in range(4): ex.store(n_, Ptr(p.o, add(p.f, x)), z3.Select(OUT, g["op"] + x) if x < k else ex.fresh("rest", 8), I8, u.mods[0])
                n_.ghost["op"] = g["op"] + k; n_.ghost["k"] = k; r.append((n_, ("ret", k)))
            return r
        def inner(ex, st, a, i):
            p, n = a[-2], U(a[-1]); ex.oblige(st, "requires: the destination", z3.BoolVal(isinstance(p, Ptr) and p.o is D) if not (isinstance(p, Ptr) and p.o is D) else z3.And(U(p.f) == (BV(0, 64) if size else w.DB), n == U(size or w.DN)))
            e = st.copy(); e.ghost["err"] = "inner"; k = ex.fresh("read"); st.assume(z3.ULE(k, n)); st.ghost["inner"] = k; return [(st, ("ret", k)), (e, ("throw", Thrown(INNER)))]
        def post(ex, st, o):
            g = st.ghost; DN = BV(size, 64) if size else w.DN
            if o[0] == "throw":
                if g.get("err"): return
                ex.cover("closed"); yield "ensures: only a closed stream refuses", z3.And(w.closed, z3.BoolVal(is_exc(o, "Stream_error"))); return
            yield "ensures: a closed stream refuses", z3.Not(w.closed); yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err")); r = U(o[1]); p, n = rem(w, ex, st); k = g.get("k")
            ex.cover("forwarded") if g["inner"] is not None else ex.cover("converted") if k is not None else None
            if g["inner"] is not None:
                yield "ensures: only UTF-8 is passed through", w.utf8; yield "ensures: what the source read", r == g["inner"]; yield "ensures: nothing is left over", n == 0; return
            if k is None: yield "ensures: only an empty destination asks nobody", z3.And(DN == 0, r == 0, n == 0); return
            yield "ensures: only other encodings are converted", z3.Not(w.utf8)
            if not size:
                yield "ensures: what was converted", r == k; yield "ensures: nothing is left over", n == 0
                yield "ensures: the next converted bytes", z3.Select(ex.om(st, w.dst).arr, J) == z3.If(z3.And(z3.UGE(J, w.DB), z3.ULT(J - w.DB, k)), z3.Select(OUT, w.op0 + J - w.DB), z3.Select(w.d0, J)); return
            m = min(k, size); yield "ensures: as much of it as fits", r == m; yield "ensures: the rest is left over", n == k - m
            for x in range(m): yield f"ensures: byte {x}", bv(cell(ex, st, D, x, I8), 8) == z3.Select(OUT, w.op0 + x)
            if k > m:
                ok = isinstance(p, Ptr) and p.o is w.this; yield "ensures: the left over bytes are kept", z3.BoolVal(bool(ok))
                if ok:
                    for x in range(k - m): yield f"ensures: left over byte {x}", bv(ex.load(st, Ptr(p.o, add(p.f, x)), I8, u.mods[0]), 8) == z3.Select(OUT, w.op0 + m + x)
        return dict(name="Utf8_input_stream::read(span), " + (f"{size} byte destination" if size else "destination of at least 4 bytes"), fn=READ, setup=setup, post=post, covers=["closed", "forwarded", "converted"],
                    stubs=REFS + [R(r"mlio::Utf8_input_stream::convert\(", convert)], opts=dict(virtual=w.virtual([(r"::read\(mlio::stdx::span", inner)]), watch=[J]))
    spec.__name__ = f"spec_read_{size}"
    return spec
def preamble_spec(utf8, n):
    def spec(u):
        w = W(u); V = Obj("value", n, True); v0 = A8("value[]")
        def setup(ex, st):
            w.init(ex, st); ex.objs[V.id] = V
            for x in range(n): ex.store(st, Ptr(V, x), z3.Select(v0, BV(x, 64)), I8, u.mods[0])
            st.assume(w.utf8 if utf8 else z3.Not(w.utf8), w.F0, w.P0 == 0, z3.Not(w.H0), w.E0 == w.BSZ); m = u.mods[0]; ex.store(st, Ptr(w.this, w.f("remaining_bits_")), NULL, PT, m); ex.store(st, Ptr(w.this, w.f("remaining_bits_") + 8), 0, I64, m)
            return [Ptr(w.this, 0), Ptr(V, 0) if n else NULL, n]
        def post(ex, st, o):
            p, k = rem(w, ex, st); q = cell(ex, st, w.this, w.f("buffer_pos_"), PT); H = bv(cell(ex, st, w.this, w.f("has_preamble_"), I8), 8)
            if utf8:
                yield "ensures: the preamble is delivered first", k == n
                for x in range(n): yield f"ensures: preamble byte {x}", z3.BoolVal(False) if not isinstance(p, Ptr) or p.o is None else bv(ex.load(st, Ptr(p.o, add(p.f, x)), I8, u.mods[0]), 8) == z3.Select(v0, x)
            else:
                yield "ensures: nothing is delivered unconverted", k == 0
                yield "ensures: the preamble is converted first", z3.BoolVal(False) if not isinstance(q, Ptr) or q.o is not w.B else U(q.f) == n; yield "ensures: a preamble is not taken for an incomplete character", (H != 0) == (n != 0)
                for x in range(n): yield f"ensures: preamble byte {x}", z3.Select(ex.om(st, w.B).arr, BV(x, 64)) == z3.Select(v0, x)
        return dict(name=f"Utf8_input_stream::set_preamble, {n} bytes, " + ("UTF-8" if utf8 else "to be converted"), fn=r"mlio::Utf8_input_stream::set_preamble\(", setup=setup, post=post, stubs=REFS, opts=dict(virtual=w.virtual()))
    spec.__name__ = f"spec_preamble_{int(utf8)}_{n}"
    return spec

# ---- byte order marks
MARKS = [("utf8", [0xEF, 0xBB, 0xBF]), ("utf32_be", [0, 0, 0xFE, 0xFF]), ("utf32_le", [0xFF, 0xFE, 0, 0]), ("utf16_be", [0xFE, 0xFF]), ("utf16_le", [0xFF, 0xFE])]
IDS = {n: k + 1 for k, (n, _) in enumerate(MARKS)}; OTHER = 99
def eid(ex, st, p):
    """identity of an encoding: constants by name, others by the id stored in place of the name"""
    g = getattr(p.o, "gname", None) or ""
    for n in IDS:
        if g.endswith(f"{len(n)}{n}E"): return BV(IDS[n], 64)
    return U(ex.load(st, p, I64, ex.unit.mods[0]))
def _copy(ex, st, a, i): ex.store(st, Ptr(a[0].o, a[0].f), eid(ex, st, a[1]), I64, ex.unit.mods[0]); return a[0]
ENC = [R(r"^mlio::Text_encoding::Text_encoding\(mlio::Text_encoding (const)?&&?\)", _copy), R(r"^mlio::Text_encoding::operator=\(mlio::Text_encoding (const)?&&?\)", _copy), R(r"^mlio::Text_encoding::~", nop), R(r"^mlio::Text_encoding::name", lambda ex, st, a, i: Ptr(Obj("name", None, True), 0)),
       R(r"^mlio::operator==\(mlio::Text_encoding const&, mlio::Text_encoding const&\)", lambda ex, st, a, i: eid(ex, st, a[0]) == eid(ex, st, a[1])), R(r"^mlio::operator!=\(mlio::Text_encoding const&, mlio::Text_encoding const&\)", lambda ex, st, a, i: eid(ex, st, a[0]) != eid(ex, st, a[1]))]
def wanted(b):
    """the longest byte order mark the bytes begin with: id, 0 without one"""
    r = BV(0, 64)
    for n, m in sorted(MARKS, key=lambda x: len(x[1])):
        if len(m) <= len(b): r = z3.If(z3.And(*[x == y for x, y in zip(b, m)]), BV(IDS[n], 64), r)
    return r
def bom_spec(n):
    def spec(u):
        V = Obj("preamble", n, True, mode="bytes"); v0 = A8("preamble[]"); out = outobj("result", 40)
        def setup(ex, st): return [Ptr(out, 0), Ptr(V, 0), n]
        def post(ex, st, o):
            b = [z3.Select(v0, BV(x, 64)) for x in range(n)]; w = wanted(b); e = bv(cell(ex, st, out, 32, I8), 8) != 0
            yield "ensures: an encoding is inferred exactly from a byte order mark", e == (w != 0)
            # no value is there to be read when none was stored
            if 0 in ex.om(st, out).cells: yield "ensures: the encoding of the longest mark", z3.Implies(e, eid(ex, st, Ptr(out, 0)) == w)
            else: yield "ensures: an encoding is given", z3.Not(e)
            ex.cover("mark", e) if n > 1 else None; ex.cover("none", z3.Not(e))
        return dict(name=f"infer_bom_encoding, {n} bytes", fn=r"mlio::detail::\(anonymous namespace\)::infer_bom_encoding\(", setup=setup, post=post, covers=["none"] + (["mark"] if n > 1 else []), stubs=ENC)
    spec.__name__ = f"spec_bom_{n}"
    return spec
def make_spec(given):
    def spec(u):
        w = W(u); sp, out, enc, res = outobj("stream", 8), outobj("result", 8), outobj("encoding", 40), Obj("utf8 stream", None, True); E = z3.BitVec("encoding.id", 64); seek = z3.Bool("seekable"); B4 = A8("text start")
        def setup(ex, st):
            m = u.mods[0]; vinit(ex, st, w.inner, "Inner"); ex.store(st, Ptr(sp, 0), Ptr(w.inner, 0), PT, m); ex.objs[res.id] = res; st.ghost.update(pos=BV(0, 64), made=None, pre=None, sought=False); st.assume(z3.ULE(w.LEN, LIM))
            if given: ex.store(st, Ptr(enc, 0), E, I64, m); st.assume(E != 0)
            ex.store(st, Ptr(enc, 32), 1 if given else 0, I8, m); return [Ptr(out, 0), Ptr(sp, 0), Ptr(enc, 0)]
        def fill(ex, st, a, i):
            p, n = a[1], a[2]; ex.oblige(st, "requires: the first four bytes", z3.And(z3.BoolVal(is_c(n) and n == 4 and isinstance(a[0], Ptr) and a[0].o is w.inner), st.ghost["pos"] == 0)); r = []
            e = st.copy(); e.ghost["err"] = True; r.append((e, ("throw", Thrown(INNER))))
            for k in range(5):
                s = st.copy(); s.assume(w.LEN == k if k < 4 else z3.UGE(w.LEN, BV(4, 64)))
                for x in range(k): ex.store(s, Ptr(p.o, add(p.f, x)), z3.Select(IN, BV(x, 64)), I8, u.mods[0])
                s.ghost["pos"] = BV(k, 64); s.ghost["k"] = k; r.append((s, ("ret", k)))
            return r
        def bom(ex, st, a, i):
            p, n = a[1], a[2]
            if not is_c(n): raise ir.Unsupported("preamble of unknown length")
            b = [bv(ex.load(st, Ptr(p.o, add(p.f, x)), I8, u.mods[0]), 8) for x in range(n)]; x = wanted(b); r = []
            for s, k in zip(fork(st, x != 0, x == 0), (1, 0)):
                if k: ex.store(s, a[0], x, I64, u.mods[0])
                ex.store(s, Ptr(a[0].o, add(a[0].f, 32)), k, I8, u.mods[0]); r.append((s, ("ret", None)))
            return r
        def make(ex, st, a, i):
            o = ex.load(st, a[1], PT, u.mods[0]); ex.oblige(st, "requires: the given stream is wrapped", z3.BoolVal(isinstance(o, Ptr) and o.o is w.inner)); st.ghost["made"] = eid(ex, st, a[2]); ex.store(st, a[0], Ptr(res, 0), PT, u.mods[0])
            e = st.copy(); e.ghost["err"] = True; return [(st, ("ret", None)), (e, ("throw", Thrown(CONV)))]
        def pre(ex, st, a, i):
            p, n = a[1], a[2]
            if not is_c(n): raise ir.Unsupported("preamble of unknown length")
            ex.oblige(st, "requires: the new stream", z3.BoolVal(isinstance(a[0], Ptr) and a[0].o is res)); st.ghost["pre"] = [bv(ex.load(st, Ptr(p.o, add(p.f, x)), I8, u.mods[0]), 8) for x in range(n)]
        def doseek(ex, st, a, i): ex.oblige(st, "requires: a seekable stream, to its start", z3.And(seek, U(a[1]) == 0)); st.ghost["pos"] = BV(0, 64); st.ghost["sought"] = True
        def post(ex, st, o):
            g = st.ghost
            if o[0] == "throw": yield "ensures: only a failure of the source or of the converter is an error", z3.BoolVal(bool(g.get("err"))); return
            yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err")); r = cell(ex, st, out, 0, PT); same = isinstance(r, Ptr) and r.o is w.inner; new = isinstance(r, Ptr) and r.o is res
            yield "ensures: a text stream", z3.BoolVal(bool(same or new))
            if not given:
                k = g.get("k"); yield "ensures: the start of the text is examined", z3.BoolVal(k is not None)
                if k is None: return
                b = [z3.Select(IN, BV(x, 64)) for x in range(k)]; want = z3.If(wanted(b) == 0, BV(IDS["utf8"], 64), wanted(b))
            else: want = E; b = []
            ex.cover("as is") if same else ex.cover("wrapped")
            if same: yield "ensures: only UTF-8 is passed as it is", want == IDS["utf8"]; yield "ensures: from its start", g["pos"] == 0; return
            yield "ensures: in the given or the inferred encoding, else UTF-8", g["made"] == want if g["made"] is not None else False
            d = BV(0, 64) if g["pre"] is None else BV(len(g["pre"]), 64)
            yield "ensures: the text from its start: what was examined is delivered again", z3.And(g["pos"] == d, *([x == y for x, y in zip(g["pre"], b)] if g["pre"] else []))
        return dict(name="make_utf8_stream, " + ("encoding given" if given else "encoding inferred"), fn=r"^mlio::make_utf8_stream\(", setup=setup, post=post, covers=["as is", "wrapped"],
                    stubs=REFS + ENC + [R(FILL, fill), R(r".*infer_bom_encoding\(", bom), R(r".*Utf8_input_stream_access::make<", make), R(r".*Utf8_input_stream_access::set_preamble\(", pre), R(r"^void mlio::logger::", nop), R(r"^strlen$", lambda ex, st, a, i: ex.fresh("strlen"))],
                    opts=dict(virtual=dispatch({"Inner": vtable(u, "Memory_input_stream")}, {"Inner": [(r"::seek\(", doseek), (r"::seekable\(", lambda *x: seek)]})))
    spec.__name__ = f"spec_make_{int(given)}"
    return spec
def spec_ctor(u):
    w = W(u); ip, enc = outobj("inner pointer", 8), outobj("encoding", 32); E = z3.BitVec("encoding.id", 64); f = w.f; this = outobj("this", f("__size__"))
    def setup(ex, st):
        m = u.mods[0]; vinit(ex, st, w.inner, "Inner"); ex.store(st, Ptr(ip, 0), Ptr(w.inner, 0), PT, m); ex.store(st, Ptr(enc, 0), E, I64, m); ex.objs[w.conv.id] = w.conv; st.ghost["conv"] = None; return [Ptr(this, 0), Ptr(ip, 0), Ptr(enc, 0)]
    def make(ex, st, a, i): st.ghost["conv"] = eid(ex, st, a[1]); ex.store(st, a[0], Ptr(w.conv, 0), PT, u.mods[0]); e = st.copy(); e.ghost["err"] = True; return [(st, ("ret", None)), (e, ("throw", Thrown(CONV)))]
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw": yield "ensures: only a failure of the converter is an error", z3.BoolVal(bool(g.get("err"))); return
        c = lambda n, t: cell(ex, st, this, f(n), t); i, k = c("inner_", PT), c("converter_", PT); is8 = bv(c("is_utf8_", I8), 8) != 0
        yield "ensures: the source", z3.BoolVal(isinstance(i, Ptr) and i.o is w.inner); yield "ensures: whether it is UTF-8 already", is8 == (E == IDS["utf8"]); yield "ensures: an error is not swallowed", z3.BoolVal(not g.get("err"))
        yield "ensures: nothing is left over", U(cell(ex, st, this, f("remaining_bits_") + 8, I64)) == 0; yield "ensures: no preamble", bv(c("has_preamble_", I8), 8) == 0; yield "ensures: the buffer is to be filled", bv(c("should_fill_buffer_", I8), 8) == 1
        if g["conv"] is None: ex.cover("UTF-8"); yield "ensures: only UTF-8 needs no converter", E == IDS["utf8"]; return
        ex.cover("other"); p, e, b = c("buffer_pos_", PT), c("buffer_end_", PT), c("buffer_", PT); yield "ensures: a converter from the encoding", z3.And(g["conv"] == E, z3.BoolVal(isinstance(k, Ptr) and k.o is w.conv))
        ok = all(isinstance(x, Ptr) and x.o is not None for x in (p, e, b)) and ("blk", b.o.id) in ex.lazymemo; yield "ensures: a buffer", z3.BoolVal(bool(ok))
        if ok: d, n = ex.lazymemo[("blk", b.o.id)]; yield "invariant: the whole buffer is free", z3.And(z3.BoolVal(p.o is d and e.o is d), U(p.f) == 0, U(e.f) == U(n), z3.UGE(U(n), BV(16, 64)))
    return dict(name="Utf8_input_stream()", fn=r"mlio::Utf8_input_stream::Utf8_input_stream\(mlio::Intrusive_ptr", setup=setup, post=post, covers=["UTF-8", "other"], stubs=REFS + ENC + [ALLOC, R(r".*std::make_unique<mlio::detail::Iconv_desc", make), R(r"std::unique_ptr<mlio::detail::Iconv_desc.*::~unique_ptr", nop), R(r"mlio::detail::Iconv_desc::~", nop), R(r"mlio::Input_stream(_base)?::~", nop)], opts=dict(virtual=w.virtual()))
def spec_close(u):
    w = W(u)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def close(ex, st, a, i): st.ghost["closes"] = st.ghost.get("closes", 0) + 1
    def post(ex, st, o): yield "ensures: the inner stream is closed", z3.BoolVal(o[0] != "throw" and st.ghost.get("closes") == 1)
    return dict(name="Utf8_input_stream::close", fn=r"mlio::Utf8_input_stream::close\(", setup=setup, post=post, stubs=REFS + [R(r"mlio::detail::Iconv_desc::~", nop)], opts=dict(virtual=w.virtual([(r"::close\(", close)])))
def spec_closed(u):
    w = W(u)
    def setup(ex, st): w.init(ex, st); return [Ptr(w.this, 0)]
    def post(ex, st, o): yield "ensures: closed when the inner stream is", z3.BoolVal(False) if o[0] == "throw" else bo(asbool(o[1])) == w.closed
    return dict(name="Utf8_input_stream::closed", fn=r"mlio::Utf8_input_stream::closed\(", setup=setup, post=post, opts=dict(virtual=w.virtual()))
def specs(u):
    return [spec_convert, spec_fill, spec_convert_desc, spec_flush, spec_open, spec_read_rest] + [read_spec(n) for n in range(4)] + [preamble_spec(b, n) for b in (True, False) for n in range(5)] + [bom_spec(n) for n in range(5)] + [make_spec(False), make_spec(True), spec_ctor, spec_close, spec_closed]
HARNESS = dict(file="P17.cc", srcs=build.core, secs=10)
NOTE = "the stream, its construction and the converter's wrapper are proved for all texts, sizes and read schedules over iconv's documented contract: the text is handed over exactly once and in order, nothing is lost at buffer boundaries, the converted bytes are delivered exactly once and in order, a text ending inside a character is refused."
ASSUME = ["iconv() obeys its documentation: it consumes a prefix of the input, produces the converted bytes, EINVAL leaves an incomplete character of less than 16 bytes, E2BIG with at least four free bytes has produced something", "what iconv produces for a text does not depend on how it is cut (iconv's own state)", "the inner stream returns its next bytes and nothing only at its end (P14, P30)", "destinations and texts are smaller than 2^44 bytes", "encodings are identified by their names; std::string comparison is the library's"]
