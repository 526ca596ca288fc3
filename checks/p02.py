from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, vec_of

SRCS = ["src/mlio/record_readers/detail/text_line.cc", "src/mlio/record_readers/text_line_record_reader.cc", "src/mlio/record_readers/text_record_reader.cc",
        "src/mlio/memory/memory_slice.cc", "src/mlio/text_line_reader.cc"]
LF, CR = 10, 13
def term(c): return z3.Or(c == LF, c == CR)

class Line:
    """the contract of detail::read_line.  J is an arbitrary byte index: what is
    shown for J holds for every index."""
    J = z3.BitVec("J", 64)
    @staticmethod
    def nt(T, b, e):
        """no terminator in [b, e) of the text"""
        J = Line.J
        return z3.Implies(z3.And(z3.ULE(b, J), z3.ULT(J, e)), z3.Not(term(z3.Select(T, J))))
    @staticmethod
    def next(T, k, N):
        """where the next line starts after a terminator at k"""
        crlf = z3.And(z3.Select(T, k) == CR, z3.ULT(k + 1, N), z3.Select(T, k + 1) == LF)
        return z3.If(crlf, k + 2, k + 1)

def spec_read_line(u):
    S, O = Slice(u), OptRecord(u)
    text, N, T = bytes_obj("text")
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    ign, mx, hm = z3.Bool("ignore_leftover"), z3.BitVec("max", 64), z3.BitVec("has_max", 8)
    J = Line.J
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)), z3.ULE(hm, BV(1, 8)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        f = u.one(FN)
        base = [Ptr(out, 0), Ptr(chunk, 0), ign]
        rest = f.params[3:]
        if len(rest) == 2: base += [mx, hm]
        else: raise ir.Unsupported("read_line: parameter passing")
        return base
    FN = r"mlio::detail::read_line\(mlio::Memory_slice&, bool, std::optional<unsigned long>\)"
    def cands(sn):
        r = []
        for n, p in sn.ptrs.items():
            if p.o is text: r.append((f"no terminator before {n}", Line.nt(T, BV(0, 64), bv(p.f, 64))))
        for n, (v, w) in sn.ints.items():
            if w == 64: r.append((f"no terminator before {n}", Line.nt(T, BV(0, 64), bv(v, 64))))
        return r
    def post(ex, st, o):
        has = hm == 1
        lastcr = z3.And(N != 0, z3.Select(T, N - 1) == CR)
        if o[0] == "throw":
            ex.cover("too long", z3.BoolVal(is_exc(o, "Record_too_large_error")))
            if is_exc(o, "Record_too_large_error"):
                yield "ensures: rejected as too large only if the line is longer than the maximum", z3.And(has, z3.ULT(mx, N), Line.nt(T, BV(0, 64), mx + 1))
            else:
                yield "ensures: the only other error is for an empty text", z3.And(z3.BoolVal(is_exc(o, "Corrupt_record_error")), N == 0, z3.Not(ign))
            return
        eng = simp(O.engaged(ex, st, out))
        if eng is True:
            ex.cover("a line")
            w = S.within(ex, st, out, O.payload, text)
            b, e, k = S.get(ex, st, out, O.payload)
            if w is None:
                yield "ensures: the line is part of the text", False; return
            b, e = w
            yield "ensures: the line starts where the text starts", b == 0
            yield "ensures: the line lies inside the text", z3.ULE(e, N)
            yield "ensures: the line contains no terminator", Line.nt(T, b, e)
            yield "ensures: the line ends at a terminator or at the end of the text", z3.Or(z3.And(z3.ULT(e, N), term(z3.Select(T, e))), z3.And(e == N, z3.Not(ign)))
            yield "ensures: a line that does not fit is not delivered", z3.Implies(has, z3.ULE(e, mx))
            yield "ensures: the line keeps the memory block alive", z3.BoolVal(k.o is blk)
            yield "ensures: a line is a complete record", bv(cell(ex, st, out, O.kind, I32), 32) == 0
            c = S.within(ex, st, chunk, 0, text)
            if c is not None:
                ex.cover("more text follows")
                yield "ensures: the rest starts right after the terminator", z3.And(c[1] == N, c[0] == z3.If(e == N, N, Line.next(T, e, N)))
            else:
                cb, ce, _ = S.get(ex, st, chunk, 0)
                yield "ensures: nothing is left only at the end of the text", z3.And(bo(ex.icmp(st, "eq", cb, ce, PT)), z3.Or(e == N, Line.next(T, e, N) == N))
            yield "ensures: a carriage return at the end of a partial text waits for a line feed", z3.Not(z3.And(ign, e == N - 1, lastcr))
        elif eng is False:
            ex.cover("waits for more")
            c = S.within(ex, st, chunk, 0, text)
            yield "ensures: nothing is consumed while waiting", z3.BoolVal(False) if c is None else z3.And(c[0] == 0, c[1] == N)
            yield "ensures: waits only if more may come and the line is not complete", z3.And(ign, z3.Or(Line.nt(T, BV(0, 64), N), z3.And(lastcr, Line.nt(T, BV(0, 64), N - 1))))
        else:
            yield "ensures: the result is a record or nothing", False
    return dict(name="detail::read_line", fn=FN, setup=setup, post=post, cands=[cands], stubs=REFS, covers=["a line", "more text follows", "waits for more", "too long"])

def read_line_contract(u, text, T, N, has_max=False):
    """the contract proved above, as seen by callers whose chunk is a suffix of
    the text; an empty rest is represented as the empty suffix"""
    S, O = Slice(u), OptRecord(u)
    J = Line.J
    def h(ex, st, args, inst):
        ret, ch, ign = args[0], args[1], bo(asbool(args[2]))
        w = S.within(ex, st, ch.o, ch.f, text)
        if w is None: raise ir.Unsupported("read_line on a chunk outside the text")
        p, e0 = w
        ex.oblige(st, "requires: read_line is given the rest of the text", z3.And(e0 == N, z3.ULE(p, N)))
        r = []
        empty = p == N
        mx, hm = args[3], bv(args[4], 8) == 1
        lastcr = z3.Select(T, N - 1) == CR
        if ex.feasible(st, z3.And(empty, z3.Not(ign))):
            n = st.copy(); n.assume(empty, z3.Not(ign)); r.append((n, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE"))))
        k = ex.fresh("line_end")
        long = z3.And(hm, z3.ULT(bv(mx, 64), N - p), Line.nt(T, p, p + bv(mx, 64) + 1))
        if ex.feasible(st, long):
            n = st.copy(); n.assume(long); r.append((n, ("throw", Thrown("_ZTIN4mlio6abi_v122Record_too_large_errorE"))))
        line = z3.And(z3.Not(empty), z3.ULE(p, k), z3.ULE(k, N), Line.nt(T, p, k), z3.Or(z3.And(z3.ULT(k, N), term(z3.Select(T, k))), z3.And(k == N, z3.Not(ign))),
                      z3.Implies(hm, z3.ULE(k - p, bv(mx, 64))), z3.Not(z3.And(ign, k == N - 1, lastcr)))
        if ex.feasible(st, line):
            n = st.copy(); n.assume(line)
            nx = z3.If(k == N, N, Line.next(T, k, N))
            kb = cell(ex, n, ch.o, ch.f + S.blk, PT)
            O.put(ex, n, ret, S, text, p, k, kb.o)
            nb = ex.fresh("rest"); n.assume(nb == nx)
            S.set(ex, n, ch.o, ch.f, text, nb, N, kb.o)
            n.ghost["line"] = (p, k)
            r.append((n, ("ret", None)))
        wait = z3.And(ign, z3.Or(Line.nt(T, p, N), z3.And(lastcr, Line.nt(T, p, N - 1))))
        if ex.feasible(st, wait):
            n = st.copy(); n.assume(wait)
            O.put_none(ex, n, ret)
            r.append((n, ("ret", None)))
        return r
    return R(r"mlio::detail::read_line\(mlio::Memory_slice&, bool, std::optional<unsigned long>\)", h)

def spec_decode(u):
    S, O = Slice(u), OptRecord(u)
    text, N, T = bytes_obj("text")
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    this = Obj("this", field(u, "Text_line_record_reader", "__size__"), True)
    ign, skip = z3.Bool("ignore_leftover"), z3.BitVec("skip_blank", 8)
    J = Line.J
    FN = r"mlio::detail::Text_line_record_reader::decode_text_record\(mlio::Memory_slice&, bool\)"
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)), z3.ULE(skip, BV(1, 8)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        ex.store(st, Ptr(this, field(u, "Text_line_record_reader", "skip_blank_")), skip, I8, u.mods[0])
        return [Ptr(out, 0), Ptr(this, 0), Ptr(chunk, 0), ign]
    def blank(b, e): return z3.Implies(z3.And(z3.ULE(b, J), z3.ULT(J, e)), term(z3.Select(T, J)))
    def cands(sn):
        r = []
        for n, p in sn.ptrs.items():
            if p.o is text: r += [(f"only terminators before {n}", blank(BV(0, 64), bv(p.f, 64))), (f"{n}<=N", z3.ULE(bv(p.f, 64), N))]
        return r
    def post(ex, st, o):
        sk = skip == 1
        if o[0] == "throw":
            yield "ensures: no error while text remains", False
            return
        eng = simp(O.engaged(ex, st, out))
        c = S.within(ex, st, chunk, 0, text)
        if c is None:
            yield "ensures: the rest stays part of the text", False; return
        if eng is True:
            w = S.within(ex, st, out, O.payload, text)
            if w is None:
                yield "ensures: the line is part of the text", False; return
            b, e = w
            ex.cover("line while skipping", sk); ex.cover("line", z3.Not(sk))
            yield "ensures: without skipping the first line is returned, blank or not", z3.Implies(z3.Not(sk), b == 0)
            yield "ensures: only blank lines are skipped", blank(BV(0, 64), b)
            yield "ensures: a blank line is never returned when blank lines are skipped", z3.Implies(sk, e != b)
            yield "ensures: the line is whole", z3.And(Line.nt(T, b, e), z3.ULE(b, e), z3.ULE(e, N), z3.Or(z3.And(z3.ULT(e, N), term(z3.Select(T, e))), z3.And(e == N, z3.Not(ign))))
            yield "ensures: the rest starts right after the line", z3.And(c[1] == N, c[0] == z3.If(e == N, N, Line.next(T, e, N)))
        elif eng is False:
            ex.cover("end", c[0] == N); ex.cover("waits", c[0] != N)
            yield "ensures: nothing but blank lines is consumed while waiting", z3.And(c[1] == N, blank(BV(0, 64), c[0]), z3.Implies(z3.Not(sk), c[0] == 0))
            yield "ensures: no line is withheld", z3.Or(c[0] == N, z3.And(ign, z3.Or(Line.nt(T, c[0], N), z3.And(z3.Select(T, N - 1) == CR, Line.nt(T, c[0], N - 1)))))
        else: yield "ensures: the result is a record or nothing", False
    return dict(name="Text_line_record_reader::decode_text_record", fn=FN, setup=setup, post=post, cands=[cands], stubs=REFS + [read_line_contract(u, text, T, N)],
                covers=["line while skipping", "line", "end", "waits"])

def spec_bom(u):
    """Text_record_reader::decode_record: the byte order mark"""
    S, O = Slice(u), OptRecord(u)
    text, N, T = bytes_obj("text")
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    this = Obj("this", field(u, "Text_record_reader", "__size__"), True)
    ign, done = z3.Bool("ignore_leftover"), z3.BitVec("bom_skipped", 8)
    off = field(u, "Text_record_reader", "bom_skipped_")
    FN = r"mlio::Text_record_reader::decode_record\(mlio::Memory_slice&, bool\)"
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)), z3.ULE(done, BV(1, 8)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        ex.store(st, Ptr(this, off), done, I8, u.mods[0])
        st.ghost["called"] = False
        return [Ptr(out, 0), Ptr(this, 0), Ptr(chunk, 0), ign]
    def virt(ex, st, c, args, inst):
        # the derived class's decode_text_record, whatever it does
        ch = args[2]
        w = S.within(ex, st, ch.o, ch.f, text)
        ex.oblige(st, "requires: record decoding is handed the rest of the text once", z3.BoolVal(w is not None and not st.ghost["called"]))
        st.ghost["called"] = True; st.ghost["from"] = w[0]; st.ghost["to"] = w[1]
        ex.oblige(st, "requires: record decoding is told whether more may come", bo(asbool(args[3])) == ign)
        O.put_none(ex, st, args[0])
        return [(st, ("ret", None))]
    def post(ex, st, o):
        if o[0] == "throw":
            yield "ensures: no error", False; return
        bom = z3.And(z3.UGE(N, BV(3, 64)), z3.Select(T, BV(0, 64)) == 0xEF, z3.Select(T, BV(1, 64)) == 0xBB, z3.Select(T, BV(2, 64)) == 0xBF)
        d2 = bv(cell(ex, st, this, off, I8), 8)
        if st.ghost["called"]:
            ex.cover("mark", bom); ex.cover("no mark", z3.Not(bom))
            yield "ensures: exactly a mark at the very start is dropped", z3.And(st.ghost["to"] == N, st.ghost["from"] == z3.If(z3.And(done == 0, bom), BV(3, 64), BV(0, 64)))
            yield "ensures: the start is looked at once", d2 == 1
            yield "ensures: an empty text has no records", N != 0
            yield "ensures: too short a start waits for more", z3.Not(z3.And(done == 0, z3.ULT(N, BV(3, 64)), ign))
        else:
            c = S.within(ex, st, chunk, 0, text)
            ex.cover("waits", N != 0)
            yield "ensures: waiting consumes nothing", z3.And(c[0] == 0, c[1] == N, d2 == done) if c else z3.BoolVal(False)
            yield "ensures: waits only for a start that may be a mark", z3.Or(N == 0, z3.And(done == 0, z3.ULT(N, BV(3, 64)), ign))
            yield "ensures: waiting returns nothing", z3.Not(O.engaged(ex, st, out))
    return dict(name="Text_record_reader::decode_record", fn=FN, setup=setup, post=post, stubs=REFS, opts=dict(virtual=virt), covers=["mark", "no mark", "waits"])

# ---- the lines of an example: Text_line_reader::decode
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
B64 = z3.BitVecSort(64)
NI, SIZE, K = (z3.BitVec(n, 64) for n in ("number of instances", "batch size", "K")); LINE = z3.Function("length of line", B64, B64)      # K any instance
def spec_tensor(u):
    fn = r"mlio::Text_line_reader::make_tensor\("; out, arr, tensor = Obj("result", 8, True), Obj("array", None, True), Obj("tensor", None, True); m = u.mods[0]
    def setup(ex, st):
        for o in (out, arr, tensor): ex.objs[o.id] = o
        st.ghost.update(arr=False, done=False); return args_of(u, fn, {"agg.result": Ptr(out, 0), "batch_size": SIZE})
    def cpu(ex, st, a, i): ex.oblige(st, "requires: a string for every row of the batch", z3.And(bv(a[1], 32) == 12, U(a[2]) == SIZE)); st.ghost["arr"] = True; ex.store(st, a[0], Ptr(arr, 0), PT, m)
    def dense(ex, st, a, i):
        d, n = vec_of(ex, st, a[1].o, a[1].f); p = ex.load(st, a[2], PT); b = cell(ex, st, a[1].o, a[1].f, PT) if d is not None else None
        ex.oblige(st, "requires: the shape is rows by one", z3.And(n == 16, *[U(cell(ex, st, d, simp(U(b.f) + 8 * k), I64)) == U(v) for k, v in enumerate((SIZE, 1))]) if d is not None else False); ex.oblige(st, "requires: the new array", TF(isinstance(p, Ptr) and p.o is arr and st.ghost["arr"])); st.ghost["done"] = True; ex.store(st, a[0], Ptr(tensor, 0), PT, m); ex.store(st, a[2], NULL, PT, m)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, out, 0, PT); ex.cover("tensor", TF(True)); yield "ensures: the new tensor", TF(isinstance(p, Ptr) and p.o is tensor and st.ghost["done"])
    return dict(name="Text_line_reader::make_tensor", fn=fn, setup=setup, post=post, covers=["tensor"], stubs=[R(r"mlio::make_cpu_array\(", cpu), R(r".*mlio::make_intrusive<mlio::Dense_tensor", dense), R(r"std::unique_ptr<.*>::~unique_ptr", lambda ex, st, a, i: None)], budget=60)
def spec_example(u):
    fn = r"mlio::Text_line_reader::decode\("; m = u.mods[0]; w = field(u, "Instance", "__size__"); nop = lambda ex, st, a, i: None
    this, batch, insts, schema, tensor, rows, bits, texts, exm, out = Obj("reader", field(u, "Text_line_reader", "__size__"), True), Obj("batch", field(u, "Instance_batch", "__size__"), True), Obj("instances", simp(NI * w), True), Obj("schema", None, True), Obj("tensor", None, True), Obj("rows", simp(SIZE * 32), True), Obj("bits", simp(NI * 24), True), Obj("texts", U(1 << 44), True), Obj("example", field(u, "Example", "__size__"), True), Obj("result", 8, True); PADOFF = field(u, "Example", "padding")
    def setup(ex, st):
        for o in (this, batch, insts, schema, tensor, rows, bits, texts, exm, out): ex.objs[o.id] = o
        ex.bounded(st, NI, SIZE); st.assume(z3.ULE(NI, SIZE)); e = simp(NI * w); o = field(u, "Instance_batch", "instances_")
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(batch, o + k), Ptr(insts, v), PT, m)
        ex.store(st, Ptr(batch, field(u, "Instance_batch", "size_")), SIZE, I64, m); st.ghost.update(n=BV(0, 64), tensor=False, listed=False, example=False, row=BV(-1, 64), failed=BV(0, 8)); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(this, 0), "batch": Ptr(batch, 0)})
    def make(ex, st, a, i): ex.oblige(st, "requires: a tensor of the batch's size, once", z3.And(TF(not st.ghost["tensor"]), U(a[1]) == SIZE)); st.ghost["tensor"] = True; ex.store(st, a[0], Ptr(tensor, 0), PT, m)
    def get(ex, st, a, i):
        """contract of Instance::bits (P06): the text of the instance, or the failure to read it"""
        k = quot(simp(a[0].f), w) if isinstance(a[0], Ptr) and a[0].o is insts else None
        if k is None: ex.oblige(st, "requires: an instance of the batch", False); return Ptr(bits, 0)
        f = st.copy(); f.ghost["failed"] = BV(1, 8); return [(st, ("ret", Ptr(bits, simp(U(k) * 24)))), (f, ("throw", Thrown("_ZTIN4mlio6abi_v112Stream_errorE")))]
    def view(ex, st, a, i):
        k = quot(simp(a[1].f), 24) if isinstance(a[1], Ptr) and a[1].o is bits else None
        if k is None: ex.oblige(st, "requires: the bits of an instance", False); return
        ex.store(st, Ptr(a[0].o, a[0].f), Ptr(texts, simp(U(k))), PT, m); ex.store(st, Ptr(a[0].o, simp(U(a[0].f) + 8)), LINE(U(k)), I64, m)
    def assign(ex, st, a, i):
        g = st.ghost; r = quot(simp(a[0].f), 32) if isinstance(a[0], Ptr) and a[0].o is rows else None; n = ex.load(st, a[1], I64); p = ex.load(st, Ptr(a[1].o, simp(U(a[1].f) + 8)), PT)
        if r is None or not (isinstance(p, Ptr) and p.o is texts): ex.oblige(st, "requires: a row of the tensor and a line of the batch", False); return a[0]
        r = U(r); k = U(p.f); ex.oblige(st, "requires: the next row inside the tensor", z3.And(r == g["n"], z3.ULT(r, SIZE))); ex.oblige(st, "requires: the whole line of the same instance", z3.And(k == r, U(n) == LINE(k))); g["row"] = U(simp(z3.If(k == K, r, g["row"]))); g["n"] = U(simp(g["n"] + 1)); return a[0]
    def push(ex, st, a, i): p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the tensor, once", TF(isinstance(p, Ptr) and p.o is tensor and not st.ghost["listed"])); st.ghost["listed"] = (a[0].o, a[0].f); ex.store(st, a[1], NULL, PT, m); return a[0]
    def example(ex, st, a, i):
        s_ = ex.load(st, a[1], PT); l = st.ghost["listed"]; ex.oblige(st, "requires: the reader's schema and the tensor, after every line", z3.And(TF(isinstance(s_, Ptr) and s_.o is schema and l and a[2].o is l[0] and eqc(a[2].f, l[1])), st.ghost["n"] == NI)); st.ghost["example"] = True; ex.store(st, a[0], Ptr(exm, 0), PT, m); ex.store(st, Ptr(exm, PADOFF), 0, I64, m)
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("lines read", z3.ULE(n, NI)), ("row of line K", z3.Implies(z3.ULT(K, n), g["row"] == K)), ("no failure", g["failed"] == 0)]
        for mm, (v, wd) in sn.ints.items():
            if wd == 64: r.append((f"{mm} lines", U(v) == n))
        for mm, q in sn.ptrs.items():
            for ob, sz in ((insts, w), (rows, 32)):
                k = quot(simp(q.f), sz) if q.o is ob else None
                if k is not None: r.append((f"{mm} next", U(k) == n))
        return r
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw": ex.cover("error"); yield "ensures: an error only if a line cannot be read", g["failed"] == 1; return
        p = cell(ex, st, out, 0, PT); ex.cover("full", z3.And(NI == 3, SIZE == 3)); ex.cover("padded", z3.And(NI == 3, SIZE == 5)); yield "ensures: an example of the tensor", TF(isinstance(p, Ptr) and p.o is exm and g["example"]); yield "ensures: every line is decoded", g["n"] == NI; yield "ensures: no failure is hidden", g["failed"] == 0
        yield "ensures: line K is in row K", z3.Implies(z3.ULT(K, NI), g["row"] == K); yield "ensures: padding is what the lines leave of the batch", U(cell(ex, st, exm, PADOFF, I64)) == SIZE - NI
    VT = r"(.* )?std::vector<mlio::Intrusive_ptr<mlio::Tensor>, .*?>::"
    stubs = [R(r"mlio::Text_line_reader::make_tensor\(", make), R(r"mlio::Instance::bits\(", get), R(r"mlio::stdx::span<std::byte const>::span<mlio::Memory_slice>", view), R(r".*std::(__cxx11::)?basic_string<char.*operator=<std::basic_string_view", assign),
        R(r"mlio::Dense_tensor::data\(\)", lambda ex, st, a, i: (ex.oblige(st, "requires: the new tensor", TF(a[0].o is tensor)), Ptr(rows, 0))[1]), R(r".*mlio::Basic_device_array_span<mlio::Device_array>::as<std::", lambda ex, st, a, i: [(st, ("ret", [Ptr(rows, 0), SIZE]))]), R(VT + r"(emplace_back|push_back)", push), R(VT + r"(~?vector|reserve)\(", nop), R(r".*mlio::make_intrusive<mlio::Example", example),
        R(r"mlio::Parallel_data_reader::schema\(", lambda ex, st, a, i: ex.store(st, a[0], Ptr(schema, 0), PT, m)), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop)]
    return dict(name="Text_line_reader::decode", fn=fn, setup=setup, post=post, covers=["full", "padded", "error"], cands=[cands], stubs=stubs, opts=dict(scale={insts.id: w, rows.id: 32, bits.id: 24}, watch=[K]), budget=60)

HARNESS = dict(file="P02.cc", srcs=build.core)
def specs(u): return [spec_read_line, spec_decode, spec_bom, spec_tensor, spec_example]
NOTE = ("the lines become the rows of the example, one row each and padding counted (Text_line_reader::decode, make_tensor); detail::read_line, Text_line_record_reader::decode_text_record and Text_record_reader::decode_record (with skip_utf8_bom and the Memory_slice operations inlined) proved for all texts; "
        "reading chunk by chunk is P04's contract, the whole reader is additionally run against an independent splitter on bounded texts.")
