from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks import p02
from checks.p02 import term, LF, CR, Line

SRCS = ["src/mlio/record_readers/csv_record_reader.cc", "src/mlio/record_readers/detail/text_line.cc", "src/mlio/memory/memory_slice.cc"]
NEW, UNQ, Q, QQ = range(4)
def b8(x): return BV(x, 8)
READ = r"mlio::detail::Csv_record_reader::read_line\(mlio::Memory_slice&, bool\)"
PLAIN = r"mlio::detail::read_line\(mlio::Memory_slice&, bool, std::optional<unsigned long>\)"

def params(u, ex, st):
    """a Csv_params object with arbitrary contents"""
    f = lambda n: field(u, "Csv_params", n)
    P = Obj("params", field(u, "Csv_params", "__size__"), True)
    v = dict(d=z3.BitVec("delimiter", 8), q=z3.BitVec("quote", 8), cm=z3.BitVec("comment", 8), hc=z3.BitVec("has_comment", 8), mx=z3.BitVec("max", 64), hm=z3.BitVec("has_max", 8),
             aq=z3.BitVec("allow_quoted", 8), sk=z3.BitVec("skip_blank", 8))
    for n, k, o in (("delimiter", "d", 0), ("quote_char", "q", 0), ("comment_char", "cm", 0), ("comment_char", "hc", 1), ("allow_quoted_new_lines", "aq", 0), ("skip_blank_lines", "sk", 0), ("max_line_length", "hm", 8)):
        ex.store(st, Ptr(P, f(n) + o), v[k], I8, u.mods[0])
    ex.store(st, Ptr(P, f("max_line_length")), v["mx"], I64, u.mods[0])
    st.assume(*[z3.ULE(v[k], b8(1)) for k in ("hc", "hm", "aq", "sk")])
    return P, v

def spec_read_line(u):
    S, O = Slice(u), OptRecord(u)
    text, N, T = bytes_obj("text")
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    this = Obj("this", field(u, "Csv_record_reader", "__size__"), True)
    ign = z3.Bool("ignore_leftover"); J = Line.J
    G = {}
    def step(cur, i, c):
        s = cur["S"]; d, q = G["d"], G["q"]
        isq = c == q
        inq = z3.If(isq, b8(QQ), b8(Q))
        return {"S": z3.If(s == Q, inq, z3.If(c == d, b8(NEW), z3.If(s == NEW, z3.If(isq, b8(Q), b8(UNQ)), z3.If(s == UNQ, b8(UNQ), z3.If(isq, b8(Q), b8(UNQ))))))}
    F = Fold("row", {"S": z3.BitVecSort(8)}, step)
    def ends(k): return z3.And(F.at(k)["S"] != Q, term(z3.Select(T, k)))
    def none(e):
        """no row end before e"""
        return z3.Implies(z3.ULT(J, e), z3.Not(ends(J)))
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        P, v = params(u, ex, st); G.update(v)
        # a delimiter or quote character that is a line terminator is outside the property
        st.assume(z3.Not(term(v["d"])), z3.Not(term(v["q"])))
        ex.store(st, Ptr(this, field(u, "Csv_record_reader", "params_")), Ptr(P, 0), PT, u.mods[0])
        st.assume(F.start(0, S=b8(NEW)))
        return [Ptr(out, 0), Ptr(this, 0), Ptr(chunk, 0), ign]
    def cands(sn):
        r = []
        for n, p in sn.ptrs.items():
            if p.o is not text: continue
            s = F.at(p.f)["S"]
            r += [(f"S({n})=={k}", s == k) for k in range(4)] + [(f"S({n})!={k}", s != k) for k in range(4)]
            r += impl_table(sn, s, range(4), f"S({n})")
            r += [(f"no row end before {n}", none(bv(p.f, 64))), (f"{n}<=N", z3.ULE(bv(p.f, 64), N))]
        return r
    def post(ex, st, o):
        mx, has = G["mx"], G["hm"] == 1
        st.assume(F.unfold(T, 0))
        lastcr = z3.And(N != 0, z3.Select(T, N - 1) == CR, F.at(N - 1)["S"] != Q)
        if o[0] == "throw":
            if is_exc(o, "Record_too_large_error"):
                ex.cover("too long")
                yield "ensures: rejected as too large only if the row is longer than the maximum", z3.And(has, z3.ULT(mx, N), none(mx + 1))
            else:
                ex.cover("open quote", N != 0)
                yield "ensures: the only other error is text that ends inside a quoted field", z3.And(z3.BoolVal(is_exc(o, "Corrupt_record_error")), z3.Not(ign), z3.Or(N == 0, z3.And(F.at(N)["S"] == Q, none(N))))
            return
        eng = simp(O.engaged(ex, st, out))
        if eng is True:
            b, e, k = S.get(ex, st, out, O.payload)
            w = S.within(ex, st, out, O.payload, text)
            if w is None:
                yield "ensures: the row is part of the text", False; return
            b, e = w
            ex.cover("a row with text after it", z3.ULT(e, N)); ex.cover("last row without terminator", e == N); ex.cover("new line inside quotes", z3.And(z3.ULT(J, e), z3.Select(T, J) == LF))
            yield "ensures: the row starts where the text starts", b == 0
            yield "ensures: the row lies inside the text", z3.ULE(e, N)
            yield "ensures: no unquoted line terminator lies inside the row", none(e)
            yield "ensures: the row ends at an unquoted line terminator or at the end of the text", z3.Or(z3.And(z3.ULT(e, N), ends(e)), z3.And(e == N, z3.Not(ign)))
            yield "ensures: a row that does not fit is not delivered", z3.Implies(has, z3.ULE(e, mx))
            yield "ensures: text that ends inside a quoted field is not delivered", z3.Implies(e == N, F.at(N)["S"] != Q)
            yield "ensures: the row keeps the memory block alive", z3.BoolVal(k.o is blk)
            yield "ensures: a row is a complete record", bv(cell(ex, st, out, O.kind, I32), 32) == 0
            c = S.within(ex, st, chunk, 0, text)
            if c is not None:
                yield "ensures: the rest starts right after the terminator", z3.And(c[1] == N, c[0] == z3.If(e == N, N, Line.next(T, e, N)))
            else:
                cb, ce, _ = S.get(ex, st, chunk, 0)
                yield "ensures: nothing is left only at the end of the text", z3.And(bo(ex.icmp(st, "eq", cb, ce, PT)), z3.Or(e == N, Line.next(T, e, N) == N))
            yield "ensures: a carriage return at the end of a partial text waits for a line feed", z3.Not(z3.And(ign, e == N - 1, lastcr))
        elif eng is False:
            ex.cover("waits for more", N != 0)
            c = S.within(ex, st, chunk, 0, text)
            yield "ensures: nothing is consumed while waiting", z3.BoolVal(False) if c is None else z3.And(c[0] == 0, c[1] == N)
            yield "ensures: waits only if more may come and the row is not complete", z3.And(ign, z3.Or(none(N), z3.And(lastcr, none(N - 1))))
        else: yield "ensures: the result is a record or nothing", False
    return dict(name="Csv_record_reader::read_line", fn=READ, setup=setup, post=post, cands=[cands], on_load=[F.hook(text, T)], stubs=REFS,
                covers=["a row with text after it", "last row without terminator", "waits for more", "too long", "open quote", "new line inside quotes"])

def spec_decode(u):
    """which lines are dropped, and which of the two line readers is used"""
    S, O = Slice(u), OptRecord(u)
    text, N, T = bytes_obj("text")
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    this = Obj("this", field(u, "Csv_record_reader", "__size__"), True)
    ign = z3.Bool("ignore_leftover")
    G = {}
    FN = r"mlio::detail::Csv_record_reader::decode_text_record\(mlio::Memory_slice&, bool\)"
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        P, v = params(u, ex, st); G.update(v)
        ex.store(st, Ptr(this, field(u, "Csv_record_reader", "params_")), Ptr(P, 0), PT, u.mods[0])
        st.ghost.update(pos=BV(0, 64), keep=z3.BoolVal(False), wait=z3.BoolVal(False), lb=BV(0, 64), le=BV(0, 64))
        return [Ptr(out, 0), Ptr(this, 0), Ptr(chunk, 0), ign]
    def comment(p): return z3.And(G["hc"] == 1, z3.ULT(p, N), z3.Select(T, p) == G["cm"])
    def reader(quoted):
        def h(ex, st, args, inst):
            if quoted: ret, ch, ig = args[0], args[2], args[3]
            else: ret, ch, ig = args[0], args[1], args[2]
            w = S.within(ex, st, ch.o, ch.f, text)
            if w is None: raise ir.Unsupported("read_line on a chunk outside the text")
            p, e0 = w
            ex.oblige(st, "requires: a line reader is given the rest of the text", z3.And(e0 == N, p == st.ghost["pos"], z3.ULT(p, N)))
            ex.oblige(st, "requires: a line reader is told whether more may come", bo(asbool(ig)) == ign)
            ex.oblige(st, "requires: no row is dropped before the next one is read", z3.Not(st.ghost["keep"]))
            ex.oblige(st, "requires: nothing is read after the reader asked for more", z3.Not(st.ghost["wait"]))
            c = comment(p)
            if quoted: ex.oblige(st, "requires: quoted new lines are honoured exactly when enabled and not in comments", z3.And(z3.Not(c), G["aq"] == 1))
            else:
                mx, hm = args[3], bv(args[4], 8)
                ex.oblige(st, "requires: plain lines are used for comments, or when quoted new lines are off", z3.Or(c, G["aq"] == 0))
                ex.oblige(st, "requires: rows are held to the configured maximum length, comments are not", z3.If(c, hm == 0, z3.And(hm == G["hm"], z3.Implies(hm == 1, bv(mx, 64) == G["mx"]))))
            r = []
            n = st.copy(); r.append((n, ("throw", Thrown("_ZTIN4mlio6abi_v122Record_too_large_errorE"))))
            if quoted: n = st.copy(); n.assume(z3.Not(ign)); r.append((n, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE"))))
            n = st.copy(); n.assume(ign); O.put_none(ex, n, ret); n.ghost["wait"] = z3.BoolVal(True); r.append((n, ("ret", None)))
            n = st
            k, nx = ex.fresh("line_end"), ex.fresh("rest")
            n.assume(z3.ULE(p, k), z3.ULE(k, N), z3.ULT(p, nx), z3.ULE(k, nx), z3.ULE(nx, N))
            kb = cell(ex, n, ch.o, ch.f + S.blk, PT)
            O.put(ex, n, ret, S, text, p, k, kb.o)
            S.set(ex, n, ch.o, ch.f, text, nx, N, kb.o)
            n.ghost.update(pos=nx, lb=p, le=k, keep=z3.Not(z3.Or(c, z3.And(G["sk"] == 1, k == p))))
            r.append((n, ("ret", None)))
            return r
        return h
    def cands(sn):
        g = sn.st.ghost
        r = [("no row pending", z3.Not(g["keep"])), ("not waiting", z3.Not(g["wait"])), ("pos<=N", z3.ULE(g["pos"], N))]
        for n, p in sn.ptrs.items():
            if p.o is text: r.append((f"{n}==pos", bv(p.f, 64) == g["pos"]))
        return r
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw":
            yield "ensures: errors come from reading a line only", z3.BoolVal(is_exc(o, "Record_too_large_error", "Corrupt_record_error")); return
        c = S.within(ex, st, chunk, 0, text)
        if c is None:
            yield "ensures: the rest stays part of the text", False; return
        yield "ensures: exactly the lines read are consumed", z3.And(c[1] == N, c[0] == g["pos"])
        eng = simp(O.engaged(ex, st, out))
        if eng is True:
            ex.cover("row"); ex.cover("blank row", g["lb"] == g["le"]); ex.cover("row after dropped lines", g["lb"] != 0)
            w = S.within(ex, st, out, O.payload, text)
            yield "ensures: the row delivered is the one just read", z3.And(w[0] == g["lb"], w[1] == g["le"]) if w else z3.BoolVal(False)
            yield "ensures: comments and unwanted blank lines are not delivered", g["keep"]
        elif eng is False:
            ex.cover("nothing", c[0] == N); ex.cover("waits", g["wait"])
            yield "ensures: a row is never swallowed", z3.Not(g["keep"])
            yield "ensures: nothing is returned only if the text is used up or more must come", z3.Or(g["pos"] == N, g["wait"])
        else: yield "ensures: the result is a record or nothing", False
    return dict(name="Csv_record_reader::decode_text_record", fn=FN, setup=setup, post=post, cands=[cands], stubs=REFS + [R(READ, reader(True)), R(PLAIN, reader(False))],
                covers=["row", "blank row", "row after dropped lines", "nothing", "waits"])

HARNESS = dict(file="P03.cc", srcs=build.core)
def specs(u): return [spec_read_line, spec_decode, p02.spec_read_line]
NOTE = ("Csv_record_reader::read_line (quote-aware row automaton), Csv_record_reader::decode_text_record (comments, blanks, choice of line reader, length limit) and detail::read_line proved for all texts and parameters; "
        "a delimiter or quote character that is itself a line terminator is excluded.")
