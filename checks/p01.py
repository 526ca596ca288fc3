from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv import stubs
from dv.build import field

I8, I64, PT = ir.IntTy(8), ir.IntTy(64), ir.PTR
SRCS = ["src/mlio/csv_record_tokenizer.cc"]
C = "Csv_record_tokenizer"
NEW, UNQ, Q, QQ = range(4)

def b8(x): return BV(x, 8)

def spec_next(u):
    off = lambda f: field(u, C, f)
    G = {}
    def step(cur, i, c):
        S = cur["S"]
        d, q, m, hm = G["d"], G["q"], G["m"], G["hm"]
        stop = z3.And(S != Q, c == d)
        isq = c == q
        S2 = z3.If(S == NEW, z3.If(isq, b8(Q), b8(UNQ)), z3.If(S == UNQ, b8(UNQ),
             z3.If(S == Q, z3.If(isq, b8(QQ), b8(Q)), z3.If(isq, b8(Q), b8(UNQ)))))
        push = z3.Or(z3.And(S == NEW, z3.Not(isq)), S == UNQ, z3.And(S == Q, z3.Not(isq)), S == QQ)
        full = z3.And(hm, cur["L"] == m)
        return {"S": S2, "NS": z3.And(cur["NS"], z3.Not(stop)),
                "L": z3.If(z3.And(push, z3.Not(full)), cur["L"] + 1, cur["L"]),
                "T": z3.Or(cur["T"], z3.And(push, full)),
                "A": z3.If(z3.And(push, z3.Not(full)), z3.Store(cur["A"], cur["L"], c), cur["A"])}
    F = Fold("field", {"S": z3.BitVecSort(8), "NS": z3.BoolSort(), "L": BV64, "T": z3.BoolSort(),
                       "A": z3.ArraySort(BV64, z3.BitVecSort(8))}, step)
    this = Obj("this", field(u, C, "__size__"), True)
    text = Obj("text", z3.BitVec("text.size", 64), True, mode="bytes")
    vbuf = Obj("value", None, True, mode="bytes")
    tarr = z3.Array("text[]", BV64, z3.BitVecSort(8))
    def setup(ex, st):
        N = text.size; p0 = z3.BitVec("text.pos", 64)
        st.assume(z3.ULE(N, BV(1 << 47, 64)), z3.ULE(p0, N))
        m = u.mods[0]
        # the span: data pointer and size in whatever order the class has them
        sp = u.lay.get("span<const char>", {})
        for f, (o, sz) in sp.items():
            if f in ("data_", "ptr_"): ex.store(st, Ptr(this, off("text_") + o), Ptr(text, 0), PT, m)
            elif f == "size_": ex.store(st, Ptr(this, off("text_") + o), N, I64, m)
        ex.store(st, Ptr(this, off("text_pos_")), Ptr(text, p0), PT, m)
        ex.store(st, Ptr(this, off("value_")), Ptr(vbuf, 0), PT, m)
        d, q = z3.BitVec("delimiter", 8), z3.BitVec("quote", 8)
        ex.store(st, Ptr(this, off("delimiter_")), d, I8, m)
        ex.store(st, Ptr(this, off("quote_char_")), q, I8, m)
        mx, hm = z3.BitVec("max_len", 64), z3.BitVec("has_max", 8)
        st.assume(z3.ULE(hm, BV(1, 8)))
        ex.store(st, Ptr(this, off("max_field_length_")), mx, I64, m)
        ex.store(st, Ptr(this, off("max_field_length_") + 8), hm, I8, m)
        fin = z3.BitVec("finished0", 8); st.assume(z3.ULE(fin, BV(1, 8)))
        ex.store(st, Ptr(this, off("finished_")), fin, I8, m)
        st.assume(cell(ex, st, this, off("eof_"), I8) == z3.BitVec("eof0", 8), z3.ULE(z3.BitVec("eof0", 8), BV(1, 8)))
        # invariant: finished only at the end of the text; eof only when finished
        st.assume(z3.Implies(fin == 1, p0 == N), z3.Implies(z3.BitVec("eof0", 8) == 1, fin == 1))
        G.update(d=d, q=q, m=mx, hm=hm == 1, p0=p0, N=N, fin=fin)
        st.assume(F.start(p0, S=b8(NEW), NS=z3.BoolVal(True), L=BV(0, 64), T=z3.BoolVal(False), A=z3.Array("value[]", BV64, z3.BitVecSort(8))))
        return [Ptr(this, 0)]
    def view(ex, st):
        vp = cell(ex, st, this, off("value_"), PT)
        vl = bv(cell(ex, st, this, off("value_") + 8, I64), 64)
        va = ex.om(st, vp.o).arr
        tr = bv(cell(ex, st, this, off("truncated_"), I8), 8)
        return vl, va, tr
    def cands(sn):
        out = []
        vl, va, tr = view(sn.ex, sn.st)
        for n, p in list(sn.ptrs.items()):
            if p.o is not text: continue
            f = F.at(p.f)
            out += [(f"S({n})=={k}", f["S"] == k) for k in range(4)]
            out += [(f"S({n})!={k}", f["S"] != k) for k in range(4)]
            out += [(f"NS({n})", f["NS"]), (f"L({n})", f["L"] == vl), (f"T({n})", f["T"] == (tr == 1)),
                    (f"A({n})", f["A"] == va), (f"trunc01", z3.ULE(tr, BV(1, 8)))]
            out += impl_table(sn, f["S"], range(4), f"S({n})")
        return out
    def post(ex, st, out):
        N, p0, fin = G["N"], G["p0"], G["fin"]
        end = F.at(N)
        if out[0] == "throw":
            ex.cover("rejects a row ending in quotes")
            yield "ensures: an error is only raised for a row that ends inside quotes", z3.And(fin == 0, end["NS"], end["S"] == Q)
            yield "ensures: the error is the corrupt-record error", z3.BoolVal(bool(out[1].ty and "Corrupt_record_error" in out[1].ty))
            return
        vl, va, tr = view(ex, st)
        r = bo(asbool(out[1]))
        pos = cell(ex, st, this, off("text_pos_"), PT)
        fin2 = bv(cell(ex, st, this, off("finished_"), I8), 8); eof2 = bv(cell(ex, st, this, off("eof_"), I8), 8)
        if pos.o is not text:
            yield "ensures: the cursor stays in the row", False; return
        ex.cover("field ended by delimiter", z3.And(r, fin2 == 0)); ex.cover("last field", z3.And(r, fin2 == 1)); ex.cover("no more field", z3.Not(r))
        e = z3.If(fin2 == 1, N, pos.f - 1) if not is_c(pos.f) else z3.If(fin2 == 1, N, BV(pos.f - 1, 64))
        st.assume(F.unfold(tarr, e))
        f = F.at(e)
        more = fin == 0
        yield "ensures: a field is returned exactly while the row is not used up", r == more
        yield "ensures: a field ends at the first delimiter outside quotes or at the end of the row", z3.Implies(more, z3.And(
            f["NS"], z3.Implies(fin2 == 0, z3.And(z3.ULE(p0, e), z3.ULT(e, N), f["S"] != Q, z3.Select(tarr, e) == G["d"])),
            z3.Implies(fin2 == 1, z3.And(f["S"] != Q, bv(pos.f, 64) == N))))
        K = z3.BitVec("K", 64)
        yield "ensures: the field has the length the quoting rules give", z3.Implies(more, f["L"] == vl)
        yield "ensures: the field has the characters the quoting rules give", z3.Implies(z3.And(more, z3.ULT(K, vl)), z3.Select(f["A"], K) == z3.Select(va, K))
        yield "ensures: truncation is reported exactly when something was cut", z3.Implies(more, z3.And(f["T"] == (tr == 1), z3.ULE(tr, BV(1, 8))))
        yield "ensures: the end is reported only after the last field", (eof2 == 1) == z3.Not(more)
        yield "ensures: after the end no field value remains", z3.Implies(z3.Not(more), z3.And(vl == 0, tr == 0, fin2 == 1))
        yield "invariant: finished only at the end of the row", z3.And(z3.ULE(fin2, BV(1, 8)), z3.Implies(fin2 == 1, bv(pos.f, 64) == N), z3.ULE(bv(pos.f, 64), N))
    return dict(name="Csv_record_tokenizer::next", fn=r"mlio::detail::Csv_record_tokenizer::next\(\)", setup=setup, post=post,
                cands=[cands], on_load=[F.hook(text, tarr)], covers=["field ended by delimiter", "last field", "no more field", "rejects a row ending in quotes"])

HARNESS = dict(file="P01.cc", srcs=build.core)
def specs(u): return [spec_next(u)]
NOTE = ("Csv_record_tokenizer::next proved for all rows, lengths, delimiters, quote characters and limits, against recursively defined quoting rules; "
        "std::string is an assumed contract; the caller loop is covered by the bounded stand-in only.")
