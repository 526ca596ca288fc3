from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p05 import le32

SRCS = ["src/mlio/record_readers/parquet_record_reader.cc", "src/mlio/memory/memory_slice.cc"]
PAR1 = 0x31524150
HEADS = (0x15, 0x29, 0x36, 0x49, 0x59, 0x68, 0x79)
text, N, T = bytes_obj("data")
J = z3.BitVec("J", 64)
def sel(i): return z3.Select(T, z3.simplify(bv(i, 64)))
def magic(i): return le32(T, bv(i, 64)) == PAR1
def footer(p):
    """the magic number at p is preceded by plausible metadata inside the record"""
    m = z3.ZeroExt(32, le32(T, p - 4)); e = p - 4
    return z3.And(z3.UGE(m, BV(9, 64)), z3.ULE(m + 4, e), sel(e - 1) == 0, z3.Or(*[sel(e - m) == h for h in HEADS]))
# in the proof of decode_record the footer test is opaque: its meaning is the
# contract of is_footer, proved on its own
foot = z3.Function("footer", z3.BitVecSort(64), z3.BoolSort())
def cut(p): return z3.And(magic(p), foot(p))
def nocut(e): return z3.Implies(z3.And(z3.ULE(BV(8, 64), J), z3.ULT(J, e)), z3.Not(cut(J)))

def spec_decode(u):
    S, O = Slice(u), OptRecord(u)
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    this = Obj("this", field(u, "Parquet_record_reader", "__size__"), True)
    ign = z3.Bool("ignore_leftover")
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        return [Ptr(out, 0), Ptr(this, 0), Ptr(chunk, 0), ign]
    def cands(sn):
        return [(f"no record end before {n}", z3.And(nocut(bv(p.f, 64)), z3.ULE(BV(8, 64), bv(p.f, 64)))) for n, p in sn.ptrs.items() if p.o is text]
    def post(ex, st, o):
        short = z3.ULT(N, BV(12, 64))
        if o[0] == "throw":
            bad = z3.Or(z3.ULT(N, BV(4, 64)), z3.Not(magic(0)))
            ex.cover("bad start", bad); ex.cover("no footer", z3.Not(bad))
            yield "ensures: the only error is a corrupt record", z3.BoolVal(is_exc(o, "Corrupt_header_error", "Corrupt_footer_error"))
            yield "ensures: rejected only for a wrong start, or at the end without a footer", z3.And(N != 0, z3.Or(z3.And(z3.UGE(N, BV(4, 64)), z3.Not(magic(0))), z3.And(z3.Not(ign), z3.Or(short, nocut(N - 3)))))
            return
        eng = simp(O.engaged(ex, st, out))
        c = S.within(ex, st, chunk, 0, text)
        if eng is True:
            ex.cover("file")
            w = S.within(ex, st, out, O.payload, text); k = S.get(ex, st, out, O.payload)[2]
            if w is None:
                yield "ensures: the record is part of the data", False; return
            b, e = w
            yield "ensures: the record starts where the data starts, with the magic number", z3.And(b == 0, magic(0))
            yield "ensures: the record lies inside the data", z3.And(z3.ULE(BV(12, 64), e), z3.ULE(e, N))
            yield "ensures: the record ends with a magic number and footer", cut(e - 4)
            yield "ensures: there is no earlier end", nocut(e - 4)
            yield "ensures: the record is a complete one and keeps its block alive", z3.And(z3.BoolVal(k.o is blk), bv(cell(ex, st, out, O.kind, I32), 32) == 0)
            if c is None:
                cb, ce, _ = S.get(ex, st, chunk, 0)
                yield "ensures: the rest starts right after the record", z3.And(bo(ex.icmp(st, "eq", cb, ce, PT)), N == e)
            else: yield "ensures: the rest starts right after the record", z3.And(c[0] == e, c[1] == N)
        elif eng is False:
            ex.cover("waits", N != 0); ex.cover("end", N == 0)
            yield "ensures: an incomplete file is left untouched", z3.BoolVal(False) if c is None else z3.And(c[0] == 0, c[1] == N)
            yield "ensures: waits only while more may come and no end is there", z3.Or(N == 0, z3.And(ign, z3.Or(z3.ULT(N, BV(4, 64)), magic(0)), z3.Or(short, nocut(N - 3))))
        else: yield "ensures: a record or nothing", False
    def is_footer(ex, st, a, i):
        # the contract proved below
        q = a[-1]; w = S.within(ex, st, a[-2].o, a[-2].f, text)
        if w is None or q.o is not text: raise ir.Unsupported("is_footer outside the data")
        ex.oblige(st, "requires: is_footer is asked about a place with room for a footer", z3.And(w[0] == 0, w[1] == N, z3.ULE(BV(8, 64), bv(q.f, 64)), z3.ULE(bv(q.f, 64), N)))
        r = ex.freshb("is_footer"); st.assume(r == foot(bv(q.f, 64)))
        return r
    FOOT = R(r"mlio::detail::Parquet_record_reader::is_footer\(", is_footer)
    return dict(name="Parquet_record_reader::decode_record", fn=r"mlio::detail::Parquet_record_reader::decode_record\(mlio::Memory_slice&, bool\)", setup=setup, post=post, cands=[cands], stubs=REFS + [FOOT],
                covers=["bad start", "no footer", "file", "waits", "end"])

def spec_footer(u):
    S = Slice(u)
    chunk = Obj("chunk", S.size, False); blk = Obj("block", None, True); p = z3.BitVec("pos", 64)
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)), z3.ULE(BV(8, 64), p), z3.ULE(p, N))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        return [Ptr(chunk, 0), Ptr(text, p)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        r = bo(asbool(o[1]))
        ex.cover("footer", r); ex.cover("none", z3.Not(r))
        yield "ensures: recognises exactly the plausible footers inside the record", r == footer(p)
    return dict(name="Parquet_record_reader::is_footer", fn=r"mlio::detail::Parquet_record_reader::is_footer\(", setup=setup, post=post, stubs=REFS, covers=["footer", "none"])

HARNESS = dict(file="P07.cc", srcs=build.core, secs=6)
def specs(u): return [spec_decode, spec_footer]
NOTE = "Parquet_record_reader::decode_record and is_footer proved for all byte sequences; the whole reader is additionally run against an independent splitter."
