from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

RR = "src/mlio/record_readers/"
SRCS = [RR + "recordio_record_reader.cc", RR + "detail/recordio_header.cc", "src/mlio/memory/memory_slice.cc"]
MAGIC = 0xced7230a
def le32(T, i): return z3.Concat(*[z3.Select(T, BV(i + k, 64) if is_c(i) else z3.simplify(i + k)) for k in (3, 2, 1, 0)])

def spec_decode(u):
    S, O = Slice(u), OptRecord(u)
    text, N, T = bytes_obj("data")
    chunk = Obj("chunk", S.size, False); out = outobj("result", O.size); blk = Obj("block", None, True)
    this = Obj("this", field(u, "Recordio_record_reader", "__size__"), True)
    ign = z3.Bool("ignore_leftover")
    w0, w1 = le32(T, 0), le32(T, 4)
    plen = z3.ZeroExt(32, w1 & BV((1 << 29) - 1, 32)); al = (plen + 3) & BV(~3 & (1 << 64) - 1, 64); size = al + 8
    kind = z3.LShR(w1, 29)
    head, magic = z3.UGE(N, BV(8, 64)), w0 == MAGIC
    fits = z3.ULE(size, N)
    def hint(ex, st, a, i):
        st.ghost["hint"] = bv(a[1], 64)
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)))
        S.set(ex, st, chunk, 0, text, 0, N, blk)
        st.ghost["hint"] = BV(0, 64)
        return [Ptr(out, 0), Ptr(this, 0), Ptr(chunk, 0), ign]
    def post(ex, st, o):
        if o[0] == "throw":
            ex.cover("bad magic", z3.And(head, z3.Not(magic))); ex.cover("short header", z3.And(z3.Not(head), z3.Not(ign))); ex.cover("short payload", z3.And(head, magic, z3.Not(fits)))
            yield "ensures: the only error is a corrupt record", z3.BoolVal(is_exc(o, "Corrupt_header_error", "Corrupt_record_error"))
            yield "ensures: rejected only for a wrong magic number or incomplete data at the end", z3.And(N != 0, z3.Or(z3.And(head, z3.Not(magic)), z3.And(z3.Not(ign), z3.Not(head)), z3.And(z3.Not(ign), z3.Not(fits))))
            return
        eng = simp(O.engaged(ex, st, out))
        c = S.within(ex, st, chunk, 0, text)
        if eng is True:
            ex.cover("record", plen != 0); ex.cover("empty record", plen == 0); ex.cover("padding", plen != al)
            w = S.within(ex, st, out, O.payload, text); k = S.get(ex, st, out, O.payload)[2]
            yield "ensures: the header is complete, has the magic number and its payload is there", z3.And(head, magic, fits)
            yield "ensures: the payload is exactly the encoded bytes", z3.BoolVal(False) if w is None else z3.And(w[0] == 8, w[1] == plen + 8)
            yield "ensures: the part kind is the encoded one", bv(cell(ex, st, out, O.kind, I32), 32) == kind
            yield "ensures: the payload keeps its block alive", z3.BoolVal(k.o is blk)
            if c is None:
                b, e, _ = S.get(ex, st, chunk, 0)
                yield "ensures: the rest starts after the padding", z3.And(bo(ex.icmp(st, "eq", b, e, PT)), N == size)
            else: yield "ensures: the rest starts after the padding", z3.And(c[0] == size, c[1] == N)
        elif eng is False:
            ex.cover("waits", N != 0); ex.cover("end", N == 0)
            yield "ensures: an incomplete record is left untouched", z3.BoolVal(False) if c is None else z3.And(c[0] == 0, c[1] == N)
            yield "ensures: no record is withheld", z3.Or(N == 0, z3.And(ign, z3.Or(z3.Not(head), z3.And(magic, z3.Not(fits)))))
            yield "ensures: the buffer is asked to hold the whole record", z3.Or(N == 0, z3.Not(head), st.ghost["hint"] == size)
        else: yield "ensures: a record or nothing", False
    return dict(name="Recordio_record_reader::decode_record", fn=r"mlio::detail::Recordio_record_reader::decode_record\(mlio::Memory_slice&, bool\)", setup=setup, post=post,
                stubs=REFS + [R(r"mlio::Stream_record_reader::set_record_size_hint\(", hint)], covers=["bad magic", "short header", "short payload", "record", "empty record", "padding", "waits", "end"])

def spec_header(u):
    data, N, T = bytes_obj("bits")
    def setup(ex, st):
        st.assume(z3.ULE(N, BV(SIZE_MAX, 64)))
        return [Ptr(data, 0), N]
    def post(ex, st, o):
        if o[0] == "throw":
            ex.cover("bad magic")
            yield "ensures: rejected only for a wrong magic number", z3.And(z3.BoolVal(is_exc(o, "Corrupt_header_error")), z3.UGE(N, BV(8, 64)), le32(T, 0) != MAGIC); return
        v = bv(o[1], 64)
        eng = z3.Extract(39, 32, v) & 1
        ex.cover("header", eng == 1); ex.cover("incomplete", eng == 0)
        yield "ensures: a header exactly when eight bytes are there", (eng == 1) == z3.UGE(N, BV(8, 64))
        yield "ensures: it is the second word after the magic number", z3.Implies(eng == 1, z3.And(le32(T, 0) == MAGIC, z3.Extract(31, 0, v) == le32(T, 4)))
    return dict(name="decode_recordio_header", fn=r"mlio::detail::decode_recordio_header\(", setup=setup, post=post, stubs=[], covers=["bad magic", "header", "incomplete"])

HARNESS = dict(file="P05.cc", srcs=build.core, secs=6)
def specs(u): return [spec_decode, spec_header]
NOTE = "decode_recordio_header and Recordio_record_reader::decode_record (with the slice operations inlined) proved for all byte sequences; the whole reader is additionally run against an independent decoder."
