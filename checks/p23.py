import re
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, words, vec_of, arr_of

SRCS = ["src/mlio/csv_reader.cc", "src/mlio/record_readers/csv_record_reader.cc", "src/mlio/data_stores/in_memory_store.cc"]
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
fixed = lambda e: U(simp(e))
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
C, F, K, ROW, S, LEN = (z3.BitVec(n, 64) for n in ("number of columns", "number of fields", "K", "row", "number of tensors", "row length"))      # K any column
IGN, TYPES = z3.Array("column is not selected", B64, B32), z3.Array("column types", B64, B32)
CNT = z3.Function("selected columns before", B64, B64); RES = z3.Function("parse result of column", B64, B32); OVER = z3.Function("field is over-long", B64, z3.BoolSort())
CUT = z3.Bool("row ends inside a quoted field"); ERR, WARN, HAND = z3.BitVec("error on bad instances", 8), z3.BitVec("warn of bad instances", 8), z3.BitVec("handling of over-long fields", 32)
def cnt(k): return [CNT(k + 1) == CNT(k) + z3.If(z3.Select(IGN, k) == 0, BV(1, 64), BV(0, 64)), z3.ULE(CNT(k), k), z3.Implies(z3.ULT(k, C), z3.ULE(CNT(k + 1), CNT(C)))]     # definition of CNT and that it does not decrease
def sel(k): return z3.Select(IGN, k) == 0
TOK = r"mlio::detail::Csv_record_tokenizer::"
class Tokens:
    """contract of the tokenizer (P01) over a row of F fields: next() gives one after another, then the end; a row that ends inside a quoted field is corrupt"""
    def __init__(s): s.V, s.T = Obj("field values", U(1 << 44), True), Obj("field texts", U(1 << 44), True)
    def init(s, ex, st): st.ghost["t"] = BV(0, 64); st.ghost["eof"] = BV(0, 8); ex.bounded(st, F)
    def next(s, ex, st, a, i):
        t = st.ghost["t"]; y, e, x = st.copy(), st.copy(), st.copy(); y.assume(z3.ULT(t, F)); y.ghost["t"] = fixed(t + 1); y.ghost["eof"] = BV(0, 8); e.assume(t == F, z3.Not(CUT)); e.ghost["eof"] = BV(1, 8); x.assume(t == F, CUT); x.ghost["corrupt"] = True
        return [(y, ("ret", 1)), (e, ("ret", 0)), (x, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE")))]
    def cur(s, st): return st.ghost["t"] - 1
    def stubs(s):
        def view(ex, st, a, i):
            if a[0].o is not s.V: return [(st, ("ret", [ex.fresh("length"), Ptr(Obj("message text", None, True), 0)]))]
            k = quot(simp(a[0].f), 32); return [(st, ("ret", [z3.Function("field length", B64, B64)(U(k)), Ptr(s.T, simp(U(k) * 8))]))]
        return [R(TOK + r"next\(\)", s.next), R(TOK + r"eof\(\)", lambda ex, st, a, i: st.ghost["eof"]), R(TOK + r"truncated\(\)", lambda ex, st, a, i: z3.If(OVER(s.cur(st)), BV(1, 8), BV(0, 8))), R(TOK + r"value", lambda ex, st, a, i: Ptr(s.V, simp(s.cur(st) * 32))), R(TOK + r"~Csv_record_tokenizer", nop),
                R(r"std::basic_string<char, .*>::operator std::basic_string_view", view)]
LOG = [R(r"(void )?mlio::logger::", nop), R(r"std::basic_string<char, .*>::~basic_string\(\)", nop), R(r"mlio::Invalid_instance_error::", nop), R(r"mlio::Schema_error::", nop), R(r".*std::basic_string_view<.*>::basic_string_view\(char const\*\)", nop)]
def zip_order(name):
    """byte offset of each component in a zip iterator of that type (libstdc++ keeps the last component first)"""
    keys = dict(idx="counting_iterator<", names="std::basic_string<char", types="Data_type const*", ignores="int const*", parsers="std::function<")
    i = name.index("tbb::zip_iterator<"); d = 0; parts = [""]
    for c in name[i + len("tbb::zip_iterator<"):]:
        if c == "," and d == 0: parts.append(""); continue
        d += c in "<("; d -= c in ">)"
        if d < 0: break
        parts[-1] += c
    def kind(p): m = re.search(r"__normal_iterator<(.*)", p); p = re.sub(r"mlio::(abi_v1::)?", "", (m.group(1) if m else p).strip().replace("tbb::", "").replace("std::__cxx11::", "std::")); return next(k for k, t in keys.items() if p.startswith(t))
    ks = [kind(p) for p in parts]; return {k: 8 * (len(ks) - 1 - j) for j, k in enumerate(ks)}
class Columns:
    """the columns of the reader: names, types, whether they are selected, parsers; the tensors of the selected ones in the same order"""
    def __init__(s, u):
        s.u = u; s.names, s.types, s.ign, s.pars = Obj("column names", simp(U(C) * 32), True), Obj("column types", simp(U(C) * 4), True), Obj("column ignores", simp(U(C) * 4), True), Obj("column parsers", simp(U(C) * 32), True)
        s.tv, s.ts, s.data = Obj("tensor vector", 24, True), Obj("tensor list", simp(U(S) * 8), True), Obj("tensor data", U(1 << 44), True); s.TS = 1 << 8; s.tens = Obj("tensors", simp(U(S) * s.TS), True); s.state, s.reader = Obj("state", 64, True), Obj("reader", field(u, "Csv_reader", "__size__"), True)
    def init(s, ex, st):
        m = s.u.mods[0]
        for o in (s.names, s.pars, s.tv, s.tens, s.data, s.state, s.reader): ex.objs[o.id] = o
        for o, a in ((s.types, TYPES), (s.ign, IGN)): ex.objs[o.id] = o; w = ex.omw(st, o); w.mode, w.ew, w.arr, w.cells = "words", 4, a, {}
        words(ex, st, s.ts, z3.Array("tensor pointers", B64, B64)); ex.bounded(st, C); st.assume(z3.ULT(C, BV(1 << 38, 64)), CNT(BV(0, 64)) == 0, CNT(C) == S, z3.ULE(S, C), *cnt(K)); setvec(ex, st, Ptr(s.tv, 0), s.ts, S); d = lambda n: field(s.u, "Decoder_state", n); f = lambda n: field(s.u, "Csv_reader", n)
        for n, v, t in (("reader", Ptr(s.reader, 0), PT), ("tensors", Ptr(s.tv, 0), PT), ("warn_bad_instance", WARN, I8), ("error_bad_example", ERR, I8)): ex.store(st, Ptr(s.state, d(n)), v, t, m)
        st.assume(z3.ULE(WARN, 1), z3.ULE(ERR, 1)); ex.store(st, Ptr(s.reader, f("params_") + field(s.u, "Csv_params", "max_field_length_handling")), HAND, I32, m); e = simp(U(C) * 32)
        for n, o, w in (("column_names_", s.names, 32), ("column_types_", s.types, 4), ("column_ignores_", s.ign, 4), ("column_parsers_", s.pars, 32)):
            for k, v in ((0, 0), (8, simp(U(C) * w)), (16, simp(U(C) * w))): ex.store(st, Ptr(s.reader, f(n) + k), Ptr(o, v), PT, m)
    def scale(s): return {s.names.id: 32, s.types.id: 4, s.ign.id: 4, s.pars.id: 32, s.ts.id: 8, s.tens.id: s.TS}
    def elems(s): return {s.ts.id: lambda ex, st, i: Ptr(s.tens, simp(U(i) * s.TS))}
    def zip(s, ex, st, o, off, name, k):
        z = zip_order(name); m = s.u.mods[0]; k = U(k); ex.store(st, Ptr(o, off + z["idx"]), k, I64, m)
        for n, b, w in (("names", s.names, 32), ("types", s.types, 4), ("ignores", s.ign, 4), ("parsers", s.pars, 32)):
            if n in z: ex.store(st, Ptr(o, off + z[n]), Ptr(b, simp(k * w)), PT, m)
    def load(s, ex, st, o, off, n):
        if o is s.ign: st.assume(*cnt(z3.LShR(U(off), BV(2, 64))))
    def at(s, sn):
        """(name, index) of the loop's pointers into the columns and into the tensors"""
        r, t = [], []
        for n, q in sn.ptrs.items():
            for o, w in ((s.names, 32), (s.types, 4), (s.ign, 4), (s.pars, 32)):
                if q.o is o and quot(simp(q.f), w) is not None: r.append((n, U(quot(simp(q.f), w))))
            if q.o is s.ts and quot(simp(q.f), 8) is not None: t.append((n, U(quot(simp(q.f), 8))))
        return r, t
def spec_row(u):
    fn = r"mlio::Csv_reader::Decoder<.*>::decode\("; X, T = Columns(u), Tokens(); name = next(dem(n) for m in u.mods for n in m.funcs if re.search(fn, dem(n))); dk = next(k for k in u.lay if k.startswith("Decoder<")); d = lambda n: field(u, dk, n); this, inst, tok, text, store = Obj("this", d("__size__"), True), Obj("instance", field(u, "Instance", "__size__"), True), Obj("tokenizer", None, True), Obj("row text", LEN, True), Obj("data store", None, True)
    bits = field(u, "Instance", "bits_")
    def parse(ex, st, a, i):
        k = quot(simp(a[0].f), 32) if isinstance(a[0], Ptr) and a[0].o is X.pars else None; t = quot(simp(a[3].f), 8) if isinstance(a[3], Ptr) and a[3].o is X.data else None; v = quot(simp(a[2].f), 8) if isinstance(a[2], Ptr) and a[2].o is T.T else None; g = st.ghost
        if k is None or t is None or v is None: ex.oblige(st, "requires: a column's parser, field and tensor", False); return ex.fresh("parsed", 32)
        k, t, v = U(k), U(t), U(v); st.assume(*cnt(k))
        ex.oblige(st, "requires: the field of the column", z3.And(v == k, z3.ULT(k, C), v == T.cur(st), U(a[1]) == z3.Function("field length", B64, B64)(v))); ex.oblige(st, "requires: only selected columns are stored", sel(k)); ex.oblige(st, "requires: the tensor of the column", z3.And(t == CNT(k), z3.ULT(t, S))); ex.oblige(st, "requires: the row asked for", U(a[4]) == ROW)
        r = RES(k); st.assume(z3.ULE(r, 2)); g["parsed"] = bv(simp(z3.If(k == K, g["parsed"] + 1, g["parsed"])), 8); g["bad"] = bv(simp(z3.If(r != 0, BV(1, 8), g["bad"])), 8); return r
    def reset(ex, st, a, i): ex.oblige(st, "requires: the text of the instance, once", z3.And(TF(a[0].o is tok and isinstance(a[1], Ptr) and a[1].o is text and st.ghost.get("set") is None), U(a[1].f) == 0, U(a[2]) == LEN)); st.ghost["set"] = True; T.init(ex, st)
    def span(ex, st, a, i): ex.oblige(st, "requires: the instance's payload", TF(a[1].o is inst and eqc(simp(a[1].f), bits))); ex.store(st, a[0], Ptr(text, 0), PT, u.mods[0]); ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), LEN, I64, u.mods[0])
    def setup(ex, st):
        for o in (this, inst, tok, text, store): ex.objs[o.id] = o
        X.init(ex, st); m = u.mods[0]; ex.bounded(st, LEN, F); vinit(ex, st, store, "Store"); st.assume(z3.UGE(F, 1)); st.ghost.update(parsed=BV(0, 8), bad=BV(0, 8))
        ex.store(st, Ptr(this, d("state_")), Ptr(X.state, 0), PT, m); ex.store(st, Ptr(this, d("tokenizer_")), Ptr(tok, 0), PT, m); X.zip(ex, st, this, d("col_beg_"), name, BV(0, 64)); X.zip(ex, st, this, d("col_end_"), name, C)
        return args_of(u, fn, {"this": Ptr(this, 0), "row_idx": ROW, "instance": Ptr(inst, 0)})
    def cands(sn):
        g = sn.st.ghost; cs, ts = X.at(sn); r = [("no bad field yet", g["bad"] == 0)]; t = g.get("t"); ks = cs + [(n, U(v)) for n, (v, w) in sn.ints.items() if w == 64]
        if t is None: return r
        r += [("fields read", z3.ULE(t, F)), ("not at the end", g["eof"] == 0), ("fields and columns", z3.ULE(t, C + 1)), ("column K once", g["parsed"] == z3.If(z3.And(z3.ULT(K, t), z3.ULT(K, C), sel(K)), BV(1, 8), BV(0, 8))), ("column K stored", z3.Implies(z3.And(z3.ULT(K, t), z3.ULT(K, C), sel(K)), z3.And(RES(K) == 0, z3.Not(z3.And(OVER(K), HAND == 0)))))]
        r += [("column K at most once", z3.ULE(g["parsed"], 1)), ("column K only if selected", z3.Implies(z3.Not(sel(K)), g["parsed"] == 0)), ("columns behind are not stored", z3.Implies(z3.UGE(K, t), g["parsed"] == 0))]
        for n, k in ks: r += [(f"{n} column of the next field", t == k), (f"{n} at most all", z3.ULE(k, C))]
        for n, k in ts:
            r += [(f"{n} tensors at {m}", k == CNT(c)) for m, c in ks] + [(f"{n} tensors at the field", k == CNT(t))]
        return r
    def post(ex, st, out):
        g = st.ghost; t = g.get("t", BV(0, 64)); last = t - 1; over = z3.And(z3.ULE(t, C), t != 0, sel(last), OVER(last)); reason = z3.Or(g["bad"] == 1, z3.And(over, HAND == 0), F != C)
        yield "frame: a column is stored at most once, and only if selected", z3.And(z3.ULE(g["parsed"], 1), z3.Implies(z3.Not(sel(K)), g["parsed"] == 0))
        if out[0] == "throw":
            if g.get("corrupt"): yield "ensures: the error of a corrupt row is passed on", TF(is_exc(out, "Corrupt_record_error")); return
            if is_exc(out, "invalid_argument"): yield "ensures: refused only for an unknown handling", z3.And(over, HAND != 0, HAND != 1, HAND != 2); return
            ex.cover("error"); yield "ensures: a bad row is an error only if asked for", z3.And(TF(is_exc(out, "Invalid_instance_error")), ERR != 0, reason); return
        ok = bo(asbool(out[1])); ex.cover("good row", z3.And(ok, C == 3)); ex.cover("wrong number of fields", z3.And(z3.Not(ok), g["bad"] == 0, F == C + 1)); ex.cover("unparsable", z3.And(z3.Not(ok), g["bad"] == 1)); mine = z3.And(z3.ULT(K, C), sel(K))
        yield "ensures: a good row has a field for every column", z3.Implies(ok, z3.And(F == C, z3.Not(CUT))); yield "ensures: every selected column of a good row is stored", z3.Implies(z3.And(ok, mine), z3.And(g["parsed"] == 1, RES(K) == 0)); yield "ensures: a good row has no over-long field that is to be refused", z3.Implies(z3.And(ok, mine), z3.Not(z3.And(OVER(K), HAND == 0)))
        yield "ensures: a row is refused only for a reason, and silently only if asked for", z3.Implies(z3.Not(ok), z3.And(reason, ERR == 0))
    V = dispatch({"Store": vtable(u, "In_memory_store")}, {"Store": [(r"::id", lambda ex, st, a, i: Ptr(Obj("id", 32, True), 0))]})
    stubs = [R(r"std::function<.*>::operator\(\)\(", parse), R(TOK + r"reset\(", reset), R(r"mlio::Instance::bits\(\)", lambda ex, st, a, i: Ptr(a[0].o, add(a[0].f, bits))), R(r"mlio::stdx::span<std::byte const>::span<mlio::Memory_slice", span), R(r"mlio::Instance::data_store\(\)", lambda ex, st, a, i: Ptr(store, 0)), R(r"mlio::Instance::index\(\)", lambda ex, st, a, i: ex.fresh("index")),
             R(r"mlio::Dense_tensor::data\(\)", lambda ex, st, a, i: Ptr(X.data, simp(U(quot(simp(a[0].f), X.TS)) * 8)))]
    return dict(name="Csv_reader::Decoder::decode", fn=fn, setup=setup, post=post, covers=["good row", "wrong number of fields", "unparsable", "error"], cands=[cands], on_load=[X.load], stubs=stubs + T.stubs() + LOG, opts=dict(watch=[K], scale=X.scale(), elems=X.elems(), virtual=V), budget=120)
# ---- the rows of a batch
NI, SIZE, J, KT = (z3.BitVec(n, 64) for n in ("number of instances", "batch size", "J", "T")); BAD = z3.BitVec("bad example handling", 32)     # J any instance, T any tensor
OK = z3.Function("instance is good", B64, z3.BoolSort()); GOOD = z3.Function("good instances before", B64, B64); TYPE = z3.Function("type of tensor", B64, B32)
def good(i): return [GOOD(i + 1) == GOOD(i) + z3.If(OK(i), BV(1, 64), BV(0, 64)), z3.ULE(GOOD(i), i), z3.Implies(z3.ULT(i, NI), z3.And(z3.ULE(GOOD(i + 1), GOOD(NI)), z3.ULE(GOOD(NI) - GOOD(i + 1), NI - i - 1)))]      # definition of GOOD and that it grows by at most one
PAD = z3.Or(BAD == 3, BAD == 4); SKIP = z3.Or(BAD == 1, BAD == 2)
class Batch:
    def __init__(s, u):
        s.u, s.X = u, Columns(u); s.w = field(u, "Instance", "__size__"); s.batch, s.inst, s.params = Obj("batch", field(u, "Instance_batch", "__size__"), True), Obj("instances", simp(U(NI) * s.w), True), Obj("parameters", field(u, "Data_reader_params", "__size__"), True)
    def init(s, ex, st):
        X, m = s.X, s.u.mods[0]; X.init(ex, st)
        for o in (s.batch, s.inst, s.params): ex.objs[o.id] = o
        ex.bounded(st, NI, SIZE); e = simp(U(NI) * s.w); o = field(s.u, "Instance_batch", "instances_"); st.assume(GOOD(BV(0, 64)) == 0, *good(J), z3.ULE(NI, SIZE))
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(s.batch, o + k), Ptr(s.inst, v), PT, m)
        ex.store(st, Ptr(s.params, field(s.u, "Data_reader_params", "bad_example_handling")), BAD, I32, m); st.ghost.update(n=BV(0, 64), bad=BV(0, 8), at=BV(-1, 64), cleared=BV(0, 8), c=BV(0, 64))
    def row(s, ex, st, a, i, first=None):
        """contract of Decoder::decode (above): a good instance or not; it is an error in that mode only"""
        k = quot(simp(a[2].f), s.w) if isinstance(a[2], Ptr) and a[2].o is s.inst else None
        if k is None: ex.oblige(st, "requires: an instance of the batch", False); return 0
        k = U(k); g = st.ghost; st.assume(*good(k)); at = GOOD(k) if first is None else k; ex.oblige(st, "requires: instances of the batch in order", z3.And(k == g["n"], z3.ULT(k, NI))); ex.oblige(st, "requires: good rows are stacked without gaps" if first is None else "requires: the row of the instance", U(a[1]) == at)
        ok, no, er = st.copy(), st.copy(), st.copy(); ok.assume(OK(k)); no.assume(z3.Not(OK(k)), BAD != 0); er.assume(z3.Not(OK(k)), BAD == 0); er.ghost["error"] = True; n = fixed(k + 1)
        ok.ghost.update(n=n, at=fixed(z3.If(k == J, at, g["at"]))); no.ghost.update(n=n, bad=BV(1, 8)); corrupt = st.copy(); corrupt.ghost["corrupt"] = True
        return [(ok, ("ret", 1)), (no, ("ret", 0)), (er, ("throw", Thrown("_ZTIN4mlio6abi_v122Invalid_instance_errorE"))), (corrupt, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE")))]
    def stubs(s):
        X = s.X
        def clear(ex, st, a, i):
            t = ex.load(st, Ptr(a[1].o, a[1].f), PT); k = quot(simp(t.f), 8) if isinstance(t, Ptr) and t.o is X.data else None
            if k is None: ex.oblige(st, "requires: the data of a tensor", False); return
            k = U(k); g = st.ghost; ex.oblige(st, "requires: the tensor's type and the row behind the good ones", z3.And(bv(a[0], 32) == TYPE(k), z3.ULT(k, S), U(ex.load(st, a[2], I64)) == GOOD(NI))); g["cleared"] = bv(simp(z3.If(k == KT, BV(1, 8), g["cleared"])), 8); g["c"] = fixed(g["c"] + 1)
        return [R(r".*Csv_reader::Decoder<.*>::decode\(", s.row), R(r".*Csv_reader::Decoder<.*>::Decoder\(", nop), R(r"mlio::Csv_reader::make_column_iterators", nop), R(r"mlio::Data_reader_base::params\(\)", lambda ex, st, a, i: Ptr(s.params, 0)),
                R(r".*mlio::dispatch<.*clear_element_op", clear), R(r"mlio::Tensor::data_type\(\)", lambda ex, st, a, i: TYPE(U(quot(simp(a[0].f), X.TS)))), R(r"mlio::Dense_tensor::data\(\)", lambda ex, st, a, i: Ptr(X.data, simp(U(quot(simp(a[0].f), X.TS)) * 8))), R(TOK + r"(~)?Csv_record_tokenizer", nop)]
    def scale(s): return {**s.X.scale(), s.inst.id: s.w}
def spec_serial(u):
    fn = r"mlio::Csv_reader::decode_ser\("; W = Batch(u); X = W.X
    def setup(ex, st): W.init(ex, st); return args_of(u, fn, {"this": Ptr(X.reader, 0), "state": Ptr(X.state, 0), "batch": Ptr(W.batch, 0)})
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("instances read", z3.ULE(n, NI)), ("all instances read", n == NI), ("only padding goes on", z3.Implies(g["bad"] == 1, PAD)), ("bad ones are counted", (g["bad"] == 1) == (GOOD(n) != n)), ("place of instance J", z3.Implies(z3.ULT(J, n), z3.Implies(OK(J), g["at"] == GOOD(J)))), ("not read yet", z3.Implies(z3.UGE(J, n), g["at"] == BV(-1, 64))), ("tensor T cleared", (g["cleared"] == 1) == z3.ULT(KT, g["c"])), ("flags", z3.And(z3.ULE(g["cleared"], 1), z3.ULE(g["bad"], 1))), ("cleared at most all", z3.ULE(g["c"], S)), ("none cleared", g["c"] == 0), ("good at most n", z3.ULE(GOOD(n), n)), ("not all good", z3.Implies(n == NI, z3.ULE(GOOD(n), NI)))]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} rows", U(v) == GOOD(n)), (f"{m} all rows", U(v) == GOOD(NI))]
        for m, q in sn.ptrs.items():
            k = quot(simp(q.f), W.w) if q.o is W.inst else quot(simp(q.f), 8) if q.o is X.ts else None
            if k is not None: r.append((f"{m} next", U(k) == (n if q.o is W.inst else g["c"]))); 
        return r
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw":
            if g.get("corrupt"): yield "ensures: the error of a corrupt row is passed on", TF(is_exc(out, "Corrupt_record_error")); return
            if g.get("error"): ex.cover("error"); yield "ensures: a bad row is an error in that mode", z3.And(TF(is_exc(out, "Invalid_instance_error")), BAD == 0); return
            yield "ensures: refused only for an unknown handling", z3.And(TF(is_exc(out, "invalid_argument")), z3.UGT(BAD, 4)); return
        n, has = out[1][0], bo(asbool(out[1][1])); ex.cover("all good", z3.And(has, g["bad"] == 0, NI == 3)); ex.cover("skipped", z3.Not(has)); ex.cover("padded", z3.And(has, g["bad"] == 1, S == 2))
        yield "ensures: skipped only for a bad row and only if asked for", z3.Implies(z3.Not(has), z3.And(g["bad"] == 1, SKIP)); yield "ensures: bad rows are left out only if asked for", z3.Implies(z3.And(has, g["bad"] == 1), PAD)
        yield "ensures: every instance is read", z3.Implies(has, g["n"] == NI); yield "ensures: the number of good rows", z3.Implies(has, U(n) == GOOD(NI)); yield "ensures: the good instances are stacked in order", z3.Implies(z3.And(has, z3.ULT(J, NI), OK(J)), g["at"] == GOOD(J)); yield "ensures: the first padding row is cleared in every tensor", z3.Implies(z3.And(has, z3.ULT(GOOD(NI), NI), z3.ULT(KT, S)), g["cleared"] == 1)
    return dict(name="Csv_reader::decode_ser", fn=fn, setup=setup, post=post, covers=["all good", "skipped", "padded", "error"], cands=[cands], stubs=W.stubs() + LOG, opts=dict(watch=[J, KT], scale=W.scale(), elems=X.elems()), budget=120)
LO, HI = z3.BitVec("first instance of the task", 64), z3.BitVec("end of the task", 64)
def spec_parallel(u):
    """parallel_for runs the worker on sub-ranges that make up the range: any one of them is followed, which J is in; other tasks may set the flag at any time, as this one may"""
    fn = r"mlio::Csv_reader::decode_prl\([^()]*\)( const)?$"; W = Batch(u); X = W.X
    def setup(ex, st): W.init(ex, st); st.assume(z3.Not(PAD)); st.ghost.update(flag=BV(0, 8), task=False); return args_of(u, fn, {"this": Ptr(X.reader, 0), "state": Ptr(X.state, 0), "batch": Ptr(W.batch, 0)})
    def par(ex, st, a, i):
        m = u.mods[0]; f = u.one(r".*mlio::Csv_reader::decode_prl\(.*operator\(\)<"); rng = Obj("sub range", 40, True); ex.objs[rng.id] = rng; g = st.ghost; seen = []
        for off in (0, 8, 16, 24, 32):
            at = Ptr(a[0].o, add(a[0].f, off)); v = ex.load(st, at, PT)
            if not (isinstance(v, Ptr) and v.o is W.inst): v = ex.load(st, at, I64)
            if isinstance(v, Ptr) and v.o is W.inst: seen.append(("end" if off < 16 else "begin", U(quot(simp(v.f), W.w)))); ex.store(st, Ptr(rng, off), Ptr(W.inst, simp((HI if off < 16 else LO) * W.w)), PT, m)
            elif off == 32: ex.store(st, Ptr(rng, off), v, I64, m)
            else: seen.append(("end" if off < 16 else "begin", U(v))); ex.store(st, Ptr(rng, off), HI if off < 16 else LO, I64, m)
        ex.oblige(st, "requires: the range is all instances and their rows", z3.And(TF(len(seen) == 4), *[v == (NI if n == "end" else BV(0, 64)) for n, v in seen])); none, one = fork(st, NI == 0, NI != 0); res = [(none, ("ret", None))]
        one.assume(z3.ULT(LO, HI), z3.ULE(HI, NI), z3.ULE(LO, J), z3.ULT(J, HI)); one.ghost.update(n=LO, task=True); res.append((one, ("push", f, [a[1], Ptr(rng, 0)]))); return res
    def aset(ex, st, a, i): st.ghost["flag"] = simp(z3.If(bo(asbool(a[1])), BV(1, 8), BV(0, 8))); return a[1]
    def aget(ex, st, a, i):
        if not st.ghost["task"]: return simp(z3.If(st.ghost["flag"] == 1, BV(1, 8), BV(0, 8)))
        o = st.copy(); o.assume(SKIP); o.ghost.update(flag=BV(1, 8), bad=BV(1, 8)); return [(st, ("ret", simp(z3.If(st.ghost["flag"] == 1, BV(1, 8), BV(0, 8))))), (o, ("ret", 1))]
    A = rf"std::(atomic|__atomic_base)<bool>::"
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("instances of the task", z3.And(z3.ULE(LO, n), z3.ULE(n, HI))), ("no bad one yet", g["bad"] == 0), ("flag not set", g["flag"] == 0), ("instances before are good", z3.Implies(z3.ULT(J, n), z3.And(OK(J), g["at"] == J)))]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} rows", U(v) == n)]
        for m, q in sn.ptrs.items():
            k = quot(simp(q.f), W.w) if q.o is W.inst else None
            if k is not None: r.append((f"{m} next", U(k) == n))
        return r
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw":
            if g.get("corrupt"): yield "ensures: the error of a corrupt row is passed on", TF(is_exc(out, "Corrupt_record_error")); return
            if g.get("error"): yield "ensures: a bad row is an error in that mode", z3.And(TF(is_exc(out, "Invalid_instance_error")), BAD == 0); return
            yield "ensures: refused only for an unknown handling", z3.And(TF(is_exc(out, "invalid_argument")), z3.UGT(BAD, 4)); return
        n, has = out[1][0], bo(asbool(out[1][1])); ex.cover("all good", z3.And(has, NI == 3)); ex.cover("skipped", z3.Not(has)); ex.cover("no instances", z3.And(has, NI == 0))
        yield "ensures: skipped only for a bad row and only if asked for", z3.Implies(z3.Not(has), z3.And(g["bad"] == 1, SKIP)); yield "ensures: no bad row goes by", z3.Implies(z3.And(has, z3.ULT(J, NI)), z3.And(OK(J), g["at"] == J)); yield "ensures: the number of rows", z3.Implies(has, U(n) == NI)
    stubs = [R(r".*tbb::(detail::d1::)?parallel_for<", par), R(A + r"(operator=|store)\(", aset), R(A + r"(operator bool|load)", aget), R(A + r"atomic|" + A + r"__atomic_base", nop), R(r".*Csv_reader::Decoder<.*>::decode\(", lambda ex, st, a, i: W.row(ex, st, a, i, first=True))]
    return dict(name="Csv_reader::decode_prl", fn=fn, setup=setup, post=post, covers=["all good", "skipped", "no instances"], cands=[cands], stubs=stubs + W.stubs() + LOG, opts=dict(watch=[J], scale=W.scale(), elems=X.elems()), budget=120)
def spec_batch(u):
    fn = r"mlio::Csv_reader::decode\(mlio::Instance_batch const&\)"; W = Batch(u); X = W.X; out, made, exm, schema = Obj("result", 8, True), Obj("tensor list", 0, True), Obj("example", field(u, "Example", "__size__"), True), Obj("schema", None, True); PADOFF = field(u, "Example", "padding"); R_ = z3.BitVec("rows read", 64)
    def setup(ex, st):
        W.init(ex, st); st.ghost.update(tensors=None, reads=0, example=False); m = u.mods[0]; st.assume(z3.ULE(R_, NI))
        for o in (out, exm, schema): ex.objs[o.id] = o
        ex.store(st, Ptr(W.batch, field(u, "Instance_batch", "size_")), SIZE, I64, m); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(X.reader, 0), "batch": Ptr(W.batch, 0)})
    def tensors(ex, st, a, i): ex.oblige(st, "requires: tensors of the batch's size, once", z3.And(TF(a[1].o is X.reader and st.ghost["tensors"] is None), U(a[2]) == SIZE)); st.ghost["tensors"] = (a[0].o, a[0].f)
    def mine(st, p): return TF(isinstance(p, Ptr) and st.ghost["tensors"] is not None and p.o is st.ghost["tensors"][0] and eqc(p.f, st.ghost["tensors"][1]))
    def state(ex, st, a, i): ex.oblige(st, "requires: the reader's state with the new tensors", z3.And(mine(st, a[2]), TF(a[1].o is X.reader))); st.ghost["state"] = a[0].o
    def rows(par):
        def h(ex, st, a, i):
            """contracts of decode_ser and decode_prl (above)"""
            ex.oblige(st, "requires: the batch with its state, once", TF(a[1].o is st.ghost.get("state") and a[2].o is W.batch and st.ghost["reads"] == 0))
            if par: ex.oblige(st, "requires: rows are not left out in parallel", z3.Not(PAD))
            st.ghost["reads"] = 1; ok, no, er = st.copy(), st.copy(), st.copy(); ok.assume(R_ == NI if par else z3.Implies(z3.Not(PAD), R_ == NI)); no.assume(SKIP); er.ghost["error"] = True; ok.ghost["read"] = True; no.ghost["read"] = False
            return [(ok, ("ret", [R_, 1])), (no, ("ret", [ex.fresh("nothing"), 0])), (er, ("throw", Thrown("_ZTIN4mlio6abi_v122Invalid_instance_errorE")))]
        return h
    def schema_(ex, st, a, i): ex.store(st, a[0], Ptr(schema, 0), PT, u.mods[0])
    def example(ex, st, a, i):
        s_ = ex.load(st, a[1], PT); ex.oblige(st, "requires: the reader's schema and the tensors, after they were filled", z3.And(mine(st, a[2]), TF(isinstance(s_, Ptr) and s_.o is schema and st.ghost["reads"] == 1 and st.ghost.get("read") is True))); st.ghost["example"] = True; ex.store(st, a[0], Ptr(exm, 0), PT, u.mods[0]); ex.store(st, Ptr(exm, PADOFF), 0, I64, u.mods[0])
    def post(ex, st, out_):
        g = st.ghost
        if out_[0] == "throw": yield "ensures: only the errors of the rows", TF(bool(g.get("error"))); return
        p = cell(ex, st, out, 0, PT)
        if p is NULL or not isinstance(p, Ptr) or p.o is None: ex.cover("skipped"); yield "ensures: no example only if it is skipped", TF(g.get("read") is False); return
        ex.cover("example", z3.And(NI == 3, R_ == 2, SIZE == 4)); ex.cover("parallel", z3.And(NI == R_, NI == 3)); yield "ensures: an example of the tensors", TF(p.o is exm and g["example"] and g.get("read") is True); yield "ensures: padding is what the rows read leave of the batch", U(cell(ex, st, exm, PADOFF, I64)) == SIZE - R_
    VT = r"std::vector<mlio::Intrusive_ptr<mlio::Tensor>, .*?>::"
    stubs = [R(r"mlio::Csv_reader::make_tensors\(", tensors), R(r"mlio::Csv_reader::Decoder_state::Decoder_state\(", state), R(r"mlio::Csv_reader::decode_ser\(", rows(False)), R(r"mlio::Csv_reader::decode_prl\(", rows(True)), R(r"mlio::Parallel_data_reader::schema\(", schema_), R(r".*mlio::make_intrusive<mlio::Example", example), R(VT + r"~vector", nop), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop)]
    return dict(name="Csv_reader::decode", fn=fn, setup=setup, post=post, covers=["example", "skipped", "parallel"], stubs=stubs + W.stubs() + LOG, opts=dict(scale=W.scale(), opaque_mul=True), budget=60)
def spec_tensors(u):
    fn = r"mlio::Csv_reader::make_tensors\("; X = Columns(u); out, arrs, made = Obj("result", 24, True), Obj("arrays", U(1 << 44), True), Obj("made tensors", U(1 << 44), True); T_ = z3.BitVec("T", 64); VT = r"std::vector<mlio::Intrusive_ptr<mlio::Tensor>, .*?>::"
    def setup(ex, st):
        X.init(ex, st); ex.bounded(st, SIZE)
        for o in (out, arrs, made): ex.objs[o.id] = o
        st.ghost.update(n=BV(0, 64), array=BV(-1, 64), tensor=BV(-1, 64), type=BV(0, 32), right=BV(1, 8)); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(X.reader, 0), "batch_size": SIZE})
    def cpu(ex, st, a, i): ex.oblige(st, "requires: as many elements as rows", U(a[2]) == SIZE); g = st.ghost; g["array"] = g["n"]; g["type"] = bv(a[1], 32); ex.store(st, a[0], Ptr(arrs, simp(g["n"] * 8)), PT, u.mods[0]); return None
    def dense(ex, st, a, i):
        g = st.ghost; m = u.mods[0]; d, n = vec_of(ex, st, a[1].o, a[1].f); p = ex.load(st, a[2], PT); b = cell(ex, st, a[1].o, a[1].f, PT) if d is not None else None
        ok = z3.And(n == 16, U(cell(ex, st, d, simp(b.f), I64)) == SIZE, U(cell(ex, st, d, simp(U(b.f) + 8), I64)) == 1) if d is not None else False
        ex.oblige(st, "requires: the shape is rows by one", ok); ex.oblige(st, "requires: a new array of its own", z3.And(TF(isinstance(p, Ptr) and p.o is arrs), g["array"] == g["n"], U(p.f) == g["n"] * 8) if isinstance(p, Ptr) else False); g["tensor"] = g["n"]; ex.store(st, a[0], Ptr(made, simp(g["n"] * 8)), PT, m); ex.store(st, a[2], NULL, PT, m)
    def push(ex, st, a, i):
        g = st.ghost; p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the new tensor behind the others", z3.And(TF(isinstance(p, Ptr) and p.o is made and a[0].o is out), g["tensor"] == g["n"], U(p.f) == g["n"] * 8) if isinstance(p, Ptr) else False)
        g["right"] = bv(simp(z3.If(g["n"] == CNT(K), z3.If(g["type"] == z3.Select(TYPES, K), g["right"], BV(0, 8)), g["right"])), 8); g["n"] = fixed(g["n"] + 1); ex.store(st, a[1], NULL, PT, u.mods[0]); return Ptr(out, 0)
    def cands(sn):
        g = sn.st.ghost; r = [("types of the columns", z3.Implies(z3.And(z3.ULT(K, C), sel(K)), g["right"] == 1))]
        for n, k in X.at(sn)[0]: r += [(f"{n} at most all", z3.ULE(k, C)), (f"{n} tensors of the selected columns", g["n"] == CNT(k)), (f"{n} at most so many", z3.ULE(CNT(k), k))] + [(f"{n} with {m}", k == l) for m, l in X.at(sn)[0] if m < n] + [(f"{n} before K", z3.Implies(z3.ULE(k, K), z3.ULE(CNT(k), CNT(K)))), (f"{n} behind K", z3.Implies(z3.And(z3.ULT(K, k), sel(K)), z3.ULT(CNT(K), CNT(k))))]
        return r
    def mono(ex, st, o, off, n):
        if o in (X.ign, X.types): k = z3.LShR(U(off), BV(2, 64)); st.assume(z3.Implies(z3.And(z3.ULT(K, k), sel(K)), z3.ULT(CNT(K), CNT(k))), z3.Implies(z3.ULE(k, K), z3.ULE(CNT(k), CNT(K))), z3.Implies(z3.ULT(k, K), z3.ULE(CNT(k + 1), CNT(K))), *cnt(k))
    def post(ex, st, out_):
        if out_[0] == "throw": yield "ensures: no error", False; return
        g = st.ghost; ex.cover("tensors", z3.And(S == 2, C == 3)); yield "ensures: a tensor for every selected column", g["n"] == S; yield "ensures: the tensor of column K has its type", z3.Implies(z3.And(z3.ULT(K, C), sel(K)), g["right"] == 1)
    stubs = [R(r"mlio::make_cpu_array\(", cpu), R(r".*mlio::make_intrusive<mlio::Dense_tensor", dense), R(r"(.* )?" + VT + r"(emplace_back|push_back)(<.*>)?\(", push), R(VT + r"(~?vector|reserve)\(", nop), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop), R(r"std::unique_ptr<mlio::Device_array.*>::~unique_ptr", nop)]
    return dict(name="Csv_reader::make_tensors", fn=fn, setup=setup, post=post, covers=["tensors"], cands=[cands], on_load=[X.load, mono], stubs=stubs, opts=dict(watch=[K], scale=X.scale()), budget=60)
# ---- names and types of the columns
NN, HDR, DEF, DEFT = z3.BitVec("number of names", 64), z3.BitVec("header row", 64), z3.Bool("default type given"), z3.BitVec("default type", 32); INFER = z3.Function("inferred type of field", B64, B32); PRE = z3.Bool("name prefix is empty")
STRING = r"std::basic_string<char, std::char_traits<char>, .*?> ?>::"
class Table:
    """the lists of names and of types while they are built: sizes and, of the K-th, where it is from (field f, number f, only the prefix; with prefix or not)"""
    def __init__(s, u): s.u = u; s.this = Obj("reader", field(u, "Csv_reader", "__size__"), True); s.T = Tokens(); s.f = lambda n: field(u, "Csv_reader", n); s.p = lambda n: s.f("params_") + field(u, "Csv_params", n); s.store, s.inst, s.rec, s.text, s.reader = Obj("data store", None, True), Obj("instance", field(u, "Instance", "__size__") + 16, True), Obj("record reader", None, True), Obj("text", LEN, True), Obj("utf-8 reader", None, True)
    def init(s, ex, st, names=NN):
        for o in (s.this, s.store, s.inst, s.rec, s.text, s.T.V, s.T.T, s.reader): ex.objs[o.id] = o
        ex.bounded(st, NN, F, LEN, C); m = s.u.mods[0]; vinit(ex, st, s.store, "Store"); st.ghost.update(names=names, types=BV(0, 64), name=BV(-1, 64), type=BV(0, 32), how=BV(0, 8)); s.T.init(ex, st); o = s.p("default_data_type"); ex.store(st, Ptr(s.this, o), DEFT, I32, m); ex.store(st, Ptr(s.this, o + 4), simp(z3.If(DEF, BV(1, 8), BV(0, 8))), I8, m)
        o = s.p("header_row_index"); ex.store(st, Ptr(s.this, o), HDR, I64, m); ex.bounded(st, HDR)
    def value(s, ex, st, p):
        """(what it is, with prefix) of a string"""
        if isinstance(p, Ptr) and p.o is s.T.V: return U(quot(simp(p.f), 32)), 0
        if isinstance(p, Ptr) and p.o is s.this and eqc(simp(p.f), s.p("name_prefix")): return BV(-2, 64), 1
        v = st.ghost["strings"].get(s.key(p)) if "strings" in st.ghost else None; return v if v else (None, None)
    def key(s, p): return (p.o.id, str(simp(p.f)))
    def put(s, st, p, v): d = dict(st.ghost.get("strings", {})); d[s.key(p)] = v; st.ghost["strings"] = d
    def stubs(s):
        SV, DV = r"std::vector<std::basic_string<char, .*?>, std::allocator<std::basic_string<char, .*?> > ?>::", r"std::vector<mlio::Data_type, std::allocator<mlio::Data_type> ?>::"
        def of(p, n): return isinstance(p, Ptr) and p.o is s.this and eqc(simp(p.f), s.f(n))
        def push(ex, st, a, i):
            ex.oblige(st, "requires: a name of the reader", TF(of(a[0], "column_names_"))); v, h = s.value(ex, st, a[1]); g = st.ghost
            if v is None: raise ir.Unsupported("another string")
            g["name"] = fixed(z3.If(g["names"] == K, v, g["name"])); g["how"] = bv(simp(z3.If(g["names"] == K, BV(h, 8), g["how"])), 8); g["names"] = fixed(g["names"] + 1); return Ptr(s.this, 0)
        def typed(ex, st, a, i):
            ex.oblige(st, "requires: a type of the reader", TF(of(a[0], "column_types_"))); g = st.ghost; v = bv(ex.load(st, a[1], I32), 32); g["type"] = bv(simp(z3.If(g["types"] == K, v, g["type"])), 32); g["types"] = fixed(g["types"] + 1); return Ptr(s.this, 0)
        def number(ex, st, a, i): s.put(st, a[0], (U(ex.load(st, a[1], I64) if isinstance(a[1], Ptr) else a[1]), 0))
        def plus(ex, st, a, i):
            v, h = s.value(ex, st, a[2]); w, x = s.value(ex, st, a[1])
            if v is None or x != 1 or h: raise ir.Unsupported("another string")
            s.put(st, a[0], (v, 1))
        def copy(ex, st, a, i): s.put(st, a[0], s.value(ex, st, a[1])); return a[0]
        def text(ex, st, a, i): ex.store(st, a[0], Ptr(s.text, 0), PT, s.u.mods[0]); ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), LEN, I64, s.u.mods[0])
        def tok(ex, st, a, i): ex.oblige(st, "requires: the parameters of the reader and the whole text", z3.And(TF(isinstance(a[1], Ptr) and a[1].o is s.this and eqc(simp(a[1].f), s.f("params_")) and isinstance(a[2], Ptr) and a[2].o is s.text and st.ghost.get("tok") is None), U(a[2].f) == 0, U(a[3]) == LEN)); st.ghost["tok"] = True
        def infer(ex, st, a, i): k = U(quot(simp(a[1].f), 8)); ex.oblige(st, "requires: the field read last", z3.And(TF(a[1].o is s.T.T), k == s.T.cur(st))); st.assume(z3.UGE(INFER(k), 1), z3.ULE(INFER(k), 12)); return INFER(k)
        return [R(SV + r"size\(\)", lambda ex, st, a, i: st.ghost["names"]), R(SV + r"empty\(\)", lambda ex, st, a, i: simp(z3.If(st.ghost["names"] == 0, BV(1, 8), BV(0, 8)))), R(r"(.* )?" + SV + r"(emplace_back|push_back)(<.*>)?\(", push), R(r"(.* )?" + DV + r"(emplace_back|push_back)(<.*>)?\(", typed), R(DV + r"size\(\)", lambda ex, st, a, i: st.ghost["types"]), R(r"(" + SV + r"|" + DV + r")reserve\(", nop),
                R(r"_ZN3fmt.*to_string|.*fmt::.*to_string<", number), R(r".*std::operator\+<char", plus), R(STRING + r"operator=", copy), R(STRING + r"empty\(\)", lambda ex, st, a, i: simp(z3.If(PRE, BV(1, 8), BV(0, 8)))), R(STRING + r"basic_string\(\)", nop), R(r"mlio::stdx::span<std::byte const>::span<mlio::Memory_slice", text), R(TOK + r"Csv_record_tokenizer", tok), R(r"mlio::infer_data_type\(", infer), R(r".*std::throw_with_nested<mlio::Schema_error", lambda ex, st, a, i: [(st, ("throw", Thrown("_ZTIN4mlio6abi_v112Schema_errorE")))]), R(r"mlio::Instance::(bits|index)\(\)", lambda ex, st, a, i: Ptr(Obj("bits", None, True), 0) if "bits" in str(i) else ex.fresh("index")), R(r"mlio::Instance::data_store\(\)", lambda ex, st, a, i: Ptr(s.store, 0))] + s.T.stubs() + LOG
    def virtual(s): return dispatch({"Store": vtable(s.u, "In_memory_store")}, {"Store": [(r"::id", lambda ex, st, a, i: Ptr(Obj("id", 32, True), 0))]})
HASI = z3.Bool("there is an instance")
def instance(Tb): return [R(r".*std::operator==<mlio::Instance>", lambda ex, st, a, i: simp(z3.If(HASI, BV(0, 8), BV(1, 8)))), R(r"std::optional<mlio::Instance>::(operator->|operator\*)", lambda ex, st, a, i: (ex.oblige(st, "safety: the instance is there", HASI), Ptr(Tb.inst, 0))[1])]
def spec_types(u):
    fn = r"mlio::Csv_reader::infer_column_types\("; Tb = Table(u)
    def setup(ex, st): Tb.init(ex, st); st.assume(z3.Implies(z3.Not(HASI), NN != 0)); return args_of(u, fn, {"this": Ptr(Tb.this, 0), "instance": Ptr(Tb.inst, 0)})
    want = z3.If(DEF, DEFT, z3.If(HASI, INFER(K), BV(12, 32)))
    def cands(sn):
        g = sn.st.ghost; n = g["types"]; r = [("type of column K", z3.Implies(z3.ULT(K, n), g["type"] == want)), ("one for every field", n == g["t"]), ("fields", z3.ULE(g["t"], F)), ("at most all", z3.ULE(n, z3.If(HASI, F, NN))), ("none read", g["t"] == 0)]
        for m, (v, w) in sn.ints.items():
            if w == 64: r.append((f"{m} types", U(v) == n))
        return r
    def post(ex, st, out):
        g = st.ghost; ex.cover("from a row", z3.And(HASI, z3.Not(DEF), F == 3)) if out[0] == "ret" else None; ex.cover("without rows", z3.Not(HASI)) if out[0] == "ret" else None
        if out[0] == "throw": ex.cover("corrupt"); yield "ensures: a corrupt row has no schema", z3.And(TF(is_exc(out, "Schema_error") and bool(g.get("corrupt"))), HASI); return
        yield "ensures: a type for every field, or for every name without rows", g["types"] == z3.If(HASI, F, NN); yield "ensures: the default type, else the inferred one, else string", z3.Implies(z3.ULT(K, g["types"]), g["type"] == want); yield "frame: names stay", g["names"] == NN
    return dict(name="Csv_reader::infer_column_types", fn=fn, setup=setup, post=post, covers=["from a row", "without rows", "corrupt"], cands=[cands], stubs=instance(Tb) + Tb.stubs(), opts=dict(watch=[K], virtual=Tb.virtual(), scale={Tb.T.V.id: 32, Tb.T.T.id: 8}), budget=60)
def spec_names(u):
    fn = r"mlio::Csv_reader::set_or_validate_column_names\("; Tb = Table(u)
    def setup(ex, st): Tb.init(ex, st); st.ghost["types"] = C; st.assume(z3.Implies(z3.Not(HASI), C == NN)); return args_of(u, fn, {"this": Ptr(Tb.this, 0), "instance": Ptr(Tb.inst, 0)})
    def cands(sn):
        g = sn.st.ghost; n = g["names"]; r = [("name of column K", z3.Implies(z3.ULT(K, n), z3.And(g["name"] == K + 1, g["how"] == z3.If(PRE, BV(0, 8), BV(1, 8))))), ("at most all", z3.ULE(n, C)), ("no name at first", NN == 0)]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} next name", U(v) == n + 1), (f"{m} names", U(v) == n)]
        return r
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw": ex.cover("mismatch"); yield "ensures: refused only if the numbers of names and fields differ", z3.And(TF(is_exc(out, "Schema_error")), NN != 0, NN != C); return
        ex.cover("made", z3.And(NN == 0, C == 3)); ex.cover("given", NN == 3); yield "ensures: a name for every column", g["names"] == C; yield "ensures: names of columns without header are their positions, from 1", z3.Implies(z3.And(NN == 0, z3.ULT(K, C)), z3.And(g["name"] == K + 1, g["how"] == z3.If(PRE, BV(0, 8), BV(1, 8)))); yield "frame: given names stay", z3.Implies(NN != 0, g["name"] == BV(-1, 64))
    return dict(name="Csv_reader::set_or_validate_column_names", fn=fn, setup=setup, post=post, covers=["made", "given", "mismatch"], cands=[cands], stubs=instance(Tb) + Tb.stubs(), opts=dict(watch=[K], virtual=Tb.virtual()), budget=60)
def spec_header(u):
    fn = r"mlio::Csv_reader::read_names_from_header\("; Tb = Table(u)
    def setup(ex, st): Tb.init(ex, st, BV(0, 64)); st.ghost.update(skipped=0, read=0); vinit(ex, st, Tb.rec, "Reader"); return args_of(u, fn, {"this": Ptr(Tb.this, 0), "store": Ptr(Tb.store, 0), "reader": Ptr(Tb.rec, 0)})
    def skip(ex, st, a, i): ex.oblige(st, "requires: skipped before the header is read", TF(a[0].o is Tb.this and a[1].o is Tb.rec and st.ghost["skipped"] == 0 and st.ghost["read"] == 0)); st.ghost["skipped"] = 1
    def read(ex, st, a, i): ex.oblige(st, "requires: one row is read", TF(a[1].o is Tb.rec and st.ghost["read"] == 0)); st.ghost["read"] = 1; x = st.copy(); x.ghost["corrupt"] = True; return [(st, ("ret", None)), (x, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE")))]
    HASR = z3.Bool("there is a header row")
    def cands(sn):
        g = sn.st.ghost; n = g["names"]; return [("name of column K", z3.Implies(z3.ULT(K, n), z3.And(g["name"] == K, g["how"] == z3.If(PRE, BV(0, 8), BV(1, 8))))), ("one for every field", n == g["t"]), ("fields", z3.ULE(g["t"], F)), ("row is there", HASR)]
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw": ex.cover("corrupt"); yield "ensures: a corrupt header has no schema", TF(is_exc(out, "Schema_error") and bool(g.get("corrupt"))); return
        ex.cover("names", z3.And(HASR, F == 3)); ex.cover("blank", z3.And(HASR, F == 0)); ex.cover("none", z3.Not(HASR)); yield "ensures: the rows before the header are skipped and the header is read", TF(g["skipped"] == 1 and g["read"] == 1)
        yield "ensures: a name for every field, one for a blank row, none without row", g["names"] == z3.If(HASR, z3.If(F == 0, BV(1, 64), F), BV(0, 64)); yield "ensures: the fields in order behind the prefix", z3.Implies(z3.ULT(K, g["names"]), z3.And(g["name"] == z3.If(F == 0, BV(-2, 64), K), g["how"] == z3.If(z3.Or(F == 0, z3.Not(PRE)), BV(1, 8), BV(0, 8))))
    V = dispatch({"Store": vtable(u, "In_memory_store"), "Reader": vtable(u, "Csv_record_reader")}, {"Store": [(r"::id", lambda ex, st, a, i: Ptr(Obj("id", 32, True), 0))], "Reader": [(r"::read_record", read)]})
    stubs = [R(r"mlio::Csv_reader::skip_to_header_row\(", skip), R(r".*std::operator==<mlio::Record>", lambda ex, st, a, i: simp(z3.If(HASR, BV(0, 8), BV(1, 8)))), R(r"std::optional<mlio::Record>::operator->", lambda ex, st, a, i: (ex.oblige(st, "safety: the row is there", HASR), a[0])[1]), R(r"mlio::Record::payload\(", lambda ex, st, a, i: a[0]), R(r"std::optional<mlio::Record>::~optional", nop), R(r".*mlio::Record_reader.*::read_record\(", read)]
    return dict(name="Csv_reader::read_names_from_header", fn=fn, setup=setup, post=post, covers=["names", "blank", "none", "corrupt"], cands=[cands], stubs=stubs + Tb.stubs(), opts=dict(watch=[K], virtual=V, scale={Tb.T.V.id: 32, Tb.T.T.id: 8}), budget=60)
def spec_skip(u):
    fn = r"mlio::Csv_reader::skip_to_header_row\("; Tb = Table(u); ROWS = z3.BitVec("rows of the store", 64)
    def setup(ex, st): Tb.init(ex, st); ex.bounded(st, ROWS); st.ghost.update(n=BV(0, 64), none=BV(0, 8)); vinit(ex, st, Tb.rec, "Reader"); ex.store(st, Ptr(Tb.this, Tb.p("header_row_index") + 8), 1, I8, u.mods[0]); return args_of(u, fn, {"this": Ptr(Tb.this, 0), "reader": Ptr(Tb.rec, 0)})
    def read(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: a row of the header's store, before the header", z3.And(TF(a[1].o is Tb.rec), z3.ULT(g["n"], HDR), g["none"] == 0)); x = st.copy(); x.ghost["corrupt"] = True; g["none"] = bv(simp(z3.If(g["n"] == ROWS, BV(1, 8), BV(0, 8))), 8); g["n"] = fixed(z3.If(g["n"] == ROWS, g["n"], g["n"] + 1)); return [(st, ("ret", None)), (x, ("throw", Thrown("_ZTIN4mlio6abi_v120Corrupt_record_errorE")))]
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("rows before the header", z3.And(z3.ULE(n, HDR), z3.ULE(n, ROWS))), ("not at the end", g["none"] == 0)]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} rows", U(v) == n), (f"{m} rows left", U(v) == HDR - n)]
        return r
    def post(ex, st, out):
        g = st.ghost
        if out[0] == "throw": yield "ensures: only the error of a corrupt row", TF(bool(g.get("corrupt"))); return
        ex.cover("header", z3.And(g["n"] == HDR, HDR == 2)); ex.cover("end", g["none"] == 1); yield "ensures: just the rows before the header are skipped", z3.Or(g["n"] == HDR, g["n"] == ROWS)
    V = dispatch({"Reader": vtable(u, "Csv_record_reader")}, {"Reader": [(r"::read_record", read)]})
    stubs = [R(r".*std::operator==<mlio::Record>", lambda ex, st, a, i: st.ghost["none"]), R(r"std::optional<mlio::Record>::(operator bool|has_value)", lambda ex, st, a, i: simp(BV(1, 8) - st.ghost["none"])), R(r"std::optional<mlio::Record>::~optional", nop), R(r".*mlio::Record_reader.*::read_record\(", read)]
    return dict(name="Csv_reader::skip_to_header_row", fn=fn, setup=setup, post=post, covers=["header", "end"], cands=[cands], stubs=stubs + Tb.stubs(), opts=dict(virtual=V), budget=60)
HASH, SINGLE, FIRST = z3.Bool("there are header rows"), z3.Bool("only the first store has a header"), z3.Bool("no header was read yet")
def spec_reader(u):
    fn = r"mlio::Csv_reader::make_record_reader\("; Tb = Table(u); out, raw, utf = Obj("result", 8, True), Obj("raw stream", None, True), Obj("utf-8 stream", None, True); h = lambda n: simp(z3.If(n, BV(1, 8), BV(0, 8)))
    def setup(ex, st):
        Tb.init(ex, st); m = u.mods[0]
        for o in (out, raw, utf): ex.objs[o.id] = o
        for o, v in ((Tb.p("header_row_index") + 8, HASH), (Tb.p("has_single_header"), SINGLE), (Tb.f("should_read_header"), FIRST)): ex.store(st, Ptr(Tb.this, o), h(v), I8, m)
        st.ghost.update(ev=()); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(Tb.this, 0), "store": Ptr(Tb.store, 0)})
    def ev(st, e): st.ghost["ev"] = st.ghost["ev"] + (e,)
    def open_(ex, st, a, i): ex.oblige(st, "requires: the store is opened once", TF(a[1].o is Tb.store and st.ghost["ev"] == ())); ev(st, "open"); ex.store(st, a[0], Ptr(raw, 0), PT, u.mods[0]); return [(st, ("ret", None))]
    def utf8(ex, st, a, i): p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the stream of the store", TF(isinstance(p, Ptr) and p.o is raw)); ev(st, "utf8"); ex.store(st, a[0], Ptr(utf, 0), PT, u.mods[0])
    def make(ex, st, a, i): p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the utf-8 stream and the reader's parameters", TF(isinstance(p, Ptr) and p.o is utf and a[2].o is Tb.this and eqc(simp(a[2].f), Tb.f("params_")))); ev(st, "reader"); ex.store(st, a[0], Ptr(Tb.reader, 0), PT, u.mods[0]); ex.store(st, a[1], NULL, PT, u.mods[0])
    def names(ex, st, a, i): ex.oblige(st, "requires: the header of this store", TF(a[1].o is Tb.store and a[2].o is Tb.reader)); ev(st, "names"); return [(st, ("ret", None)), (fork(st, z3.BoolVal(True))[0], ("throw", Thrown("_ZTIN4mlio6abi_v112Schema_errorE")))]
    def step(e):
        def f(ex, st, a, i): ex.oblige(st, "requires: the reader of this store", TF(any(isinstance(p, Ptr) and p.o is Tb.reader for p in a))); ev(st, e)
        return f
    def post(ex, st, o):
        g = st.ghost; e = g["ev"]
        if o[0] == "throw": yield "ensures: only the error of a bad header", TF(is_exc(o, "Schema_error")); return
        p = cell(ex, st, out, 0, PT); yield "ensures: a reader of the store's text", TF(isinstance(p, Ptr) and p.o is Tb.reader and e[:3] == ("open", "utf8", "reader")); after = e[3:]; first = bo(asbool(cell(ex, st, Tb.this, Tb.f("should_read_header"), I8)))
        rd, sk = z3.And(HASH, NN == 0), z3.And(HASH, NN != 0, z3.Or(FIRST, z3.Not(SINGLE))); ex.cover("names", TF(after == ("names",))); ex.cover("skipped", TF(after == ("skip", "read"))); ex.cover("no header", TF(after == ()))
        yield "ensures: the header gives the names if there are none, else it is passed over where there is one, else nothing is read", z3.And(rd == TF(after == ("names",)), sk == TF(after == ("skip", "read")), TF(after in ((), ("names",), ("skip", "read")))); yield "ensures: a single header is not looked for again", first == z3.And(FIRST, z3.Not(HASH))
    V = dispatch({"Store": vtable(u, "In_memory_store")}, {"Store": [(r"::open_read", open_)]})
    stubs = [R(r"mlio::make_utf8_stream\(", utf8), R(r".*mlio::make_intrusive<mlio::(detail::)?Csv_record_reader", make), R(r"mlio::Csv_reader::read_names_from_header\(", names), R(r"mlio::Csv_reader::skip_to_header_row\(", step("skip")), R(r"mlio::Record_reader_base::read_record\(", step("read")), R(r"std::optional<mlio::Record>::~optional", nop), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop), R(r"std::optional<mlio::Text_encoding>::(~?optional)", nop)]
    return dict(name="Csv_reader::make_record_reader", fn=fn, setup=setup, post=post, covers=["names", "skipped", "no header"], stubs=stubs + Tb.stubs(), opts=dict(virtual=V), budget=60)
EI, EN, INI, INN, IDX = z3.Bool("no indices listed"), z3.Bool("no names listed"), z3.Bool("index listed"), z3.Bool("name listed"), z3.BitVec("index", 64)
def spec_select(u):
    fn = r"mlio::Csv_reader::should_skip\("; Tb = Table(u); nm, node = Obj("name", 32, True), Obj("set element", None, True); off = {Tb.p("use_columns_by_index"): "i", Tb.p("use_columns"): "n"}
    def setup(ex, st): Tb.init(ex, st); ex.objs[nm.id] = nm; st.assume(z3.Implies(EI, z3.Not(INI)), z3.Implies(EN, z3.Not(INN))); st.ghost["sets"] = {}; return args_of(u, fn, {"this": Ptr(Tb.this, 0), "index": IDX, "name": Ptr(nm, 0)})
    def which(st, p):
        if isinstance(p, Ptr) and p.o is Tb.this and simp(p.f) in off: return off[simp(p.f)]
        k = st.ghost["sets"].get(Tb.key(p))
        if k is None: raise ir.Unsupported("another set")
        return k
    def copy(ex, st, a, i): st.ghost["sets"] = {**st.ghost["sets"], Tb.key(a[0]): which(st, a[1])}
    def empty(ex, st, a, i): return simp(z3.If(EI if which(st, a[0]) == "i" else EN, BV(1, 8), BV(0, 8)))
    def find(ex, st, a, i):
        k = which(st, a[0]); ok = z3.BoolVal(False) if not isinstance(a[1], Ptr) else U(ex.load(st, a[1], I64)) == IDX if k == "i" else TF(a[1].o is nm); ex.oblige(st, "requires: the column is looked for", ok); c = INI if k == "i" else INN; y, n = fork(st, c, z3.Not(c)); return [(y, ("ret", Ptr(node, 0))), (n, ("ret", NULL))]
    def count(ex, st, a, i):
        k = which(st, a[0]); ok = U(ex.load(st, a[1], I64)) == IDX if k == "i" else TF(a[1].o is nm); ex.oblige(st, "requires: the column is looked for", ok); return simp(z3.If(INI if k == "i" else INN, BV(1, 64), BV(0, 64)))
    SET = r"std::unordered_set<.*>::"
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        r = bo(asbool(out[1])); ex.cover("left out", r); ex.cover("taken", z3.And(z3.Not(r), z3.Not(EI), z3.Not(EN))); ex.cover("all", z3.And(EI, EN)); yield "ensures: a column is taken if both lists, where given, have it", r == z3.Or(z3.And(z3.Not(EI), z3.Not(INI)), z3.And(z3.Not(EN), z3.Not(INN)))
    stubs = [R(SET + r"unordered_set\(", copy), R(SET + r"~unordered_set", nop), R(SET + r"empty\(\)", empty), R(SET + r"find\(", find), R(SET + r"count\(", count), R(SET + r"c?end\(\)", lambda ex, st, a, i: NULL)]
    return dict(name="Csv_reader::should_skip", fn=fn, setup=setup, post=post, covers=["left out", "taken", "all"], stubs=stubs, budget=30)
def spec_id(cls):
    def spec(u):
        fn = rf"mlio::(detail::)?{cls}::id(\[abi:cxx11\])?\("; this = Obj("this", field(u, cls, "__size__"), True); idf = field(u, cls, "id_")
        def setup(ex, st): ex.objs[this.id] = this; st.ghost["before"] = ex.load(st, Ptr(this, idf), I64); st.ghost["length"] = ex.load(st, Ptr(this, idf + 8), I64); return args_of(u, fn, {"this": Ptr(this, 0)})
        def change(ex, st, a, i): ex.oblige(st, "assigns: reading the identifier changes nothing of the store, which the decoding tasks share", TF(not any(isinstance(x, Ptr) and x.o is this for x in a[:1])))
        def post(ex, st, out):
            if out[0] == "throw": return
            ex.cover("identifier", TF(True)); p = out[1]; yield "ensures: the identifier of the store is given", TF(isinstance(p, Ptr) and p.o is this and simp(p.f) == idf)
            yield "assigns: the identifier is not written", z3.And(ex.load(st, Ptr(this, idf), I64) == st.ghost["before"], ex.load(st, Ptr(this, idf + 8), I64) == st.ghost["length"])
        look = lambda ex, st, a, i: z3.If(ex.load(st, Ptr(a[0].o, simp(a[0].f) + 8), I64) == 0, BV(1, 8), BV(0, 8)) if isinstance(a[0], Ptr) and a[0].o is this else ex.fresh("empty", 8)
        stubs = [R(r".*std::basic_string<char, .*>::empty\(\)", look), R(r"std::basic_string<char, .*>::~basic_string", nop), R(r"_ZN3fmt|.*fmt::", lambda ex, st, a, i: change(ex, st, a, i)), R(r"std::basic_string<char, .*>::(operator=|operator\+=|assign|append|push_back|insert|replace|clear|resize|reserve|erase|swap|pop_back)", lambda ex, st, a, i: (change(ex, st, a, i), a[0])[1])]
        return dict(name=f"{cls}::id", fn=fn, setup=setup, post=post, covers=["identifier"], stubs=stubs, budget=30)
    spec.__name__ = "spec_id_" + cls; return spec
def specs(u): return [spec_id("In_memory_store"), spec_select, spec_row, spec_serial, spec_parallel, spec_batch, spec_tensors, spec_types, spec_names, spec_header, spec_skip, spec_reader, spec_columns, spec_override, spec_schema]
# ---- the columns: which are selected, their types, parsers and attributes
DED, SDUP = z3.BitVec("duplicates are renamed", 8), z3.Bool("the schema refuses the names")
def spec_columns(u):
    fn = r"mlio::Csv_reader::init_parsers_and_make_schema\("; X = Columns(u); m = u.mods[0]; out, prm, node, alist, schema = Obj("result", 8, True), Obj("parameters", field(u, "Data_reader_params", "__size__"), True), Obj("count", 64, True), Obj("attributes", U(1 << 44), True), Obj("schema", None, True); f = lambda n: field(u, "Csv_reader", n); pf = lambda n: f("params_") + field(u, "Csv_params", n); aw = field(u, "Attribute", "__size__")
    def setup(ex, st):
        X.init(ex, st); ex.bounded(st, SIZE)
        for o in (out, prm, node, alist, schema): ex.objs[o.id] = o
        st.assume(z3.ULE(DED, 1)); ex.store(st, Ptr(X.reader, pf("dedupe_column_names")), DED, I8, m); ex.store(st, Ptr(prm, field(u, "Data_reader_params", "batch_size")), SIZE, I64, m)
        st.ghost.update(ni=BV(0, 64), np=BV(0, 64), na=BV(0, 64), iv=BV(9, 32), pv=BV(99, 32), at=BV(-1, 64), av=BV(0, 32), col=BV(-1, 64), ren=BV(0, 8), mine=BV(0, 8), dup=BV(0, 8), made=BV(0, 32), schema=False, threw=False); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(X.reader, 0)})
    def mine(p, n): return isinstance(p, Ptr) and p.o is X.reader and eqc(simp(p.f), f(n))
    def copy(ex, st, a, i):
        g = st.ghost; k = quot(simp(a[1].f), 32) if isinstance(a[1], Ptr) and a[1].o is X.names else None
        if k is None: raise ir.Unsupported("a copy of another string")
        g["name"] = (a[0].o.id, str(simp(a[0].f))); g.update(col=U(k), ren=BV(0, 8), mine=BV(0, 8), dup=BV(0, 8)); return None
    def named(st, p): return isinstance(p, Ptr) and st.ghost.get("name") == (p.o.id, str(simp(p.f)))
    def skip(ex, st, a, i):
        g = st.ghost; k = U(a[1]); st.assume(*cnt(k)); own = z3.And(TF(named(st, a[2])), g["col"] == k, g["ren"] == 0) if named(st, a[2]) else (U(quot(simp(a[2].f), 32)) == k if isinstance(a[2], Ptr) and a[2].o is X.names else TF(False))
        ex.oblige(st, "requires: asks for a column by its own index and name", z3.And(TF(a[0].o is X.reader), z3.ULT(k, C), own)); return simp(z3.If(sel(k), BV(0, 8), BV(1, 8)))
    def ignore(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: the list of deselected columns", TF(mine(a[0], "column_ignores_"))); v = bv(ex.load(st, a[1], I32), 32); g["iv"] = bv(simp(z3.If(g["ni"] == K, v, g["iv"])), 32); g["ni"] = fixed(g["ni"] + 1); return Ptr(X.reader, 0)
    def parser(none):
        def go(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: the list of parsers", TF(mine(a[0], "column_parsers_"))); g["pv"] = bv(simp(z3.If(g["np"] == K, BV(77, 32) if none else g["made"], g["pv"])), 32); g["np"] = fixed(g["np"] + 1); g["made"] = BV(0, 32); return Ptr(X.reader, 0)
        return go
    def make(ex, st, a, i): ex.oblige(st, "requires: the parser options of the reader", TF(isinstance(a[2], Ptr) and a[2].o is X.reader and eqc(simp(a[2].f), pf("parser_options")))); st.ghost["made"] = bv(a[1], 32)
    def emplace(ex, st, a, i):
        g = st.ghost; ex.oblige(st, "requires: the name of a column", TF(named(st, a[1]))); ex.oblige(st, "requires: a name of its own for every count", g["mine"] == 0); y, n = st.copy(), st.copy(); y.ghost["mine"] = BV(1, 8); n.ghost["dup"] = BV(1, 8); ex.store(n, Ptr(node, 32), ex.fresh("count"), I64, m); ex.store(y, Ptr(node, 32), 0, I64, m); return [(y, ("ret", [Ptr(node, 0), BV(1, 8)])), (n, ("ret", [Ptr(node, 0), BV(0, 8)]))]
    def append(ex, st, a, i):
        g = st.ghost
        if not named(st, a[0]): raise ir.Unsupported("another string")
        ex.oblige(st, "requires: only a duplicate is renamed", z3.And(g["dup"] == 1, g["mine"] == 0, DED == 1)); g["ren"] = BV(1, 8); return a[0]
    def attr(ex, st, a, i):
        g = st.ghost; d, n = vec_of(ex, st, a[3].o, a[3].f); b = cell(ex, st, a[3].o, a[3].f, PT) if d is not None else None
        ex.oblige(st, "requires: rows by one", z3.And(n == 16, U(cell(ex, st, d, simp(U(b.f)), I64)) == SIZE, U(cell(ex, st, d, simp(U(b.f) + 8), I64)) == 1) if d is not None else False); ex.oblige(st, "requires: the name of the column", TF(named(st, a[1]))); ex.oblige(st, "requires: a unique name if asked for", z3.Implies(DED == 1, g["mine"] == 1)); ex.oblige(st, "requires: renamed only if asked for and if it was taken", z3.Implies(g["ren"] == 1, z3.And(DED == 1, g["dup"] == 1)))
        t = bv(ex.load(st, a[2], I32), 32); k = g["col"]; c = k == K
        g["at"], g["av"] = fixed(z3.If(c, g["na"], g["at"])), bv(simp(z3.If(c, t, g["av"])), 32); g["na"] = fixed(g["na"] + 1); st.assume(*cnt(k)); return Ptr(alist, 0)
    def scm(ex, st, a, i): g = st.ghost; ex.oblige(st, "requires: an attribute for every selected column", g["na"] == S); y, n = fork(st, z3.Not(SDUP), SDUP); n.ghost["threw"] = True; y.ghost["schema"] = True; ex.store(y, a[0], Ptr(schema, 0), PT, m); return [(y, ("ret", None)), (n, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def cands(sn):
        g = sn.st.ghost; r = [("lists in step", g["ni"] == g["np"]), ("attributes of the selected columns", g["na"] == CNT(g["ni"])), ("at most all", z3.ULE(g["ni"], C)), ("deselected or not", z3.Implies(z3.ULT(K, g["ni"]), (g["iv"] == 0) == sel(K))), ("parser of column K", z3.Implies(z3.ULT(K, g["ni"]), g["pv"] == z3.If(sel(K), z3.Select(TYPES, K), BV(77, 32)))), ("attribute of column K", z3.Implies(z3.And(z3.ULT(K, g["ni"]), sel(K)), z3.And(g["at"] == CNT(K), g["av"] == z3.Select(TYPES, K)))),
            ("no parser in hand", g["made"] == 0), ("flags", z3.And(z3.ULE(g["ren"], 1), z3.ULE(g["mine"], 1), z3.ULE(g["dup"], 1))), ("renamed only if taken", z3.Implies(g["ren"] == 1, g["dup"] == 1)), ("taken if not free", z3.Implies(g["mine"] == 0, g["dup"] == 1)), ("lists in step with a column in hand", g["ni"] == g["na"] + 1), ("attribute to come", g["na"] == CNT(g["ni"] - 1)), ("attribute of column K before", z3.Implies(z3.And(z3.ULT(K, g["ni"] - 1), sel(K)), z3.And(g["at"] == CNT(K), g["av"] == z3.Select(TYPES, K)))), ("column in hand", z3.And(g["ni"] == g["col"] + 1, sel(g["col"]))), ("definition for the column", z3.And(*cnt(g["col"]))), ("renaming asked for", DED == 1), ("schema refused", SDUP)]
        for n, k in X.at(sn)[0]: r += [(f"{n} next", k == g["ni"]), (f"{n} in hand", k + 1 == g["ni"])]
        for mm, (v, wd) in sn.ints.items():
            if wd == 64: r += [(f"{mm} next", U(v) == g["ni"]), (f"{mm} in hand", U(v) + 1 == g["ni"])]
            if wd == 32: r.append((f"{mm} type in hand", bv(v, 32) == z3.Select(TYPES, g["col"])))
            if wd == 8: r += [(f"{mm} says that the name is free", (bv(v, 8) == 1) == (g["mine"] == 1)), (f"{mm} flag", z3.ULE(bv(v, 8), 1))]
        return r
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw": ex.cover("refused"); yield "ensures: refused only if the schema refuses the names", z3.And(TF((is_exc(o, "Schema_error") or is_exc(o, "invalid_argument")) and g["threw"]), SDUP); return
        p = cell(ex, st, out, 0, PT); ex.cover("schema", z3.And(C == 3, S == 2)); ex.cover("renamed", z3.And(C == 3, DED == 1)); yield "ensures: the new schema", TF(isinstance(p, Ptr) and p.o is schema and g["schema"]); yield "ensures: one entry and one parser for every column", z3.And(g["ni"] == C, g["np"] == C); yield "ensures: exactly the deselected columns are ignored", z3.Implies(z3.ULT(K, C), (g["iv"] == 0) == sel(K)); yield "ensures: the parser of column K is that of its type", z3.Implies(z3.And(z3.ULT(K, C), sel(K)), g["pv"] == z3.Select(TYPES, K)); yield "ensures: the attribute of column K has its place and type", z3.Implies(z3.And(z3.ULT(K, C), sel(K)), z3.And(g["at"] == CNT(K), g["av"] == z3.Select(TYPES, K)))
    IV, FV, AV, UM = r"(.* )?std::vector<int, .*?>::", r"(.* )?std::vector<std::function<.*>::", r"(.* )?std::vector<mlio::Attribute, .*?>::", r"(.* )?std::unordered_(map|set)<.*>::"
    stubs = [R(r"mlio::Data_reader_base::params\(\)", lambda ex, st, a, i: Ptr(prm, 0)), R(IV + r"emplace_back", ignore), R(r".*std::vector<std::function<.*>::(emplace_back|push_back)<(decltype\(nullptr\)|std::nullptr_t)", parser(True)), R(r".*std::vector<std::function<.*>::(emplace_back|push_back)", parser(False)), R(AV + r"(emplace_back|push_back)", attr), R(r"(" + IV + r"|" + AV + r"|.*std::vector<std::function<.*>::)(reserve|~?vector)\(", nop), R(r"std::function<.*>::~function", nop), R(r"mlio::make_parser\(", make), R(r"mlio::Csv_reader::should_skip\(", skip),
        R(r".*std::unordered_map<.*::try_emplace", emplace), R(r"std::__detail::_Node_iterator<std::pair<.*>::operator->", lambda ex, st, a, i: ex.load(st, a[0], PT)), R(r"(.* )?std::unordered_(map|set)<.*::~?unordered_(map|set)\(", nop), R(STRING + r"basic_string\(std::basic_string<", copy), R(STRING + r"append\(", append), R(r"_ZN3fmt.*to_string|.*fmt::.*to_string<", nop), R(r".*mlio::make_intrusive<mlio::Schema", scm), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop),
        R(AV + r"begin\(\)", lambda ex, st, a, i: Ptr(alist, 0)), R(AV + r"end\(\)", lambda ex, st, a, i: Ptr(alist, simp(S * aw))), R(r"mlio::Attribute::name", lambda ex, st, a, i: a[0]), R(r"std::basic_string<char, .*>::operator std::basic_string_view", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("length"), Ptr(node, 0)]))]), R(r".*std::unordered_set<.*::emplace<", lambda ex, st, a, i: [(x, ("ret", [Ptr(node, 0), BV(v, 8)])) for x, v in ((st.copy(), 1), (st, 0))]), R(r"std::__detail::_Node_iterator<std::basic_string_view.*>::operator\*", lambda ex, st, a, i: Ptr(node, 0)), R(r"std::basic_string<.* fmt::.*format<", nop)]
    return dict(name="Csv_reader::init_parsers_and_make_schema", fn=fn, setup=setup, post=post, covers=["schema", "renamed", "refused"], cands=[cands], on_load=[X.load], stubs=stubs + LOG, opts=dict(watch=[K], scale={**X.scale(), alist.id: aw}), budget=60)

# override of types.  OVI/IT: the overrides by index, NMD/NT: by name; NM: the name of a column; X any name, K any index; W, V: an index / a name that is left over (prophecy)
OVI, IT, NMD, NT, NM = z3.Function("type given for index", B64, z3.BoolSort()), z3.Function("type of index", B64, B32), z3.Function("type given for name", B64, z3.BoolSort()), z3.Function("type of name", B64, B32), z3.Function("name of column", B64, B64)
XN, WI, VN = (z3.BitVec(n, 64) for n in ("X", "left index", "left name")); SEENX, SEENV = z3.Function("name X before", B64, z3.BoolSort()), z3.Function("left name before", B64, z3.BoolSort())
def seen(k): return [SEENX(k + 1) == z3.Or(SEENX(k), NM(k) == XN), SEENV(k + 1) == z3.Or(SEENV(k), NM(k) == VN)]
def spec_override(u):
    fn = r"mlio::Csv_reader::apply_column_type_overrides\("; X = Columns(u); m = u.mods[0]; f = lambda n: field(u, "Csv_reader", n); pf = lambda n: f("params_") + field(u, "Csv_params", n); imap, nmap, left = Obj("overrides by index", U(1 << 44), True), Obj("overrides by name", U(1 << 44), True), Obj("left over", None, True); bb = lambda b: bv(simp(z3.If(b, BV(1, 8), BV(0, 8))), 8)
    def setup(ex, st):
        X.init(ex, st)
        for o in (imap, nmap, left): ex.objs[o.id] = o
        st.assume(z3.Not(SEENX(BV(0, 64))), z3.Not(SEENV(BV(0, 64)))); st.ghost.update(ek=BV(0, 8), ew=BV(0, 8), ex=BV(0, 8), ev=BV(0, 8), iat=None, nat=None, why=BV(0, 8)); return args_of(u, fn, {"this": Ptr(X.reader, 0)})
    def copy(which, par):
        def go(ex, st, a, i): ex.oblige(st, "requires: the overrides of the reader, once", TF(isinstance(a[1], Ptr) and a[1].o is X.reader and eqc(simp(a[1].f), pf(par)) and st.ghost[which] is None)); st.ghost[which] = (a[0].o.id, str(simp(a[0].f)))
        return go
    def known(st, p):
        k = (p.o.id, str(simp(p.f)))
        for n in ("iat", "nat"):
            if st.ghost[n] == k: return n
        raise ir.Unsupported("another map")
    def find(ex, st, a, i):
        g = st.ghost; w = known(st, a[0])
        if w == "iat":
            k = U(ex.load(st, a[1], I64)); b = z3.BitVec(f"found {ex.fresh('found')}", 8); there = z3.If(k == K, z3.And(OVI(K), g["ek"] == 0), z3.If(k == WI, z3.And(OVI(WI), g["ew"] == 0), z3.And(OVI(k), b == 1))); obj, key = imap, k
            st.assume(z3.Implies(z3.And(K == WI), g["ek"] == g["ew"]))
        else:
            k = quot(simp(a[1].f), 32) if isinstance(a[1], Ptr) and a[1].o is X.names else None
            if k is None: raise ir.Unsupported("another name")
            st.assume(*seen(U(k))); key = NM(U(k)); b = z3.BitVec(f"found {ex.fresh('found')}", 8); there = z3.If(key == XN, z3.And(NMD(XN), g["ex"] == 0), z3.If(key == VN, z3.And(NMD(VN), g["ev"] == 0), z3.And(NMD(key), b == 1))); obj = nmap; st.assume(z3.Implies(XN == VN, g["ex"] == g["ev"]), z3.ULT(key, BV(1 << 38, 64)))
        y, n = fork(st, there, z3.Not(there)); y.assume(z3.ULT(key, BV(1 << 38, 64))); return [(y, ("ret", Ptr(obj, simp(key * 64)))), (n, ("ret", NULL))]
    def erase(ex, st, a, i):
        g = st.ghost; w = known(st, a[0]); p = a[1]; o = imap if w == "iat" else nmap
        if not (isinstance(p, Ptr) and p.o is o): ex.oblige(st, "safety: erases an entry of the map", False); return NULL
        k = U(quot(simp(p.f), 64))
        for nm, c in (("ek", K), ("ew", WI)) if w == "iat" else (("ex", XN), ("ev", VN)): g[nm] = bv(simp(z3.If(k == c, BV(1, 8), g[nm])), 8)
        return NULL
    def empty(ex, st, a, i):
        g = st.ghost; w = known(st, a[0]); y, n = st.copy(), st.copy(); r = []
        if w == "iat": y.assume(z3.Implies(OVI(K), g["ek"] == 1)); n.assume(OVI(WI), g["ew"] == 0); n.ghost["why"] = BV(1, 8)
        else: y.assume(z3.Implies(NMD(XN), g["ex"] == 1)); n.assume(NMD(VN), g["ev"] == 0); n.ghost["why"] = BV(2, 8)
        return [(y, ("ret", 1)), (n, ("ret", 0))]
    def entry(ex, st, a, i):
        p = ex.load(st, a[0], PT)
        if not (isinstance(p, Ptr) and p.o in (imap, nmap)): return Ptr(left, 0)
        k = U(quot(simp(p.f), 64)); ob = Obj("entry", 64, True); ex.objs[ob.id] = ob; ex.store(st, Ptr(ob, 8 if p.o is imap else 32), IT(k) if p.o is imap else NT(k), I32, m); return Ptr(ob, 0)
    byidx = lambda k: z3.If(OVI(k), IT(k), z3.Select(TYPES, k))
    def now(ex, st): return bv(ex.load_raw(st, X.types, simp(K * 4), 4, I32), 32)
    FINAL = z3.If(z3.And(NMD(XN), z3.Not(SEENX(K))), NT(XN), byidx(K))
    def may(t): return z3.Or(t == FINAL, z3.And(NMD(XN), SEENX(K), t == NT(XN)))
    def cands(sn):
        g = sn.st.ghost; r = [("no error yet", g["why"] == 0)]; ks = [n_ for n_ in X.at(sn)[0]] + [(mm, U(v)) for mm, (v, wd) in sn.ints.items() if wd == 64]; t = now(sn.ex, sn.st); second = g["nat"] is not None
        for n, k in ks:
            r += [(f"{n} at most all", z3.ULE(k, C))]
            if not second: r += [(f"{n} type so far", z3.Implies(z3.ULT(K, C), t == z3.If(z3.ULT(K, k), byidx(K), z3.Select(TYPES, K)))), (f"{n} overrides used", (g["ek"] == 1) == z3.And(OVI(K), z3.ULT(K, k))), (f"{n} left over used", (g["ew"] == 1) == z3.And(OVI(WI), z3.ULT(WI, k)))]
            else: r += [(f"{n} name so far", z3.Implies(z3.And(z3.ULT(K, C), NM(K) == XN), z3.If(z3.ULT(K, k), may(t), t == byidx(K)))), (f"{n} names used", (g["ex"] == 1) == z3.And(NMD(XN), SEENX(k))), (f"{n} left name used", (g["ev"] == 1) == z3.And(NMD(VN), SEENV(k))), (f"{n} behind K", z3.Implies(z3.And(z3.ULT(K, k), z3.ULT(K, C), NM(K) == XN), SEENX(k)))] + [(f"{n} with {mm}", k == l) for mm, l in ks if mm < n]
            r += [(f"{n} with {mm}", k == l) for mm, l in ks if mm < n and not second]
        return r + ([("indices all used", z3.Implies(OVI(K), z3.ULT(K, C)))] if second else [])
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw":
            ex.cover("unknown index", g["why"] == 1); ex.cover("unknown name", g["why"] == 2); yield "ensures: refused only for an index out of range or a name that no column has", z3.And(TF(is_exc(o, "invalid_argument")), z3.Or(z3.And(g["why"] == 1, OVI(WI), z3.UGE(WI, C)), z3.And(g["why"] == 2, NMD(VN), z3.Not(SEENV(C))))); return
        ex.cover("types", z3.And(C == 3, OVI(K), K == 1, NMD(XN))); yield "ensures: no index out of range is passed over", z3.Implies(OVI(K), z3.ULT(K, C)); yield "ensures: no name that no column has is passed over", z3.Implies(NMD(XN), SEENX(C)); yield "ensures: column K has the type given for its name, else for its index, else its own", z3.Implies(z3.And(z3.ULT(K, C), NM(K) == XN), may(now(ex, st)))
    UI, UN, NI_ = r"(.* )?std::unordered_map<unsigned long, .*>::", r"(.* )?std::unordered_map<std::basic_string<.*>::", r"(.* )?std::__detail::_Node_iterator(_base)?<"
    end = lambda ex, st, a, i: NULL
    stubs = [R(r"(.* )?std::unordered_map<unsigned long, .*::unordered_map\(std::unordered_map<", copy("iat", "column_types_by_index")), R(r"(.* )?std::unordered_map<std::.*::unordered_map\(std::unordered_map<", copy("nat", "column_types")), R(r"(.* )?std::unordered_map<.*>::find\(", find), R(r"(.* )?std::unordered_map<.*>::end\(\)", end), R(r"(.* )?std::unordered_map<.*>::erase\(std::__detail", erase), R(r"(.* )?std::unordered_map<.*>::empty\(\)", empty), R(r"(.* )?std::unordered_map<.*>::~unordered_map\(", nop), R(r"(.* )?std::unordered_map<.*>::size\(\)", lambda ex, st, a, i: ex.fresh("left")), R(r"(.* )?std::unordered_map<.*>::begin\(\)", lambda ex, st, a, i: Ptr(left, 0)),
        R(NI_ + r".*>::operator->", entry), R(NI_ + r".*>::operator\*", lambda ex, st, a, i: Ptr(left, 0)), R(NI_ + r".*>::operator\+\+\(\)", lambda ex, st, a, i: [(st.copy(), ("ret", a[0])), ((lambda s_: (ex.store(s_, a[0], NULL, PT, m), s_)[1])(st), ("ret", a[0]))]), R(r"(.* )?std::vector<(unsigned long|std::basic_string<char.*?), std::allocator<.*?> ?>::(emplace_back|push_back|reserve|~?vector)", nop), R(r".*fmt::.*(join|format)", nop), R(r"_ZN3fmt", nop), R(r"std::invalid_argument::", nop), R(r"strlen$", lambda ex, st, a, i: ex.fresh("length"))]
    return dict(name="Csv_reader::apply_column_type_overrides", fn=fn, setup=setup, post=post, covers=["types", "unknown index", "unknown name"], cands=[cands], stubs=stubs + LOG, opts=dict(watch=[K], scale={**X.scale(), imap.id: 64, nmap.id: 64}), budget=90)
def spec_schema(u):
    fn = r"mlio::Csv_reader::infer_schema\("; Tb = Table(u); m = u.mods[0]; out, schema = Obj("result", 8, True), Obj("schema", None, True)
    def setup(ex, st):
        Tb.init(ex, st)
        for o in (out, schema): ex.objs[o.id] = o
        st.ghost.update(step=0, bad=False); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": Ptr(Tb.this, 0), "instance": Ptr(Tb.inst, 0)})
    def step(n, k, exc, inst=False, res=False):
        def go(ex, st, a, i):
            r = a[1:] if res else a; ex.oblige(st, "requires: types, then names, then overrides, then parsers and schema", TF(st.ghost["step"] == n and r[0].o is Tb.this and (not inst or r[1].o is Tb.inst))); st.ghost["step"] = n + 1; x = st.copy(); x.ghost["bad"] = True
            if res: ex.store(st, a[0], Ptr(schema, 0), PT, m)
            if n == 0: ex.oblige(st, "requires: names, if there is no row", z3.Or(HASI, NN != 0))
            return [(st, ("ret", None)), (x, ("throw", Thrown(exc)))]
        return R(r"mlio::Csv_reader::" + k + r"\(", go)
    SE, IA = "_ZTIN4mlio6abi_v112Schema_errorE", "_ZTISt16invalid_argument"
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw": ex.cover("error"); yield "ensures: only an error of a step is passed on", TF(g["bad"]); return
        p = cell(ex, st, out, 0, PT)
        if p is NULL or not isinstance(p, Ptr) or p.o is None: ex.cover("nothing known"); yield "ensures: no schema only if there is neither a row nor a name", z3.And(z3.Not(HASI), NN == 0); return
        ex.cover("schema"); yield "ensures: the schema after all steps", TF(p.o is schema and g["step"] == 4 and not g["bad"])
    return dict(name="Csv_reader::infer_schema", fn=fn, setup=setup, post=post, covers=["schema", "nothing known", "error"], stubs=[step(0, "infer_column_types", SE, True), step(1, "set_or_validate_column_names", SE, True), step(2, "apply_column_type_overrides", IA), step(3, "init_parsers_and_make_schema", SE, False, True)] + instance(Tb) + Tb.stubs(), budget=60)

HARNESS = dict(file="P23.cc", srcs=lambda: build.readers(), secs=8)
NOTE = "decoding is proved for tables of every size: a row of any number of fields against any selection, types and parse results (the watched column arbitrary: the parser of a selected column gets that column's field and the row of that column's tensor, nothing is taken from another column), batches of any number of rows in series (every good row to the next position, bad rows as configured), the parallel worker on any sub-range of a batch, the handling of a batch that turned bad, the building of the tensors, type inference, and which columns are selected and how they are named and where the header is. Type overrides are proved to reach exactly the columns of their indices and names (unknown ones are refused), and the list of deselected columns, the parsers and the attributes to be in step, of the columns' types and named as asked for; how a duplicate is renamed is left open. The harness's oracle writes the table itself and knows every field. The identifier of the data store, which the decoding tasks name in their messages, is proved not to be written by reading it."
ASSUME = ["the tokenizer gives the fields of a row (P01) and the parsers convert them (P12, P13)", "tbb::parallel_for runs its body on sub-ranges that make up the range once; other tasks may set the flag of a bad batch at any time", "std::vector, std::unordered_set, std::unordered_map and std::string keep their contracts", "the counts of columns and of fields are below 2^38"]
