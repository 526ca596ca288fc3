import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p24 import B, N, LIM, J, U, I1, at, buf, init, TEXT

SRCS = [os.path.join(build.VERIF, "harness/ir/numbers.cc"), "src/mlio/util/number.cc", "src/mlio/util/string.cc", "src/mlio/parser.cc", "src/mlio/data_type.cc"]
OK, FAILED, OVERFLOW = 0, 1, 2
SPACE = lambda c: z3.Or(c == 32, z3.And(z3.UGE(c, BV(9, 8)), z3.ULE(c, BV(13, 8))))
DIGIT = lambda c: z3.And(z3.UGE(c, BV(48, 8)), z3.ULE(c, BV(57, 8)))
def isspace(ex, st, a, i):
    c = bv(a[0], 32); r = ex.fresh("isspace", 32); st.assume((r != 0) == z3.Or(c == 32, z3.And(c >= 9, c <= 13))); return r
CT = [R(r"^isspace$", isspace), R(r"^isdigit$", lambda ex, st, a, i: z3.If(z3.And(bv(a[0], 32) >= 48, bv(a[0], 32) <= 57), BV(1, 32), BV(0, 32)))]

# ---- white space: any text B[0..N)
def text_cands(o, preds, ends):
    """loops over the text: where the pointers are and what lies before and behind them"""
    def cands(sn):
        r = []; b = z3.Select(B, J)
        for n, p in sn.ptrs.items():
            if p.o is not o: continue
            v = U(p.f); e = sn.entry.get(n); e = U(e.f) if isinstance(e, Ptr) else None
            if e is None: continue
            r += [(f"{n} forward", z3.ULE(e, v)), (f"{n} backward", z3.ULE(v, e))]
            lo, hi = U(ends["start"]), U(ends["end"]); r += [(f"start<={n}<=end", z3.And(z3.ULE(lo, v), z3.ULE(v, hi)))]
            for d, nm in ((hi - v, f"end-{n}"), (v - lo, f"{n}-start")):
                for m, (c, w) in sn.ints.items():
                    if w == 64: c = bv(c, 64); r += [(f"{m}=={nm}", c == d), (f"4*{m}~{nm}", z3.And(z3.ULE(c, BV(1 << 50, 64)), z3.ULE(c * 4, d), z3.ULE(d, c * 4 + 3)))]
            for k, f in preds.items(): r += [(f"before {n}: {k}", z3.Implies(z3.And(z3.ULE(e, J), z3.ULT(J, v)), f(b))), (f"behind {n}: {k}", z3.Implies(z3.And(z3.ULE(v, J), z3.ULT(J, e)), f(b)))]
        return r
    return cands
def spec_trim(u):
    o = buf()
    def setup(ex, st): init(ex, st, o); return args_of(u, r"mlio::trim\(", {0: N, 1: Ptr(o, 0)})
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        n, p = U(out[1][0]), out[1][1]
        if not isinstance(p, Ptr) or p.o is not o: yield "ensures: a part of the text", False; return
        b = U(p.f); ex.cover("empty", n == 0); ex.cover("rest", z3.And(n != 0, b != 0, b + n != N)); c = z3.Select(B, J)
        yield "ensures: a part of the text", z3.And(z3.ULE(b, N), z3.ULE(n, N - b))
        yield "ensures: only white space is cut", z3.Implies(z3.And(z3.ULT(J, N), z3.Or(z3.ULT(J, b), z3.UGE(J, b + n))), SPACE(c))
        yield "ensures: no white space at either end", z3.Implies(n != 0, z3.Not(z3.Or(SPACE(at(b)), SPACE(at(b + n - 1)))))
    return dict(name="trim", fn=r"mlio::trim\(", setup=setup, post=post, covers=["empty", "rest"], cands=[text_cands(o, dict(space=SPACE), dict(start=0, end=N))], stubs=CT + TEXT, opts=dict(watch=[J]), budget=150)
def every(o, lo, hi, pred):
    """hypothesis: every byte of [lo, hi) satisfies pred, applied to whatever is read"""
    def hook(ex, st, ob, off, n):
        if ob is o and n == 1: st.assume(z3.Implies(z3.And(z3.ULE(U(lo), U(off)), z3.ULT(U(off), U(hi))), pred(z3.Select(B, U(off)))))
    return hook
def spec_blank(allspace):
    def spec(u):
        o = buf(); fn = r"mlio::is_whitespace_only\([^()]*\)$"
        def setup(ex, st): init(ex, st, o); return args_of(u, fn, {0: N, 1: Ptr(o, 0)})
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bo(asbool(out[1]))
            if allspace: yield "ensures: true for white space", r
            else: ex.cover("true", r); ex.cover("false", z3.Not(r)); yield "ensures: true only for white space", z3.Implies(z3.And(r, z3.ULT(J, N)), SPACE(z3.Select(B, J)))
        return dict(name="is_whitespace_only" + (" (white space)" if allspace else ""), fn=fn, setup=setup, post=post, covers=[] if allspace else ["true", "false"], cands=[text_cands(o, dict(space=SPACE), dict(start=0, end=N))], on_load=[every(o, 0, N, SPACE)] if allspace else [], stubs=CT + TEXT, opts=dict(watch=[J]), budget=150)
    spec.__name__ = "spec_blank"
    return spec

# ---- numbers
# what the text denotes: a decimal integer VAL or not, a real or not (these facts come from the contracts of absl and of is_integer)
ISNUM, NEG = z3.Bool("text denotes a decimal integer"), z3.Bool("with a minus sign"); VAL = z3.BitVec("denoted integer", 128)
FACTS = [z3.Implies(NEG, VAL <= 0), z3.Implies(z3.Not(NEG), VAL >= 0)]
def rng(w, signed): return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
def inrange(w, signed): lo, hi = rng(w, signed); return z3.And(VAL >= BV(lo, 128), VAL <= BV(hi, 128))
BUF = buf()
def whole(n, p): return z3.And(U(n) == N, I1(isinstance(p, Ptr) and p.o is BUF), U(p.f) == 0) if isinstance(p, Ptr) and p.o is not None else z3.BoolVal(False)
def wr(ex, st, p, v, w): ex.store(st, p, v, ir.IntTy(w), ex.unit.mods[0])
def absl(w, signed):
    def h(ex, st, a, i):
        """true exactly for a decimal integer that fits (an unsigned type takes no minus sign), which is then stored"""
        ex.oblige(st, "requires: the whole text, base 10", z3.And(whole(a[0], a[1]), bv(a[3], 32) == 10)); fits = z3.And(ISNUM, inrange(w, signed), z3.BoolVal(True) if signed else z3.Not(NEG))
        y, n = fork(st, fits, z3.Not(fits)); wr(ex, y, a[2], z3.Extract(w - 1, 0, VAL), w); wr(ex, n, a[2], ex.fresh("clamped", w), w)
        return [(y, ("ret", True)), (n, ("ret", False))]
    return h
ABSL = [R(rf"absl::.*safe_strto{s}{w}_base\(", absl(w, s == "")) for w in (32, 64) for s in ("", "u")]
def isint(ex, st, a, i):
    """contract of is_integer (below)"""
    ex.oblige(st, "requires: the whole text", whole(a[0], a[1])); return ISNUM
INTS = {"signed char": (8, True), "short": (16, True), "int": (32, True), "long": (64, True), "unsigned char": (8, False), "unsigned short": (16, False), "unsigned int": (32, False), "unsigned long": (64, False)}
def spec_int(T, fn=None):
    w, sg = INTS[T]
    def spec(u):
        rx = fn or rf".*\bmlio::try_parse_int<{T}>\("; res = Obj("result", w // 8, True); old = z3.BitVec("old", w); opt = Obj("options", None, True)
        def setup(ex, st):
            init(ex, st, BUF); ex.objs[res.id] = res; wr(ex, st, Ptr(res, 0), old, w); st.assume(*FACTS)
            a = [N, Ptr(BUF, 0), Ptr(res, 0), Ptr(opt, 0)]; return a[:len(u.one(rx).params)]
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bv(out[1], 32); v = bv(cell(ex, st, res, 0, ir.IntTy(w)), w); ext = z3.SignExt(128 - w, v) if sg else z3.ZeroExt(128 - w, v)
            for k, n in ((OK, "ok"), (FAILED, "failed"), (OVERFLOW, "overflow")): ex.cover(n, r == k)
            neg0 = z3.BoolVal(False) if sg else z3.And(ISNUM, NEG, VAL == 0)       # "-0": zero or refused
            yield "ensures: success exactly for an integer that the type can represent", z3.Or(neg0, (r == OK) == z3.And(ISNUM, inrange(w, sg)))
            yield "ensures: the value is the one denoted", z3.Implies(r == OK, ext == VAL)
            yield "ensures: overflow exactly for an integer out of range", z3.Or(neg0, (r == OVERFLOW) == z3.And(ISNUM, z3.Not(inrange(w, sg))))
            yield "ensures: failure exactly for anything else", (r == FAILED) == z3.Not(ISNUM)
        return dict(name=(fn and "try_parse_size_t") or f"try_parse_int<{T}>", fn=rx, setup=setup, post=post, covers=["ok", "failed", "overflow"], stubs=ABSL + [R(r"mlio::detail::\(anonymous namespace\)::is_integer\([^()]*\)$", isint)] + CT + TEXT)
    spec.__name__ = "spec_int_" + T.replace(" ", "_")
    return spec
def spec_size_t(u): return spec_int("unsigned long", r"mlio::try_parse_size_t\(")(u)
# is_integer: white space, a sign, digits, white space
T0, TN = z3.BitVec("trim.begin", 64), z3.BitVec("trim.size", 64)
SIGN = z3.If(z3.And(TN != 0, z3.Or(at(T0) == 43, at(T0) == 45)), BV(1, 64), BV(0, 64))
def spec_isint(digits):
    def spec(u):
        fn = r"mlio::detail::\(anonymous namespace\)::is_integer\([^()]*\)$"; o = BUF
        def trim(ex, st, a, i):
            """contract of trim (above): T0, TN"""
            ex.oblige(st, "requires: the whole text", whole(a[0], a[1])); return [(st, ("ret", [TN, Ptr(o, T0)]))]
        def setup(ex, st): init(ex, st, o); st.assume(z3.ULE(T0, N), z3.ULE(TN, N - T0)); st.assume(*([SIGN != TN] if digits else [])); return args_of(u, fn, {0: N, 1: Ptr(o, 0)})
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bo(asbool(out[1])); lo = T0 + SIGN
            if digits: yield "ensures: true for a sign and digits", r; return
            ex.cover("true", r); ex.cover("false", z3.Not(r))
            yield "ensures: true only with a digit", z3.Implies(r, SIGN != TN)
            yield "ensures: true only for a sign and digits", z3.Implies(z3.And(r, z3.ULE(lo, J), z3.ULT(J, T0 + TN)), DIGIT(z3.Select(B, J)))
        return dict(name="is_integer" + (" (digits)" if digits else ""), fn=fn, setup=setup, post=post, covers=[] if digits else ["true", "false"], cands=[text_cands(o, dict(digit=DIGIT), dict(start=T0, end=T0 + TN))], on_load=[every(o, T0 + SIGN, T0 + TN, DIGIT)] if digits else [],
                    stubs=[R(r"mlio::trim\(", trim)] + CT + TEXT, opts=dict(watch=[J]), budget=150)
    spec.__name__ = "spec_isint"
    return spec
ISREAL, LISTED, NONAN = z3.Bool("text denotes a real"), z3.Bool("text is a listed NaN"), z3.Bool("no NaN list"); EMPTYL = z3.Bool("NaN list empty")
def spec_float(T):
    w = dict(float=32, double=64)[T]; V = z3.Const("denoted " + T, fpsort(w)); FT = ir.FLOAT if w == 32 else ir.DOUBLE
    def spec(u):
        rx = rf".*\bmlio::try_parse_float<{T}>\("; res, opt, lst, node = Obj("result", w // 8, True), Obj("options", 8, True), Obj("NaN list", None, True), Obj("node", None, True); old = z3.Const("old " + T, fpsort(w))
        def parse(ex, st, a, i):
            ex.oblige(st, "requires: the whole text", whole(a[0], a[1])); y, n = fork(st, ISREAL, z3.Not(ISREAL)); ex.store(y, a[2], Fp(V, w), FT, u.mods[0]); ex.store(n, a[2], Fp(z3.Const(f"garbage{ex.freshn}", fpsort(w)), w), FT, u.mods[0])
            return [(y, ("ret", True)), (n, ("ret", False))]
        def trim(ex, st, a, i): ex.oblige(st, "requires: the whole text", whole(a[0], a[1])); return [(st, ("ret", [TN, Ptr(BUF, T0)]))]
        def mk(ex, st, a, i):
            n, p = (ex.load(st, Ptr(a[1].o, add(a[1].f, k)), t, u.mods[0]) for k, t in ((0, I64), (8, PT))); ok = isinstance(p, Ptr) and p.o is BUF and ex.valid(st, z3.And(U(n) == TN, U(p.f) == T0)); st.ghost[("str", a[0].o.id, a[0].f)] = "trimmed" if ok else "other"
        def find(ex, st, a, i):
            ex.oblige(st, "requires: the trimmed text is looked up in the given list", I1(a[0].o is lst and st.ghost.get(("str", a[1].o.id, a[1].f)) == "trimmed")); y, n = fork(st, LISTED, z3.Not(LISTED)); return [(y, ("ret", Ptr(node, 0))), (n, ("ret", NULL))]
        def count(ex, st, a, i): r = find(ex, st, a, i); return [(r[0][0], ("ret", 1)), (r[1][0], ("ret", 0))]
        US = r"std::unordered_set<.*>::"
        LIST = [R(US + r"empty\(\)", lambda ex, st, a, i: EMPTYL), R(US + r"c?end\(\)", lambda ex, st, a, i: NULL), R(US + r"find\(", find), R(US + r"count\(", count), R(r"mlio::trim\(", trim), R(r"std::basic_string<char.*::basic_string<std::basic_string_view", mk), R(r"std::basic_string<char.*::~basic_string", nop)]
        def setup(ex, st):
            init(ex, st, BUF); ex.objs[res.id] = res; ex.store(st, Ptr(res, 0), Fp(old, w), FT, u.mods[0]); st.assume(z3.ULE(T0, N), z3.ULE(TN, N - T0), z3.Implies(EMPTYL, z3.Not(LISTED)))
            y = st; y.assume(z3.Not(NONAN)); ex.store(y, Ptr(opt, 0), Ptr(lst, 0), PT, u.mods[0]); return [N, Ptr(BUF, 0), Ptr(res, 0), Ptr(opt, 0)]
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bv(out[1], 32); v = cell(ex, st, res, 0, FT).t
            for k, n in ((OK, "ok"), (FAILED, "failed"), (OVERFLOW, "overflow")): ex.cover(n, r == k)
            inf = z3.fpIsInf(V); ex.cover("listed", z3.And(z3.Not(ISREAL), LISTED))
            yield "ensures: success exactly for a finite real or a listed NaN", (r == OK) == z3.If(ISREAL, z3.Not(inf), LISTED)
            yield "ensures: overflow exactly for an infinity", (r == OVERFLOW) == z3.And(ISREAL, inf)
            yield "ensures: failure exactly for anything else", (r == FAILED) == z3.And(z3.Not(ISREAL), z3.Not(LISTED))
            yield "ensures: the value is the one denoted", z3.Implies(r == OK, z3.If(ISREAL, v == V, z3.fpIsNaN(v)))
        return dict(name=f"try_parse_float<{T}>", fn=rx, setup=setup, post=post, covers=["ok", "failed", "overflow", "listed"], stubs=[R(r"absl::.*SimpleAto[fd]\(", parse)] + LIST + CT + TEXT)
    spec.__name__ = "spec_" + T
    return spec
def spec_narrow(T, S):
    def spec(u):
        rx = rf".*\bmlio::try_narrow<{T}, {S}>\("; (w, sg), (x, xs) = INTS[T], INTS[S]; res = Obj("t", w // 8, False); V = z3.BitVec("u", x)
        def setup(ex, st): ex.objs[res.id] = res; return [V, Ptr(res, 0)]
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            r = bo(asbool(out[1])); v = bv(cell(ex, st, res, 0, ir.IntTy(w)), w); e = lambda y, k, s: z3.SignExt(80 - k, y) if s else z3.ZeroExt(80 - k, y); lo, hi = rng(w, sg)
            val = e(V, x, xs); ex.cover("preserved", r)
            yield "ensures: true exactly when the type can represent the value", r == z3.And(val >= BV(lo, 80), val <= BV(hi, 80))
            yield "ensures: the value is preserved", z3.Implies(r, e(v, w, sg) == val)
        return dict(name=f"try_narrow<{T}, {S}>", fn=rx, setup=setup, post=post, covers=["preserved"])
    spec.__name__ = "spec_narrow"
    return spec
# ---- parsers: for every data type, the element at the index receives the number of that type
TYPES = ["unsigned long", None, "float", "double", "signed char", "short", "int", "long", "unsigned char", "unsigned short", "unsigned int", "unsigned long", "string"]
def spec_parser(u):
    fn = r"parse_as\("; opt, arr, data = Obj("options", None, True), Obj("array", None, True), Obj("data", None, True); DT, IX = z3.BitVec("data type", 32), z3.BitVec("index", 64)
    RES = z3.BitVec("outcome", 32); nanoff = field(u, "Parser_options", "nan_values")
    def tp(T):
        def h(ex, st, a, i):
            """contract of the number parser (above)"""
            ex.oblige(st, "requires: the whole text", whole(a[0], a[1])); st.ghost["by"] = (T, a[2])
            if T in ("float", "double"): q = ex.load(st, a[3], PT, u.mods[0]); ex.oblige(st, "requires: the NaN list of the options", I1(isinstance(q, Ptr) and q.o is opt and eqc(q.f, nanoff)))
            return RES
        return h
    def asg(ex, st, a, i): st.ghost["by"] = ("string", a[0]); st.ghost["text"] = st.ghost.get(("str", a[1].o.id, a[1].f)); return a[0]
    def mk(ex, st, a, i):
        n, p = (ex.load(st, Ptr(a[1].o, add(a[1].f, k)), t, u.mods[0]) for k, t in ((0, I64), (8, PT))); st.ghost[("str", a[0].o.id, a[0].f)] = isinstance(p, Ptr) and p.o is BUF and eqc(simp(p.f), 0) and ex.valid(st, U(n) == N)
    TAB = vtable(u, "Cpu_array", r"Cpu_array<"); size = z3.BitVec("array.size", 64)
    virt = dispatch({"Device_array": TAB}, {"Device_array": [(r"::data\(", lambda ex, st, a, i: Ptr(data, 0)), (r"::size\(", lambda ex, st, a, i: size)]})
    SB = r"std::basic_string<char.*>::"
    stubs = [R(rf".*\bmlio::try_parse_int<{T}>\(", tp(T)) for T in INTS] + [R(rf".*\bmlio::try_parse_float<{T}>\(", tp(T)) for T in ("float", "double")] + [R(r"mlio::try_parse_size_t\(", tp("unsigned long")),
             R(SB + r"operator=\(", asg), R(SB + r"basic_string<std::basic_string_view", mk), R(SB + "~basic_string", nop)]
    def setup(ex, st):
        init(ex, st, BUF); vinit(ex, st, arr, "Device_array"); st.assume(z3.ULT(IX, size), z3.ULT(size, BV(1 << 40, 64))); st.ghost["by"] = None
        f = u.one(fn); return [DT, Ptr(opt, 0), N, Ptr(BUF, 0), Ptr(arr, 0), IX]
    def post(ex, st, out):
        by = st.ghost["by"]
        if out[0] == "throw": ex.cover("invalid type"); yield "ensures: only an unknown data type is refused", z3.And(z3.UGT(DT, BV(12, 32)), I1(is_exc(out, "invalid_argument"))); return
        k = [i for i in range(13) if ex.feasible(st, DT == i)]
        if len(k) != 1: yield "ensures: one data type per path", False; return
        T = TYPES[k[0]]; ex.cover(str(T)); r = bv(out[1], 32); w = dict(float=4, double=8, string=32).get(T) or INTS.get(T, (0,))[0] // 8
        if T is None: yield "ensures: half precision numbers are refused", z3.And(r == FAILED, I1(by is None)); return
        if by is None: yield "ensures: the text is parsed", False; return
        yield "ensures: parsed as the data type", I1(by[0] == T); p = by[1]
        yield "ensures: the element at the index is written", z3.And(I1(isinstance(p, Ptr) and p.o is data), U(p.f) == IX * w)
        if T == "string": yield "ensures: the text itself", z3.And(r == OK, I1(st.ghost.get("text") is True))
        else: yield "ensures: the outcome is reported", r == RES
    return dict(name="make_parser", fn=fn, setup=setup, post=post, covers=["invalid type"] + [str(t) for t in TYPES], stubs=stubs + CT + TEXT, opts=dict(virtual=virt))
def spec_infer(u):
    fn = r"mlio::infer_data_type\("; SI, SU, SF = (z3.BitVec(n, 32) for n in ("int64 outcome", "uint64 outcome", "float64 outcome"))
    def tp(T, r):
        def h(ex, st, a, i): ex.oblige(st, "requires: the whole text", whole(a[0], a[1])); return r
        return R(rf".*\bmlio::try_parse_(int|float)<{T}>\(", h)
    def setup(ex, st): init(ex, st, BUF); st.assume(*[z3.ULE(x, BV(2, 32)) for x in (SI, SU, SF)]); return [N, Ptr(BUF, 0)]
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        want = z3.If(N == 0, BV(12, 32), z3.If(SI == OK, BV(7, 32), z3.If(z3.And(SI == OVERFLOW, SU == OK), BV(11, 32), z3.If(SF == OK, BV(3, 32), BV(12, 32)))))
        r = bv(out[1], 32)
        for n, k in (("string", 12), ("int64", 7), ("uint64", 11), ("float64", 3)): ex.cover(n, r == k)
        yield "ensures: the narrowest of int64, uint64, float64 and string that holds the text", r == want
    return dict(name="infer_data_type", fn=fn, setup=setup, post=post, covers=["string", "int64", "uint64", "float64"], stubs=[tp("long", SI), tp("unsigned long", SU), tp("double", SF)])

def specs(u):
    return [spec_trim, spec_blank(False), spec_blank(True), spec_isint(False), spec_isint(True)] + [spec_int(T) for T in INTS] + [spec_size_t, spec_float("float"), spec_float("double"), spec_parser, spec_infer] + [spec_narrow(T, S) for T in INTS for S in INTS]
HARNESS = dict(file="P18.cc", srcs=["src/mlio/util/number.cc", "src/mlio/util/string.cc", "src/mlio/parser.cc", "src/mlio/data_type.cc", "src/mlio/cpu_array.cc", "src/mlio/device_array.cc", "src/mlio/device.cc"], secs=6)
NOTE = "number parsing, trimming, narrowing, parser selection and type inference are proved for every text and value, over the contract of absl's number parsing."
ASSUME = ["absl::SimpleAtoi/SimpleAtof: true exactly for (white space around) a decimal number that fits, and then its value; the denoted number is taken to be within 128 bits", "isspace in the C locale; std::unordered_set::find and std::string by their library contracts"]
