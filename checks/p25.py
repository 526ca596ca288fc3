import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

def SRCS(): return ["src/mlio/data_stores/file_list.cc", os.path.join(build.natsort_inc(), "strnatcmp.c")]
I16, I32, I64, I8 = ir.IntTy(16), ir.IntTy(32), ir.IntTy(64), ir.IntTy(8)
B64, B8, BOOL = z3.BitVecSort(64), z3.BitVecSort(8), z3.BoolSort()
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
# ---- the order of names.  A and B: texts of LA and LB characters, then a zero
A, B, LA, LB = z3.Array("a[]", B64, B8), z3.Array("b[]", B64, B8), z3.BitVec("a.length", 64), z3.BitVec("b.length", 64)
TAB = z3.Array("ctype[]", B64, B8)
DIGIT = lambda c: z3.And(z3.UGE(c, BV(48, 8)), z3.ULE(c, BV(57, 8)))
SPACE = lambda c: z3.Or(c == 32, z3.And(z3.UGE(c, BV(9, 8)), z3.ULE(c, BV(13, 8))))
SGN = lambda x: z3.If(x < 0, BV(-1 & 0xffffffff, 32), z3.If(x > 0, BV(1, 32), BV(0, 32)))
M1, P1, Z0 = BV(0xffffffff, 32), BV(1, 32), BV(0, 32)
def cmp3(a, b, signed=False): return z3.If((a < b) if signed else z3.ULT(a, b), M1, z3.If(a == b, Z0, P1))
class Texts:
    def __init__(s):
        s.a, s.b = Obj("a", simp(LA + 1), True, mode="bytes"), Obj("b", simp(LB + 1), True, mode="bytes"); s.t = Obj("ctype table", 512, True, mode="bytes"); s.tp = Obj("ctype pointer", 8, True)
    def init(s, ex, st):
        for o, arr, n in ((s.a, A, LA), (s.b, B, LB)):
            ex.objs[o.id] = o; ex.omw(st, o).arr = arr; st.assume(z3.ULT(n, BV((1 << 31) - 2, 64)), z3.Select(arr, n) == 0)
        for o in (s.t, s.tp): ex.objs[o.id] = o
        ex.omw(st, s.t).arr = TAB; ex.store(st, Ptr(s.tp, 0), Ptr(s.t, 0), PT, ex.unit.mods[0])
    def hook(s, ex, st, o, off, n):
        if o is s.a or o is s.b:
            arr, l = (A, LA) if o is s.a else (B, LB); st.assume(z3.Implies(z3.ULT(U(off), l), z3.Select(arr, U(off)) != 0))
        if o is s.t:      # the C locale's character classes
            c = z3.Extract(7, 0, z3.LShR(U(off), BV(1, 64))); hi = z3.Select(TAB, U(add(off, 1)))
            st.assume(z3.Extract(3, 3, hi) == z3.If(DIGIT(c), BV(1, 1), BV(0, 1)), z3.Extract(5, 5, hi) == z3.If(SPACE(c), BV(1, 1), BV(0, 1)))
    def stubs(s): return [R(r"^__ctype_b_loc$", lambda ex, st, a, i: Ptr(s.tp, 0)), R(r"^isdigit$", lambda ex, st, a, i: z3.If(z3.And(bv(a[0], 32) >= 48, bv(a[0], 32) <= 57), BV(1, 32), BV(0, 32))),
                          R(r"^isspace$", lambda ex, st, a, i: z3.If(z3.Or(bv(a[0], 32) == 32, z3.And(bv(a[0], 32) >= 9, bv(a[0], 32) <= 13)), BV(1, 32), BV(0, 32)))]
def run_order(left, la, lb, d, ca, cb):
    """the order of two runs of digits of lengths la, lb that first differ at d, in ca and cb: by value, or digit by digit"""
    first = z3.If(ca < cb, M1, P1); same = d == z3.If(z3.ULT(la, lb), la, lb)
    return z3.If(same, cmp3(la, lb), first) if left else z3.If(la != lb, cmp3(la, lb), z3.If(same, Z0, first))
def spec_run(left):
    def spec(u):
        T = Texts(); PA, PB, RA, RB, D = (z3.BitVec(n, 64) for n in ("a.start", "b.start", "a.run", "b.run", "first difference")); fn = r"compare_left$" if left else r"compare_right$"; lo = z3.If(z3.ULT(RA, RB), RA, RB)
        want = run_order(left, RA, RB, D, z3.Select(A, PA + D), z3.Select(B, PB + D))
        def setup(ex, st):
            T.init(ex, st); st.assume(z3.ULE(PA, LA), z3.ULE(PB, LB), z3.ULE(RA, LA - PA), z3.ULE(RB, LB - PB), z3.ULE(D, lo), z3.Implies(z3.ULT(D, lo), z3.Select(A, PA + D) != z3.Select(B, PB + D)))
            return args_of(u, fn, {0: Ptr(T.a, PA), 1: Ptr(T.b, PB)})
        def hook(ex, st, o, off, n):
            T.hook(ex, st, o, off, n)
            if o is T.a or o is T.b:
                p, r = (PA, RA) if o is T.a else (PB, RB); x = U(off) - p
                for q, l, arr in ((PA, RA, A), (PB, RB, B)): st.assume(z3.Implies(z3.ULT(x, l), DIGIT(z3.Select(arr, q + x))), z3.Implies(x == l, z3.Not(DIGIT(z3.Select(arr, q + x)))))
                st.assume(z3.Implies(z3.ULT(x, D), z3.Select(A, PA + x) == z3.Select(B, PB + x)))
        def cands(sn):
            r = []; sg = z3.If(z3.Select(A, PA + D) < z3.Select(B, PB + D), M1, P1); ks = []
            for n, p in sn.ptrs.items():
                if p.o in (T.a, T.b):
                    k = simp(U(p.f) - (PA if p.o is T.a else PB)); ks.append((n, U(k)))
            for n, (v, w) in sn.ints.items():
                if w in (32, 64): ks.append((n, z3.SignExt(32, bv(v, 32)) if w == 32 else U(v)))
            for n, k in ks: 
                r += [(f"{n} in the runs", z3.And(z3.ULE(k, RA), z3.ULE(k, RB)))] + [(f"{n} with {m}", k == l) for m, l in ks if m < n] + ([(f"{n} up to the difference", z3.ULE(k, D))] if left else [])
                for m, (v, w) in sn.ints.items():
                    if w == 32: r.append((f"{m} is the first difference before {n}", bv(v, 32) == z3.If(z3.ULE(k, D), Z0, sg)))
            return r
        def post(ex, st, out):
            if out[0] == "throw": yield "ensures: no error", False; return
            for x, n in ((want == Z0, "equal"), (want == M1, "less"), (want == P1, "greater")): ex.cover(n, x)
            yield "ensures: " + ("digits are compared from the left, the shorter run first" if left else "the shorter run is less, runs of one length compare by their first different digit"), SGN(bv(out[1], 32)) == want
        return dict(name="compare_left" if left else "compare_right", fn=fn, setup=setup, post=post, covers=["equal", "less", "greater"], cands=[cands], on_load=[hook], stubs=T.stubs(), budget=60)
    spec.__name__ = "spec_left" if left else "spec_right"
    return spec
SKA, SKB = z3.Function("a skip", B64, B64), z3.Function("b skip", B64, B64); ORD = z3.Function("order at", B64, B64, z3.BitVecSort(32)); CL, CR = (z3.Function(n, B64, B64, z3.BitVecSort(32)) for n in ("order of digits at", "order of numbers at"))
def step(ca, cb, cl, cr, rest):
    """the order of what follows, white space skipped"""
    r = z3.If(z3.And(DIGIT(ca), DIGIT(cb)), z3.If(z3.Or(ca == 48, cb == 48), cl, cr), Z0)
    return z3.If(r != 0, r, z3.If(z3.And(ca == 0, cb == 0), Z0, z3.If(ca < cb, M1, z3.If(ca > cb, P1, rest))))
def spec_strnatcmp(u):
    T = Texts(); fn = r"^strnatcmp$"
    def unfold(st, i, j):
        """definition of the order at i, j"""
        i, j = U(i), U(j); x, y = SKA(i), SKB(j); ca, cb = z3.Select(A, x), z3.Select(B, y)
        st.assume(ORD(i, j) == step(ca, cb, CL(x, y), CR(x, y), ORD(x + 1, y + 1)))
    def setup(ex, st): T.init(ex, st); st.ghost["last a"] = st.ghost["last b"] = None; return args_of(u, fn, {0: Ptr(T.a, 0), 1: Ptr(T.b, 0)})
    def hook(ex, st, o, off, n):
        T.hook(ex, st, o, off, n)
        if o is T.a or o is T.b:
            arr, sk, l = (A, SKA, LA) if o is T.a else (B, SKB, LB); x = U(off); st.assume(sk(x) == z3.If(SPACE(z3.Select(arr, x)), sk(x + 1), x))
            st.ghost["last a" if o is T.a else "last b"] = x
            if st.ghost["last a"] is not None and st.ghost["last b"] is not None: unfold(st, st.ghost["last a"], st.ghost["last b"])
    def idx(sn):
        r = []
        for n, (v, w) in sn.ints.items():
            if w == 32: r.append((n, z3.SignExt(32, bv(v, 32))))
            if w == 64: r.append((n, U(v)))
        for n, p in sn.ptrs.items():
            if p.o in (T.a, T.b): r.append((n, U(p.f)))
        return r
    def cands(sn):
        r = []; ix = idx(sn)
        for n, i in ix:
            r += [(f"{n} in a", z3.ULE(i, LA)), (f"{n} in b", z3.ULE(i, LB)), (f"the skip at {n} of a", SKA(i) == z3.If(SPACE(z3.Select(A, i)), SKA(i + 1), i)), (f"the skip at {n} of b", SKB(i) == z3.If(SPACE(z3.Select(B, i)), SKB(i + 1), i))]
            for m, (v, w) in sn.ints.items():
                if w == 8: r += [(f"{m} is a[{n}]", bv(v, 8) == z3.Select(A, i)), (f"{m} is b[{n}]", bv(v, 8) == z3.Select(B, i))]
            for m, j in ix: r.append((f"the order at {n},{m} decides", ORD(i, j) == ORD(BV(0, 64), BV(0, 64))))
            e = sn.entry.get(n)
            if e is not None and not isinstance(e, (Ptr, dict)):
                e = z3.SignExt(32, bv(e, 32)) if sn.ints.get(n, (0, 0))[1] == 32 else U(e); r += [(f"{n} skips a", SKA(i) == SKA(e)), (f"{n} skips b", SKB(i) == SKB(e))]
        return r
    def run(f):
        def h(ex, st, a, i):
            p, q = a[0], a[1]
            if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.o in (T.a, T.b) and q.o in (T.a, T.b)): raise ir.Unsupported("digits of other texts")
            ex.oblige(st, "requires: digits of both texts inside the texts", z3.And(z3.ULE(U(p.f), LA if p.o is T.a else LB), z3.ULE(U(q.f), LA if q.o is T.a else LB)))
            r = ex.fresh("order", 32); v = f(U(p.f), U(q.f)) if p.o is T.a and q.o is T.b else -f(U(q.f), U(p.f))
            st.assume(SGN(r) == v, z3.Or(v == 0, v == M1, v == P1)); return r
        return h
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        w = ORD(BV(0, 64), BV(0, 64))
        for x, n in ((w == Z0, "equal"), (w == M1, "less"), (w == P1, "greater")): ex.cover(n, x)
        yield "ensures: the order of the names, from their starts", SGN(bv(out[1], 32)) == w
    return dict(name="strnatcmp", fn=fn, setup=setup, post=post, covers=["equal", "less", "greater"], cands=[cands], on_load=[hook], stubs=[R(r"^compare_left$", run(CL)), R(r"^compare_right$", run(CR))] + T.stubs(), budget=90)
# ---- listing.  The traversal: entries 0..END), each with its kind, mode and path; the paths given: N texts
N, END, J, PLEN = (z3.BitVec(n, 64) for n in ("number of paths", "number of entries", "J", "pattern length"))
class Entry:
    """what the traversal reports of one entry"""
    def __init__(s, info, mode, fnm, pred): s.info, s.mode, s.fnm, s.pred = info, mode, fnm, pred
WATCH = Entry(z3.BitVec("kind of entry J", 16), z3.BitVec("mode of entry J", 32), z3.BitVec("fnmatch of entry J", 32), z3.Bool("predicate of entry J"))     # entry J is any entry
HASP, HASF, FAILS = z3.Bool("predicate given"), z3.Bool("predicate set"), z3.Bool("traversal fails")
MM, COMP = z3.BitVec("memory map", 8), z3.BitVec("compression", 32)
FTS = {"DNR": 4, "ERR": 7, "F": 8, "NS": 10}
def bad(e): return z3.Or(*[e.info == FTS[n] for n in ("DNR", "ERR", "NS")])
def regular(e): m = e.mode & 0o170000; return z3.And(e.info == FTS["F"], z3.Or(m == 0o100000, m == 0o060000))
def unsure(e): return z3.And(regular(e), PLEN != 0, e.fnm != 0, e.fnm != 1)
def accepted(e): return z3.And(regular(e), z3.Or(PLEN == 0, e.fnm == 0), z3.Or(z3.Not(HASP), z3.Not(HASF), e.pred))
SBX = r"std::(__cxx11::)?basic_string<.*>::"
def spec_list(given):
    def spec(u):
        fn = r"mlio::list_files\(mlio::stdx::span<"; F = lambda n: field(u, "_ftsent", n); O = lambda n: field(u, "File_list_options", n)
        paths, opts, out, fts, ent, text, stat, pat, fun, cs, errno = Obj("paths", simp(U(N) * 32), True), Obj("options", O("__size__"), True), outobj("result", 24), Obj("FTS", None, True), Obj("entry", F("__size__"), True), Obj("path of entry", None, True), Obj("stat of entry", field(u, "stat", "__size__"), True), Obj("pattern text", None, True), Obj("predicate", 32, True), Obj("argument vector", None, True), Obj("errno", 4, True)
        objs = (paths, opts, out, fts, ent, text, stat, pat, fun, cs, errno)
        def setup(ex, st):
            for o in objs: ex.objs[o.id] = o
            g = st.ghost; g["pos"], g["args"], g["arg"], g["final"] = BV(0, 64), BV(0, 64), BV(NONE64, 64), BV(0, 64); g["listed"], g["last"], g["any"] = z3.BoolVal(False), BV(0, 64), z3.BoolVal(False); g["open"] = g["closed"] = 0; g["threw"] = False
            m = u.mods[0]; ex.bounded(st, N); ex.bounded(st, END); ex.store(st, Ptr(opts, O("pattern")), PLEN, I64, m); ex.store(st, Ptr(opts, O("pattern") + 8), Ptr(pat, 0), PT, m); ex.store(st, Ptr(opts, O("memory_map")), MM, I8, m); ex.store(st, Ptr(opts, O("compression")), COMP, I32, m); st.assume(z3.ULE(MM, 1))
            r = args_of(u, fn, {"agg.result": Ptr(out, 0), "paths.coerce0": Ptr(paths, 0), "paths.coerce1": N, "opts": Ptr(opts, 0)})
            ex.store(st, Ptr(opts, O("predicate")), Ptr(fun, 0) if given else NULL, PT, m); st.assume(HASP == given); return r
        def push(ex, st, a, i):
            """the arguments are collected one after the other"""
            p = ex.load(st, a[1], PT) if not (isinstance(a[1], Ptr) and a[1].o is paths) else a[1]; n = st.ghost["args"]
            if isinstance(p, Ptr) and p.o is None: v = BV(NONE64, 64)
            elif isinstance(p, Ptr) and p.o is paths and quot(simp(p.f), 32) is not None: v = U(quot(simp(p.f), 32))
            else: raise ir.Unsupported("an argument that is no path")
            st.ghost["arg"] = z3.If(n == J, v, st.ghost["arg"]); st.ghost["final"] = v; st.ghost["args"] = n + 1; return Ptr(cs, 0)
        def c_str(ex, st, a, i):
            if a[0].o is paths: return a[0]
            g = give_of(st, a[0]); return Ptr(pat, 0) if g == "pattern" else Ptr(text, 0) if g == "entry" else ex.fresh_ptr() if hasattr(ex, "fresh_ptr") else Ptr(Obj("text", None, True), 0)
        def give_of(st, p): return st.ghost.get(("str", p.o.name, p.f)) if isinstance(p, Ptr) and p.o is not None else None
        def from_view(ex, st, a, i):
            p = a[1]; p = ex.load(st, Ptr(p.o, add(p.f, 8)), PT) if isinstance(p, Ptr) and p.o is not pat else p; st.ghost[("str", a[0].o.name, a[0].f)] = "pattern" if isinstance(p, Ptr) and p.o is pat and eqc(simp(p.f), 0) else None
        def from_c(ex, st, a, i): st.ghost[("str", a[0].o.name, a[0].f)] = "entry" if isinstance(a[1], Ptr) and a[1].o is text else None
        def empty(ex, st, a, i):
            if give_of(st, a[0]) != "pattern": raise ir.Unsupported("another text")
            return simp(PLEN == 0)
        def open_(ex, st, a, i):
            g = st.ghost; f = a[2]; nm = getattr(f, "name", getattr(f, "v", str(f)))
            ex.oblige(st, "requires: the paths given, in order, and the end of the list", z3.And(TF(isinstance(a[0], Ptr) and a[0].o is cs), g["args"] == N + 1, z3.Implies(z3.ULT(J, N), g["arg"] == J), g["final"] == NONE64))
            ex.oblige(st, "requires: a traversal needs at least one path", N != 0)
            ex.oblige(st, "requires: links are followed, the working directory stays, no entry is left out", TF(is_c(a[1]) and a[1] & 0xff == 6)); ex.oblige(st, "requires: sorted by natural_sort", TF("natural_sort" in str(nm)))
            e = st.copy(); e.ghost["threw"] = True; g["open"] = g["open"] + 1; return [(st, ("ret", Ptr(fts, 0))), (e, ("ret", NULL))]
        def read(ex, st, a, i):
            g = st.ghost; ex.oblige(st, "requires: the open traversal", TF(isinstance(a[0], Ptr) and a[0].o is fts and g["closed"] == 0)); k = g["pos"]; m = u.mods[0]
            t, w, e, x = fork(st, z3.And(z3.ULT(k, END), k != J), z3.And(z3.ULT(k, END), k == J), z3.And(k == END, z3.Not(FAILS)), z3.And(k == END, FAILS))
            for t in (t, w):
              now = t.ghost["entry"] = WATCH if t is w else Entry(ex.fresh("kind", 16), ex.fresh("mode", 32), ex.fresh("fnmatch", 32), ex.freshb("predicate"))
              for n, v, ty in (("fts_info", now.info, I16), ("fts_accpath", Ptr(text, 0), PT), ("fts_path", Ptr(text, 0), PT), ("fts_statp", Ptr(stat, 0), PT)): ex.store(t, Ptr(ent, F(n)), v, ty, m)
              ex.store(t, Ptr(stat, field(u, "stat", "st_mode")), now.mode, I32, m); t.ghost["pos"] = k + 1
              if t is not w: other = t
            ex.store(e, Ptr(errno, 0), BV(0, 32), I32, m); c = ex.fresh("errno", 32); x.assume(c != 0); ex.store(x, Ptr(errno, 0), c, I32, m)
            return [(other, ("ret", Ptr(ent, 0))), (w, ("ret", Ptr(ent, 0))), (e, ("ret", NULL)), (x, ("ret", NULL))]
        def cur(st): return st.ghost["entry"]
        def fnmatch(ex, st, a, i):
            ex.oblige(st, "requires: the pattern and the path of the entry", TF(all(isinstance(x, Ptr) for x in a[:2]) and a[0].o is pat and a[1].o is text and eqc(a[2], 0))); return cur(st).fnm
        def isset(ex, st, a, i):
            if not (isinstance(a[0], Ptr) and a[0].o is fun): raise ir.Unsupported("another function")
            return HASF
        def notset(ex, st, a, i): return z3.Not(isset(ex, st, a, i))
        def ask(ex, st, a, i):
            ex.oblige(st, "requires: the predicate given is asked about the path of the entry", z3.And(HASF, TF(isinstance(a[0], Ptr) and a[0].o is fun and give_of(st, a[1]) == "entry"))); e = st.copy(); e.ghost["threw"] = True
            return [(st, ("ret", cur(st).pred)), (e, ("throw", Thrown("_ZTI15predicate_error")))]
        def file(ex, st, a, i):
            def val(p, ty): return ex.load(st, p, ty)
            p = val(a[1], PT) if give_of(st, a[1]) is None else None; ok = (isinstance(p, Ptr) and p.o is text) or give_of(st, a[1]) == "entry"
            ex.oblige(st, "ensures: a file of the path of the entry", TF(ok))
            if len(a) > 3: ex.oblige(st, "ensures: the file is opened as the options say", z3.And(bv(val(a[2], I8), 8) == MM, bv(val(a[3], I32), 32) == COMP))
            else: ex.oblige(st, "ensures: the file is opened as the options say", z3.And(MM == 1, COMP == 1))
            ex.store(st, a[0], Ptr(ent, 0), PT, u.mods[0]); st.ghost["made"] = st.ghost["pos"] - 1
        def append(ex, st, a, i):
            g = st.ghost; ex.oblige(st, "requires: the result", TF(isinstance(a[0], Ptr) and a[0].o is out)); k = g["made"]; ex.oblige(st, "ensures: files in the order of the traversal, none twice", z3.Or(z3.Not(g["any"]), z3.ULT(g["last"], k))); g["listed"] = z3.Or(g["listed"], k == J); g["last"], g["any"] = k, z3.BoolVal(True); return Ptr(Obj("element", 8, True), 0)
        def close(ex, st, a, i): ex.oblige(st, "requires: the open traversal is closed, once", TF(isinstance(a[0], Ptr) and a[0].o is fts and st.ghost["closed"] == 0)); st.ghost["closed"] = 1; return 0
        V = r".*vector<char const\*.*>::"; W = r".*vector<mlio::Intrusive_ptr<mlio::Data_store>.*>::"
        stubs = [R(r"fts_open(64)?$", open_), R(r"fts_read(64)?$", read), R(r"fts_close(64)?$", close), R(r"fnmatch$", fnmatch), R(r"__errno_location$", lambda ex, st, a, i: Ptr(errno, 0)),
                 R(V + r"(push_back|emplace_back)", push), R(V + r"data\(", lambda ex, st, a, i: Ptr(cs, 0)), R(V + r"(vector\(\)|~vector\(\)|reserve\()", nop), R(W + r"(vector\(\)|~vector\(\)|reserve\()", nop), R(W + r"(emplace_back|push_back)", append),
                 R(SBX + r"basic_string<std::basic_string_view", from_view), R(SBX + r"basic_string(<.*>)?\(char const\*", from_c), R(SBX + r"empty\(", empty), R(SBX + r"(c_str|data)\(", c_str), R(SBX + r"~basic_string", nop),
                 R(r"bool std::operator!=<bool, .*function", isset), R(r"bool std::operator==<bool, .*function", notset), R(r"std::function<bool .*>::operator bool\(", isset), R(r"std::function<bool .*>::operator\(\)", ask), R(r".*mlio::make_intrusive<mlio::File", file),
                 R(r"mlio::detail::current_error_code\(\)", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("errno", 32), Ptr(Obj("category", None, True), 0)]))]), R(r".*fmt::", nop), R(r"std::generic_category|std::_V2::generic_category|std::error_code::", lambda ex, st, a, i: Ptr(Obj("category", None, True), 0))] + REFS + [R(r"mlio::Intrusive_ptr<.*>::~?Intrusive_ptr\(", nop)]
        def all_before(g, k): return [("no error before", z3.Implies(z3.ULT(J, k), z3.And(z3.Not(bad(WATCH)), z3.Not(unsure(WATCH))))), ("listed before", g["listed"] == z3.And(z3.ULT(J, k), accepted(WATCH))), ("last", z3.Implies(g["any"], z3.ULT(g["last"], k)))]
        def cands(sn):
            g = sn.st.ghost; r = [("entries read", z3.ULE(g["pos"], END))] + all_before(g, g["pos"]); r += [("arguments", z3.ULE(g["args"], N)), ("arguments J", z3.Implies(z3.ULT(J, g["args"]), g["arg"] == J)), ("all arguments", z3.And(g["args"] == N + 1, g["final"] == NONE64))]
            ks = [(n, quot(simp(p.f), 32)) for n, p in sn.ptrs.items() if p.o is paths] + [(n, v) for n, (v, w) in sn.ints.items() if w == 64]
            for n, k in ks:
                if k is not None: r += [(f"one argument for every path before {n}", g["args"] == U(k)), (f"{n} in the paths", z3.ULE(U(k), N))]
            return r
        def post(ex, st, o):
            g = st.ghost; yield "ensures: the traversal is closed", TF(g["open"] == g["closed"])
            p = g["pos"]
            if o[0] == "throw":
                k = g.get("entry")
                if is_exc(o, "predicate_error"): ex.cover("predicate fails"); yield "ensures: only the predicate's own error", TF(g["threw"])
                elif is_exc(o, "invalid_argument"): ex.cover("bad pattern"); yield "ensures: refused only for a pattern that cannot be compared", TF(False) if k is None else unsure(k)
                else:
                    ex.cover("refused"); yield "ensures: an error of the operating system", TF(is_exc(o, "system_error")); yield "ensures: refused only for an entry that cannot be opened or a failing traversal", z3.Or(TF(g["threw"]), TF(False) if k is None else z3.And(p != 0, bad(k)), FAILS)
                return
            ex.cover("listed", z3.And(N != 0, g["any"])); ex.cover("nothing", N == 0)
            yield "ensures: every regular file that satisfies the pattern and the predicate, and no other", z3.Implies(z3.And(N != 0, z3.ULT(J, END)), g["listed"] == accepted(WATCH)); yield "ensures: nothing without paths", z3.Implies(N == 0, z3.Not(g["any"]))
            yield "ensures: an entry that cannot be opened is reported", z3.Implies(z3.And(N != 0, z3.ULT(J, END)), z3.Not(z3.Or(bad(WATCH), unsure(WATCH)))); yield "ensures: a failing traversal is reported", z3.Implies(N != 0, z3.Not(FAILS))
        return dict(name="list_files" + (" with a predicate" if given else ""), fn=fn, setup=setup, post=post, covers=(["predicate fails"] if given else []) + ["bad pattern", "refused", "listed", "nothing"], cands=[cands], stubs=stubs, opts=dict(watch=[J], scale={paths.id: 32}), budget=120)
    spec.__name__ = f"spec_list_{int(given)}"
    return spec
def spec_one(u):
    fn = r"mlio::list_files\(std::"; path, pat, out = Obj("path", 32, True), Obj("pattern text", None, True), outobj("result", 24); O = lambda n: field(u, "File_list_options", n)
    def setup(ex, st):
        for o in (path, pat, out): ex.objs[o.id] = o
        st.ghost["called"] = 0; return args_of(u, fn, {"agg.result": Ptr(out, 0), "path": Ptr(path, 0), "pattern.coerce0": PLEN, "pattern.coerce1": Ptr(pat, 0)})
    def call(ex, st, a, i):
        m = u.mods[0]; o = a[-1]; p = ex.load(st, Ptr(o.o, add(o.f, O("pattern") + 8)), PT); pr = ex.load(st, Ptr(o.o, add(o.f, O("predicate"))), PT)
        ex.oblige(st, "requires: exactly the path given", z3.And(TF(isinstance(a[0], Ptr) and a[0].o is out and isinstance(a[1], Ptr) and a[1].o is path and eqc(simp(a[1].f), 0)), U(a[2]) == 1))
        ex.oblige(st, "requires: the pattern given, no predicate", z3.And(TF(isinstance(p, Ptr) and p.o is pat and eqc(simp(p.f), 0) and isinstance(pr, Ptr) and pr.o is None), U(ex.load(st, Ptr(o.o, add(o.f, O("pattern"))), I64)) == PLEN))
        ex.oblige(st, "requires: the default options", z3.And(bv(ex.load(st, Ptr(o.o, add(o.f, O("memory_map"))), I8), 8) == 1, bv(ex.load(st, Ptr(o.o, add(o.f, O("compression"))), I32), 32) == 1)); st.ghost["called"] += 1
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no further error", False; return
        ex.cover("listed"); yield "ensures: the files are listed once", TF(st.ghost["called"] == 1)
    return dict(name="list_files (one path)", fn=fn, setup=setup, post=post, covers=["listed"], stubs=[R(r"mlio::list_files\(mlio::stdx", call)], budget=30)
def spec_natural(u):
    """the comparison of entries, and that the order of names is a total preorder comparing numbers by value: lemmas over the contracts of strnatcmp, compare_left and compare_right"""
    fn = r".*natural_sort\("; F = lambda n: field(u, "_ftsent", n); ents = [Obj("entry " + n, None, True) for n in "ab"]; refs = [Obj("reference " + n, 8, True) for n in "ab"]; R0 = z3.BitVec("order of the names", 32)
    def setup(ex, st):
        for e, r in zip(ents, refs): ex.objs[e.id] = e; ex.objs[r.id] = r; ex.store(st, Ptr(r, 0), Ptr(e, 0), PT, u.mods[0])
        return args_of(u, fn, {0: Ptr(refs[0], 0), 1: Ptr(refs[1], 0)})
    def cmp(ex, st, a, i):
        ok = all(isinstance(x, Ptr) and x.o in ents and eqc(simp(x.f), F("fts_name")) for x in a[:2]); ex.oblige(st, "requires: the names of both entries", TF(ok))
        if not ok: return ex.fresh("order", 32)
        return R0 if (a[0].o, a[1].o) == tuple(ents) else -R0 if (a[1].o, a[0].o) == tuple(ents) else BV(0, 32)
    def lemmas():
        c = {x: z3.BitVec("char " + x, 8) for x in "abc"}; l = {x: z3.BitVec("run " + x, 64) for x in "abc"}; d = {p: z3.BitVec("difference " + p, 64) for p in ("ab", "bc", "ac")}; txt = {x: z3.Array("run of " + x, B64, B8) for x in "abc"}; rest = {p: z3.BitVec("rest " + p, 32) for p in ("ab", "bc", "ac")}
        hyp = []
        for x in "abc": hyp += [z3.ULT(l[x], BV(1 << 31, 64)), DIGIT(c[x]) == (l[x] != 0), z3.Select(txt[x], 0) == c[x]] + [z3.Implies(z3.ULT(k, l[x]), DIGIT(z3.Select(txt[x], k))) for k in list(d.values())]
        for p in d:
            x, y = p; lo = z3.If(z3.ULT(l[x], l[y]), l[x], l[y]); hyp += [z3.ULE(d[p], lo), z3.Implies(z3.ULT(d[p], lo), z3.Select(txt[x], d[p]) != z3.Select(txt[y], d[p])), z3.Or(*[rest[p] == v for v in (Z0, M1, P1)])]
            hyp += [z3.Implies(z3.ULT(k, d[p]), z3.Select(txt[x], k) == z3.Select(txt[y], k)) for k in list(d.values()) + [BV(0, 64)]]
        def o(x, y, p, flip=False): return step(c[x], c[y], run_order(True, l[x], l[y], d[p], z3.Select(txt[x], d[p]), z3.Select(txt[y], d[p])), run_order(False, l[x], l[y], d[p], z3.Select(txt[x], d[p]), z3.Select(txt[y], d[p])), -rest[p] if flip else rest[p])
        H = z3.And(*hyp); ab, bc, ac = o("a", "b", "ab"), o("b", "c", "bc"), o("a", "c", "ac")
        yield "lemma: the order the other way round is the opposite", z3.Implies(H, o("b", "a", "ab", True) == -ab)
        ih = z3.And(z3.Implies(z3.And(rest["ab"] <= 0, rest["bc"] <= 0), rest["ac"] <= 0), z3.Implies(z3.And(rest["ab"] <= 0, rest["bc"] <= 0, rest["ac"] == 0), z3.And(rest["ab"] == 0, rest["bc"] == 0)))
        yield "lemma: the order is transitive", z3.Implies(z3.And(H, ih, ab <= 0, bc <= 0), ac <= 0); yield "lemma: the order is total", z3.Implies(H, z3.Or(ab == Z0, ab == M1, ab == P1))
        yield "lemma: equivalence is transitive in both directions", z3.Implies(z3.And(H, ih, ab <= 0, bc <= 0, ac == 0), z3.And(ab == 0, bc == 0))
        P, v, w, x, y = z3.Ints("power value other digit other_digit"); dg = z3.And(x >= 0, x <= 9, y >= 0, y <= 9)
        yield "lemma: n digits are less than the n-th power of ten", z3.Implies(z3.And(dg, v < P), 10 * v + x < 10 * P); yield "lemma: n digits without a leading zero are at least the power before", z3.Implies(z3.And(dg, v >= P), 10 * v + x >= 10 * P)
        yield "lemma: a smaller digit makes a smaller number, and further digits keep it smaller", z3.Implies(dg, z3.And(z3.Implies(v < w, 10 * v + x < 10 * w + y), z3.Implies(z3.And(v == w, x < y), 10 * v + x < 10 * w + y)))
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        ex.cover("compared"); yield "ensures: entries are ordered by their names", SGN(bv(out[1], 32)) == SGN(R0)
        for x in lemmas(): yield x
    return dict(name="natural_sort and the laws of the order", fn=fn, setup=setup, post=post, covers=["compared"], stubs=[R(r"^strnatcmp$", cmp)], budget=90)
def specs(u): return [spec_run(True), spec_run(False), spec_strnatcmp, spec_natural, spec_list(True), spec_list(False), spec_one]
HARNESS = dict(file="P25.cc", srcs=lambda: build.core(), secs=5)
NOTE = "the comparison of names is proved against a recursively defined order for texts of every length, the laws of that order (reversal, totality, transitivity, value of numbers) are one-step induction lemmas; list_files is proved over every traversal, number of paths, pattern and predicate outcome."
ASSUME = ["fts of the C library visits every entry below its paths once, siblings sorted by the given comparison, and reports errors by fts_info or errno", "fnmatch and the predicate are functions of the path", "the C locale's character classes", "names are shorter than 2^31 characters"]
