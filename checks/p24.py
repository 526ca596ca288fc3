import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p30 import SB, STR, PATH, text, give, kind, inner, made, J, U, L1, I32, validate as _validate

D = "src/mlio/data_stores/"
SRCS = [os.path.join(build.VERIF, "harness/ir/refs.cc"), "src/mlio/detail/s3_utils.cc", "src/mlio/detail/path.cc", D + "detail/util.cc", D + "compression.cc", D + "file.cc", D + "in_memory_store.cc", D + "sagemaker_pipe.cc",
        D + "s3_object.cc", "src/mlio/streams/s3_input_stream.cc"]
I1 = lambda x: z3.BoolVal(bool(x))
NONE, INFER, GZIP, BZIP2, ZIP = range(5)

# ---- texts: any bytes B[0..N)
B = z3.Array("text[]", z3.BitVecSort(64), z3.BitVecSort(8)); N = z3.BitVec("text.size", 64); K0 = z3.BitVec("first slash", 64)
LIM = BV(1 << 46, 64)
def at(k): return z3.Select(B, U(k))
def buf(): return Obj("text", N, True, mode="bytes")
def init(ex, st, o): ex.objs[o.id] = o; ex.omw(st, o).arr = B; st.assume(z3.ULT(N, LIM))
def byte(ex, st, p, k): return bv(ex.load(st, Ptr(p.o, simp(add(p.f, k))), I8, ex.unit.mods[0]), 8)
def memcmp(ex, st, a, i):
    n = a[2]
    if not is_c(n):
        k = [c for c in range(17) if ex.feasible(st, U(n) == c)]
        if ex.feasible(st, z3.UGT(U(n), 16)): raise Unsupported("memcmp of unknown length")
        r = []
        for c, s in zip(k, fork(st, *[U(n) == c for c in k])): r += memcmp(ex, s, [a[0], a[1], c], i)
        return r
    if n > 16: raise Unsupported("memcmp")
    r = ex.fresh("memcmp", 32); e = z3.BoolVal(True); lt = z3.BoolVal(False)
    for k in range(n):
        x, y = byte(ex, st, a[0], k), byte(ex, st, a[1], k)
        lt = z3.Or(lt, z3.And(e, z3.ULT(x, y))); e = z3.And(e, x == y)
    st.assume(e == (r == 0), lt == (r < 0))
    return [(st, ("ret", r))]
def memchr(ex, st, a, i):
    p, c, n = a[0], z3.Extract(7, 0, bv(a[1], 32)), U(a[2])
    ex.oblige(st, "safety: memchr inside the text", z3.And(z3.ULE(U(p.f), U(p.o.size)), z3.ULE(n, U(p.o.size) - U(p.f))))
    arr = ex.om(st, p.o).arr; nf, f = st.copy(), st; k = ex.fresh("found")
    no = lambda x, lim: z3.Implies(z3.And(z3.UGE(x, U(p.f)), z3.ULT(x - U(p.f), lim)), z3.Select(arr, x) != c)
    for x in (J, K0, U(p.f)): nf.assume(no(x, n)); f.assume(no(x, k))
    f.assume(z3.ULT(k, n), z3.Select(arr, U(p.f) + k) == c)
    return [(f, ("ret", Ptr(p.o, simp(add(p.f, k))))), (nf, ("ret", NULL))]
def strlen(ex, st, a, i):
    p = a[0]; g = getattr(p.o, "gname", None) if isinstance(p, Ptr) and p.o is not None else None
    if g is None or not is_c(p.f): return ex.fresh("strlen")
    for k in range(64):
        v = ex.load(st, Ptr(p.o, p.f + k), I8, ex.unit.mods[0])
        if not is_c(v): return ex.fresh("strlen")
        if v == 0: return k
    return ex.fresh("strlen")
TEXT = [R(r"^memcmp$", memcmp), R(r"^bcmp$", memcmp), R(r"^memchr$", memchr), R(r"^strlen$", strlen)]

def endswith(s): return z3.And(z3.UGE(N, BV(len(s), 64)), *[at(N - len(s) + k) == ord(c) for k, c in enumerate(s)])
INFERRED = z3.If(z3.And(z3.UGT(N, 3), endswith(".gz")), BV(GZIP, 32), z3.If(z3.And(z3.UGT(N, 4), endswith(".bz2")), BV(BZIP2, 32), z3.If(z3.And(z3.UGT(N, 4), endswith(".zip")), BV(ZIP, 32), BV(NONE, 32))))
def spec_infer(u):
    o = buf()
    def setup(ex, st): init(ex, st, o); return args_of(u, r"mlio::detail::infer_compression\(", {0: N, 1: Ptr(o, 0)})
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        v = bv(out[1], 32)
        for k, n in enumerate(("none", "infer", "gzip", "bzip2", "zip")):
            if k != INFER: ex.cover(n, v == k)
        yield "ensures: the compression named by the extension", v == INFERRED
    return dict(name="infer_compression", fn=r"mlio::detail::infer_compression\(", setup=setup, post=post, covers=["none", "gzip", "bzip2", "zip"], stubs=TEXT, opts=dict(watch=[J]))
def spec_path(u):
    o = buf()
    def setup(ex, st): init(ex, st, o); return args_of(u, r"mlio::detail::validate_file_path\(", {0: N, 1: Ptr(o, 0)})
    bad = z3.Or(N == 0, at(N - 1) == ord("/"), at(N - 1) == ord("\\"))
    def post(ex, st, out):
        ex.cover("refused" if out[0] == "throw" else "accepted")
        if out[0] == "throw": yield "ensures: only an empty path or a directory is refused, as an invalid argument", z3.And(bad, I1(is_exc(out, "invalid_argument")))
        else: yield "ensures: an empty path or a directory is refused", z3.Not(bad)
    return dict(name="validate_file_path", fn=r"mlio::detail::validate_file_path\(", setup=setup, post=post, covers=["refused", "accepted"], stubs=TEXT, opts=dict(watch=[J]))

# an S3 location: "s3://", a bucket without slash, and then nothing, or a slash and the prefix
S3OK = z3.And(z3.UGE(N, 6), *[at(k) == ord(c) for k, c in enumerate("s3://")], at(5) != ord("/"))
def spec_split(u, what):
    fn = rf"mlio::detail::split_s3_uri_to_bucket_and_{what}\("; o = buf(); out = outobj("result", 32)
    def setup(ex, st): init(ex, st, o); return args_of(u, fn, {0: Ptr(out, 0), 1: N, 2: Ptr(o, 0)})
    def post(ex, st, r):
        if r[0] == "throw":
            ex.cover("refused"); yield "ensures: refused as an invalid argument", I1(is_exc(r, "invalid_argument"))
            # the first slash behind the scheme at K0, or no slash there at all
            nokey = z3.Or(z3.And(z3.UGE(K0, 5), z3.ULT(K0, N), at(K0) == ord("/"), z3.Implies(z3.And(z3.UGE(J, 5), z3.ULT(J, K0)), at(J) != ord("/")), K0 + 1 != N), ) if what == "key" else z3.BoolVal(True)
            yield f"ensures: only what is not an S3 location with a bucket{' and a key' if what == 'key' else ''} is refused", z3.Not(z3.And(S3OK, nokey)); return
        n1, p1, n2, p2 = (cell(ex, st, out, k, t) for k, t in ((0, I64), (8, PT), (16, I64), (24, PT)))
        yield "ensures: only S3 locations are accepted", S3OK
        if not (isinstance(p1, Ptr) and p1.o is o): yield "ensures: the bucket is part of the location", False; return
        b = U(n1); yield "ensures: the bucket follows the scheme, is not empty and lies in the location", z3.And(U(p1.f) == 5, b != 0, z3.ULE(b, N - 5))
        yield "ensures: the bucket ends at the first slash or the end", z3.And(z3.Implies(z3.And(z3.UGE(J, 5), z3.ULT(J - 5, b)), at(J) != ord("/")), z3.Implies(b != N - 5, at(5 + b) == ord("/")))
        e = U(n2) == 0; ex.cover("key", z3.Not(e))
        if what == "prefix": ex.cover("no key", e)
        else: yield "ensures: the key is not empty", z3.Not(e)
        whole = z3.And(I1(isinstance(p2, Ptr) and p2.o is o), U(p2.f) == 6 + b, U(n2) == N - 6 - b) if isinstance(p2, Ptr) and p2.o is not None else z3.BoolVal(False)
        yield "ensures: the rest behind the slash, whole", z3.If(b == N - 5, e, z3.Or(whole, z3.And(e, N == 6 + b)))
    return dict(name="split_s3_uri_to_bucket_and_" + what, fn=fn, setup=setup, post=post, covers=["refused", "key"] + ["no key"] * (what == "prefix"), stubs=TEXT, opts=dict(watch=[J, K0]))
def spec_prefix(u): return spec_split(u, "prefix")
def spec_key(u): return spec_split(u, "key")
def spec_uri(u):
    o = buf(); fn = r"mlio::detail::validate_s3_object_uri\("
    def split(ex, st, a, i):
        """contract of split_s3_uri_to_bucket_and_key (above)"""
        ex.oblige(st, "requires: the location given", z3.And(U(a[1]) == N, I1(a[2].o is o), U(a[2].f) == 0) if isinstance(a[2], Ptr) else z3.BoolVal(False)); st.ghost["split"] = True; e = st.copy(); e.ghost["bad"] = True
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def setup(ex, st): init(ex, st, o); return args_of(u, fn, {0: N, 1: Ptr(o, 0)})
    def post(ex, st, out):
        yield "ensures: refused exactly when the location has no bucket or key", z3.BoolVal(bool(st.ghost.get("split")) and bool(st.ghost.get("bad")) == (out[0] == "throw"))
    return dict(name="validate_s3_object_uri", fn=fn, setup=setup, post=post, stubs=[R(r"mlio::detail::split_s3_uri_to_bucket_and_key\(", split)] + TEXT)

# ---- the stores
GIVEN, GUESS, MM, TO, FID, HAS = z3.BitVec("compression", 32), z3.BitVec("inferred", 32), z3.BitVec("memory_map", 8), z3.BitVec("timeout", 64), z3.BitVec("fifo id", 64), z3.BitVec("fifo id given", 8)
def guess(ex, st, a, i):
    """contract of infer_compression (above)"""
    ex.oblige(st, "requires: the extension of this store's own name", I1(text(ex, st, a[1]) == PATH)); st.assume(z3.Or(*[GUESS == k for k in (NONE, GZIP, BZIP2, ZIP)])); return GUESS
def vuri(ex, st, a, i):
    """contract of validate_s3_object_uri (above)"""
    return _validate(ex, st, a, i)
VERSION = "version"
def empty(ex, st, a, i): return z3.BitVec(f"empty {text(ex, st, a[0])}", 1)
LOG = [R(r"void mlio::logger::", nop), R(r"^strlen$", strlen), R(r"mlio::logger::is_enabled_for", lambda ex, st, a, i: ex.fresh("log", 1)), R(r"mlio::Data_store::(~)?Data_store", nop), R(r"std::basic_string<char.*::empty\(\)", empty)]
STORE = [R(r"mlio::detail::infer_compression\(", guess), R(r"mlio::detail::validate_file_path\(", _validate), R(r"mlio::detail::validate_s3_object_uri\(", vuri)] + LOG + STR + REFS
# ---- identifiers: texts put together
WITH = (PATH, "@", VERSION); NOV = z3.BitVec("no version", 1) == 1
def plus(ex, st, a, i):
    """operator+ appends"""
    x = text(ex, st, a[1]); y = text(ex, st, a[2])
    if y is None and isinstance(a[2], Ptr) and getattr(a[2].o, "gname", None): y = "".join(chr(ex.load(st, Ptr(a[2].o, k), I8, ex.unit.mods[0])) for k in range(1))
    give(st, a[0], (x if isinstance(x, tuple) else (x,)) + (y if isinstance(y, tuple) else (y,)))
def asg(ex, st, a, i): give(st, a[0], text(ex, st, a[1])); return a[0]
def empt(ex, st, a, i):
    t = text(ex, st, a[0]); return z3.BitVecVal(1, 1) if t == "" else z3.BitVecVal(0, 1) if t in (PATH, WITH) else z3.BitVec("no version", 1) if t == VERSION else ex.fresh("empty", 1)
ALG = [R(r"(std::basic_string<char.*> )?std::operator\+<char", plus), R(SB + r"operator=\(", asg), R(SB + r"empty\(\)", empt), R(SB + r"append\(", lambda ex, st, a, i: (plus(ex, st, [a[0], a[0], a[1]], i), a[0])[1]), R(SB + r"operator\+=\(", lambda ex, st, a, i: (plus(ex, st, [a[0], a[0], a[1]], i), a[0])[1]),
       R(SB + r"basic_string\(\)", lambda ex, st, a, i: give(st, a[0], ""))]
IDENT = "identifier"     # the one the constructor makes: the location, followed by the version if there is one
def ident(t): return I1(True) if t == IDENT else z3.If(NOV, I1(t == PATH), I1(t == WITH))
def store(cls, named, infers, fields, path="path_", slot=False):
    """a constructor: cls(named...)"""
    def spec(u):
        f = lambda n: field(u, cls, n); this = Obj("this", f("__size__"), True); p = Obj("name", 32, True); v = Obj("version argument", 32, True); m = u.mods[0]
        blk = Obj("block", None, True); data = Obj("data", None, True, mode="bytes"); sl = Obj("chunk argument", 24, True); ptr = Obj("pointer argument", 8, True); cl = Obj("client", None, True)
        def setup(ex, st):
            for x in (p, v, sl, ptr): ex.objs[x.id] = x
            give(st, Ptr(p, 0), PATH); give(st, Ptr(v, 0), VERSION); st.assume(z3.ULE(GIVEN, BV(4, 32)), z3.ULE(MM, BV(1, 8)), z3.ULE(HAS, BV(1, 8)))
            if cls == "In_memory_store": Slice(u).set(ex, st, sl, 0, data, BV(3, 64), BV(17, 64), blk)
            if cls == "S3_object": ex.store(st, Ptr(ptr, 0), Ptr(cl, 0), PT, m)
            env = dict(path=Ptr(p, 0), uri=Ptr(p, 0), version_id=Ptr(v, 0), memory_map=bv(MM, 1) if False else z3.Extract(0, 0, MM), compression=GIVEN, timeout=TO, fifo_id=FID, has=HAS, chunk=Ptr(sl, 0), client=Ptr(ptr, 0))
            return [Ptr(this, 0)] + [env[n] for n in named]
        def post(ex, st, o):
            bad = bool(st.ghost.get("badpath"))
            refuse = z3.BoolVal(False) if infers else GIVEN == INFER
            if o[0] == "throw":
                ex.cover("refused")
                yield "ensures: only an invalid name, or a compression that cannot be inferred, is refused", z3.BoolVal(is_exc(o, "invalid_argument")) if bad else z3.And(refuse, z3.BoolVal(is_exc(o, "Not_supported_error"))); return
            ex.cover("accepted"); yield "ensures: a compression that cannot be inferred is refused", z3.Not(refuse)
            if path: yield "ensures: the name was checked and is kept", z3.BoolVal(bool(st.ghost.get("checked")) and not bad and text(ex, st, Ptr(this, f(path))) == PATH)
            c = bv(cell(ex, st, this, f("compression_"), I32), 32)
            yield "ensures: an explicit compression is kept, an inferred one is the extension's", c == (z3.If(GIVEN == INFER, GUESS, GIVEN) if infers else GIVEN)
            if infers: ex.cover("inferred", GIVEN == INFER); ex.cover("explicit", GIVEN == BZIP2)
            if cls == "File": yield "ensures: mapped exactly when asked", bv(cell(ex, st, this, f("memory_map_"), I8), 8) & 1 == MM
            if cls == "Sagemaker_pipe": yield "ensures: timeout and FIFO number are kept", z3.And(U(cell(ex, st, this, f("timeout_"), I64)) == TO, bv(cell(ex, st, this, f("fifo_id_") + 8, I8), 8) == HAS, z3.Or(HAS == 0, U(cell(ex, st, this, f("fifo_id_"), I64)) == FID))
            if cls == "S3_object": q = cell(ex, st, this, f("client_"), PT); yield "ensures: the client and the version are kept", I1(isinstance(q, Ptr) and q.o is cl and text(ex, st, Ptr(this, f("version_id_"))) == VERSION); yield "ensures: the identifier is the location, followed by the version if there is one", ident(text(ex, st, Ptr(this, f("id_")))); ex.cover("version", z3.Not(NOV)); ex.cover("no version", NOV)
            if cls == "In_memory_store":
                S = Slice(u); w = S.within(ex, st, this, f("chunk_"), data); q = S.get(ex, st, this, f("chunk_"))[2]
                yield "ensures: the bytes given are kept", z3.And(w[0] == 3, w[1] == 17, I1(isinstance(q, Ptr) and q.o is blk)) if w else z3.BoolVal(False)
        return dict(name=f"{cls}::{cls}", fn=rf"mlio::{cls}::{cls}\((?!mlio::{cls})", setup=setup, post=post, covers=["accepted"] + ["refused"] + (["inferred", "explicit"] if infers else []) + (["version", "no version"] if cls == "S3_object" else []), stubs=(ALG if cls == "S3_object" else []) + [R(r".*fmt::(v\d+::)?(format|to_string)|_ZN3fmt", nop)] * (cls != "S3_object") + STORE)
    spec.__name__ = "spec_" + cls
    return spec

def spec_make(u):
    fn = r"mlio::make_inflate_stream\("; out, arg = outobj("result", 8), Obj("stream argument", 8, True); S = Obj("stream", None, True); C = z3.BitVec("compression", 32)
    def gz(ex, st, a, i):
        o = ex.new_obj(st, "inflate", None, lazy=True); st.ghost[("is", o.id)] = ("inflate", kind(ex, st, a[1])); ex.store(st, a[1], NULL, PT, u.mods[0]); ex.store(st, a[0], Ptr(o, 0), PT, u.mods[0])
        e = st.copy(); e.ghost["err"] = True
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTI5other")))]
    def setup(ex, st):
        ex.objs[arg.id] = arg; ex.store(st, Ptr(arg, 0), Ptr(S, 0), PT, u.mods[0]); st.ghost[("is", S.id)] = ("stream",); return args_of(u, fn, {0: Ptr(out, 0), 1: Ptr(arg, 0), 2: C})
    def post(ex, st, o):
        if o[0] == "throw":
            if st.ghost.get("err"): ex.cover("failure"); yield "ensures: only for gzip", C == GZIP; return
            ns = is_exc(o, "Not_supported_error"); ex.cover("unsupported" if ns else "invalid")
            yield "ensures: bzip2 and zip are not supported, unknown values invalid", z3.If(z3.ULE(C, BV(ZIP, 32)), z3.And(z3.Or(C == BZIP2, C == ZIP), I1(ns)), I1(is_exc(o, "invalid_argument"))); return
        yield "ensures: a failure is reported", I1(not st.ghost.get("err"))
        k = kind(ex, st, Ptr(out, 0)); ex.cover(str(k and k[0]))
        yield "ensures: inflated exactly for gzip, else the stream itself", z3.If(C == GZIP, I1(k == ("inflate", ("stream",))), z3.And(z3.Or(C == NONE, C == INFER), I1(k == ("stream",))))
    return dict(name="make_inflate_stream", fn=fn, setup=setup, post=post, covers=["failure", "unsupported", "invalid", "stream", "inflate"], stubs=[R(r"mlio::Intrusive_ptr<mlio::Gzip_inflate_stream> mlio::make_intrusive<", gz)] + LOG + REFS)

def inflate(ex, st, a, i):
    """contract of make_inflate_stream (above)"""
    k = kind(ex, st, a[1]); ex.store(st, a[1], NULL, PT, ex.unit.mods[0]); o = ex.new_obj(st, "inflate", None, lazy=True); st.ghost[("is", o.id)] = ("inflate", k); st.ghost["by"] = bv(a[2], 32); ex.store(st, a[0], Ptr(o, 0), PT, ex.unit.mods[0])
    e = st.copy(); e.ghost["oserr"] = 1
    return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTI5other")))]
def fresh_stream(st, ex, a0, k):
    o = ex.new_obj(st, "stream", None, lazy=True); st.ghost[("is", o.id)] = k; ex.store(st, a0, Ptr(o, 0), PT, ex.unit.mods[0]); e = st.copy(); e.ghost["oserr"] = 1
    return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTI5other")))]
def opener(cls):
    """open_read: a stream over the named store, inflated exactly when the store is compressed"""
    def spec(u):
        f = lambda n: field(u, cls, n); this = Obj("this", f("__size__"), True); out = outobj("result", 8); fn = rf"mlio::{cls}::open_read\(\)"; m = u.mods[0]
        cl, blk, data = Obj("client", None, True), Obj("block", None, True), Obj("data", None, True, mode="bytes")
        def mem(ex, st, a, i):
            S = Slice(u); b, e, k = S.get(ex, st, a[1].o, a[1].f); ok = isinstance(b, Ptr) and b.o is data and isinstance(k, Ptr) and k.o is blk and eqc(simp(b.f), 3) and eqc(simp(e.f), 17)
            return fresh_stream(st, ex, a[0], "right" if ok else "wrong")
        def pipe(ex, st, a, i):
            vals = a[2:]; ok = text(ex, st, a[1]) == PATH
            st.ghost["pipe"] = [x for x in vals]; return fresh_stream(st, ex, a[0], "right" if ok else "wrong")
        def s3(ex, st, a, i):
            c = ex.load(st, a[1], PT, m); ok = isinstance(c, Ptr) and c.o is cl and text(ex, st, a[2]) == PATH and text(ex, st, a[3]) == VERSION
            return fresh_stream(st, ex, a[0], "right" if ok else "wrong")
        MAKERS = [R(r"mlio::Intrusive_ptr<mlio::Memory_input_stream> mlio::make_intrusive<", mem), R(r"mlio::make_sagemaker_pipe_input_stream\(", pipe), R(r"mlio::make_s3_input_stream\(", s3), R(r"mlio::make_inflate_stream\(", inflate), R(rf"mlio::{cls}::(id|repr)", nop)]
        def setup(ex, st):
            ex.store(st, Ptr(this, f("compression_")), GIVEN, I32, m); st.assume(z3.ULE(GIVEN, BV(4, 32)), GIVEN != INFER, z3.ULE(HAS, BV(1, 8)))
            if cls == "In_memory_store": Slice(u).set(ex, st, this, f("chunk_"), data, BV(3, 64), BV(17, 64), blk)
            else: give(st, Ptr(this, f("uri_" if cls == "S3_object" else "path_")), PATH)
            if cls == "S3_object": ex.store(st, Ptr(this, f("client_")), Ptr(cl, 0), PT, m); give(st, Ptr(this, f("version_id_")), VERSION)
            if cls == "Sagemaker_pipe": ex.store(st, Ptr(this, f("timeout_")), TO, I64, m); ex.store(st, Ptr(this, f("fifo_id_")), FID, I64, m); ex.store(st, Ptr(this, f("fifo_id_") + 8), HAS, I8, m)
            return args_of(u, fn, {0: Ptr(out, 0), 1: Ptr(this, 0)})
        def post(ex, st, o):
            if o[0] == "throw": ex.cover("failure"); yield "ensures: only opening fails", I1(st.ghost.get("oserr")); return
            yield "ensures: a failure is reported", I1(not st.ghost.get("oserr"))
            k = kind(ex, st, Ptr(out, 0)); z = isinstance(k, tuple) and k[0] == "inflate"; ex.cover("inflated" if z else "plain")
            yield "ensures: decompressed exactly when the store is compressed, as it was compressed", z3.And(GIVEN != NONE, st.ghost["by"] == GIVEN) if z else GIVEN == NONE
            yield "ensures: a stream over the named store", I1((k[1] if z else k) == "right")
            if cls == "Sagemaker_pipe":
                v = st.ghost["pipe"]; yield "ensures: with the store's timeout", U(v[0]) == TO
                if len(v) == 3: yield "ensures: the first stream has the FIFO number given", z3.And(bv(v[2], 8) == HAS, z3.Or(HAS == 0, U(v[1]) == FID))
                yield "ensures: later streams go on with the channel's next FIFO", bv(cell(ex, st, this, f("fifo_id_") + 8, I8), 8) == 0
        return dict(name=cls + "::open_read", fn=fn, setup=setup, post=post, covers=["failure", "inflated", "plain"], stubs=MAKERS + LOG + STR + REFS)
    spec.__name__ = "spec_open_" + cls
    return spec
def spec_id(u):
    f = lambda n: field(u, "S3_object", n); this = Obj("this", f("__size__"), True); fn = r"mlio::S3_object::id\[abi:cxx11\]\(\)"
    def setup(ex, st):
        give(st, Ptr(this, f("uri_")), PATH); give(st, Ptr(this, f("version_id_")), VERSION); give(st, Ptr(this, f("id_")), IDENT); return [Ptr(this, 0)]
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        t = text(ex, st, o[1]) if isinstance(o[1], Ptr) else None; ex.cover("identifier")
        yield "ensures: the location, followed by the version if there is one", ident(t)
        yield "assigns: the remembered identifier stays", ident(text(ex, st, Ptr(this, f("id_"))))
    return dict(name="S3_object::id", fn=fn, setup=setup, post=post, covers=["identifier"], stubs=ALG + STR + REFS)

# ---- the stream over an S3 object, by the contract of the client: read_object(bucket, key, version, offset, destination)
# delivers bytes of the object from offset on, at most those asked for and at least one when there are any
F = z3.Array("object[]", z3.BitVecSort(64), z3.BitVecSort(8)); LEN = z3.BitVec("object.size", 64); POS = z3.BitVec("position", 64); CLOSED = z3.BitVec("closed", 8); CL = Obj("client", None, True)
BUCKET, KEY = "bucket", "key"
def ready(ex, st, a, i):
    """views come in two registers or, when these are used up, in memory"""
    v, k = [], 1
    while k < len(a):
        if isinstance(a[k], Ptr): v.append(tuple(ex.load(st, Ptr(a[k].o, add(a[k].f, o)), t, ex.unit.mods[0]) for o, t in (((0, I64), (8, PT)) if len(v) < 3 else ((0, PT), (8, I64))))); k += 1
        elif k + 1 < len(a) and isinstance(a[k + 1], Ptr) and len(v) < 3: v.append((a[k], a[k + 1])); k += 2
        else: v.append(a[k]); k += 1
    ex.oblige(st, "requires: the named object, in the named version", I1(a[0].o is CL and [text(ex, st, x[1]) for x in v[:3]] == [BUCKET, KEY, VERSION])); return v[3:]
def read_object(ex, st, a, i):
    off, (p, n) = ready(ex, st, a, i)[:2]; off, n = U(off), U(n)
    ex.oblige(st, "requires: the buffer handed to the client lies in the caller's", z3.And(z3.ULE(U(p.f), U(p.o.size)), z3.ULE(n, U(p.o.size) - U(p.f))) if p.o is not None else z3.BoolVal(False))
    ex.oblige(st, "requires: a range inside the object", z3.And(n != 0, z3.ULT(off, LEN), z3.ULE(n, LEN - off)))
    e = st.copy(); e.ghost["oserr"] = 1; k = ex.fresh("bytes"); st.assume(z3.ULE(k, n), k != 0)
    m = ex.omw(st, p.o); old = m.arr; m.arr = ex.fresharr("read"); st.assume(z3.Select(m.arr, J) == z3.If(z3.And(z3.ULE(U(p.f), J), z3.ULT(J - U(p.f), k)), z3.Select(F, off + J - U(p.f)), z3.Select(old, J)))
    return [(st, ("ret", k)), (e, ("throw", Thrown("_ZTI5other")))]
def read_size(ex, st, a, i):
    ready(ex, st, a, i); e = st.copy(); e.ghost["oserr"] = 1; return [(st, ("ret", LEN)), (e, ("throw", Thrown("_ZTI5other")))]
CLIENT = [R(r"mlio::S3_client::read_object\(", read_object), R(r"mlio::S3_client::read_object_size\(", read_size)]
SYS = [R(r"std::make_error_co", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("code", 32), Ptr(Obj("category", None, True), 0)]))]), R(r"std::error_code::|std::(_V2::)?generic_category", nop), R(r"mlio::(Input_stream|Input_stream_base)::(~)?(Input_stream|Input_stream_base)\(", nop)]
class SS:
    def __init__(s, u): s.u = u; s.f = lambda n: field(u, "S3_input_stream", n); s.this = Obj("this", s.f("__size__"), True)
    def init(s, ex, st):
        m = s.u.mods[0]; f = s.f
        for n, t in (("bucket_", BUCKET), ("key_", KEY), ("version_id_", VERSION)): give(st, Ptr(s.this, f(n)), t)
        ex.store(st, Ptr(s.this, f("client_")), Ptr(CL, 0), PT, m); ex.store(st, Ptr(s.this, f("size_")), LEN, I64, m); ex.store(st, Ptr(s.this, f("position_")), POS, I64, m); ex.store(st, Ptr(s.this, f("closed_")), CLOSED, I8, m)
        st.assume(z3.ULE(CLOSED, BV(1, 8)), z3.ULE(POS, LEN), z3.ULT(LEN, LIM)); return Ptr(s.this, 0)
    def at(s, ex, st): return U(cell(ex, st, s.this, s.f("position_"), I64))
    def size(s, ex, st): return U(cell(ex, st, s.this, s.f("size_"), I64))
    def shut(s, ex, st): return bv(cell(ex, st, s.this, s.f("closed_"), I8), 8) & 1
    def same(s, ex, st): return z3.And(s.size(ex, st) == LEN, s.shut(ex, st) == CLOSED, I1([text(ex, st, Ptr(s.this, s.f(n))) for n in ("bucket_", "key_", "version_id_")] == [BUCKET, KEY, VERSION]))
SC = r"mlio::S3_input_stream::"
def spec_sread(u):
    S = SS(u); Q = z3.BitVec("requested", 64); D0 = z3.Array("destination0", z3.BitVecSort(64), z3.BitVecSort(8)); Dn = Obj("destination", Q, True, mode="bytes")
    def setup(ex, st):
        t = S.init(ex, st); st.assume(z3.ULT(Q, LIM)); ex.objs[Dn.id] = Dn; ex.omw(st, Dn).arr = D0
        f = u.one(SC + r"read\("); return [t, Q, Ptr(Dn, 0)] if f.params[1][1].__class__ is ir.IntTy else [t, Ptr(Dn, 0), Q]
    def post(ex, st, o):
        yield "frame: the stream keeps its object", S.same(ex, st)
        if o[0] == "throw":
            ex.cover("failure"); yield "ensures: only a closed stream or a failing client is an error", z3.And(CLOSED == 0, I1(st.ghost.get("oserr"))) if not is_exc(o, "Stream_error") else CLOSED == 1
            yield "ensures: an error does not move the position", S.at(ex, st) == POS; return
        v = U(o[1]); ex.cover("bytes", v != 0); ex.cover("end", z3.And(Q != 0, v == 0)); yield "ensures: a closed stream refuses the operation, a failure is reported", z3.And(CLOSED == 0, I1(not st.ghost.get("oserr")))
        yield "ensures: at most the requested bytes, the position moves by them", z3.And(z3.ULE(v, Q), S.at(ex, st) == POS + v, z3.ULE(S.at(ex, st), LEN))
        yield "ensures: the bytes delivered are the next of the object, no other is written", z3.Select(ex.om(st, Dn).arr, J) == z3.If(z3.ULT(J, v), z3.Select(F, POS + J), z3.Select(D0, J))
        yield "ensures: nothing only at the end", z3.Implies(z3.And(Q != 0, v == 0), POS == LEN)
    return dict(name="S3_input_stream::read", fn=SC + r"read\(", setup=setup, post=post, covers=["failure", "bytes", "end"], stubs=CLIENT + SYS + LOG + STR + REFS, opts=dict(watch=[J]))
def spec_sseek(u):
    S = SS(u); T = z3.BitVec("target", 64)
    def setup(ex, st): return [S.init(ex, st), T]
    def post(ex, st, o):
        yield "frame: the stream keeps its object", S.same(ex, st)
        if o[0] == "throw":
            ex.cover("refused"); yield "ensures: only a closed stream or a position behind the end is refused", CLOSED == 1 if is_exc(o, "Stream_error") else z3.And(CLOSED == 0, z3.UGT(T, LEN))
            yield "ensures: an error does not move the position", S.at(ex, st) == POS; return
        ex.cover("moved"); yield "ensures: a closed stream and a position behind the end are refused", z3.And(CLOSED == 0, z3.ULE(T, LEN)); yield "ensures: the given position", S.at(ex, st) == T
    return dict(name="S3_input_stream::seek", fn=SC + r"seek\(", setup=setup, post=post, covers=["refused", "moved"], stubs=CLIENT + SYS + LOG + STR + REFS)
def sview(what):
    def spec(u):
        S = SS(u)
        def setup(ex, st): return [S.init(ex, st)]
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            if what == "close": yield "ensures: the stream is closed, nothing else changes", z3.And(S.shut(ex, st) == 1, S.size(ex, st) == LEN, S.at(ex, st) == POS); return
            yield f"ensures: {what} is truthful", {"size": lambda: U(o[1]) == LEN, "position": lambda: U(o[1]) == POS, "closed": lambda: bo(asbool(o[1])) == (CLOSED == 1), "seekable": lambda: bo(asbool(o[1]))}[what]()
            yield "frame: nothing changes", z3.And(S.same(ex, st), S.at(ex, st) == POS)
        return dict(name="S3_input_stream::" + what, fn=SC + what + r"\(\)", setup=setup, post=post, stubs=STR + REFS)
    spec.__name__ = "spec_s3_" + what
    return spec
def spec_smake(u):
    fn = r"mlio::make_s3_input_stream\("; out = outobj("result", 8); p, v, c = Obj("uri argument", 32, True), Obj("version argument", 32, True), Obj("client argument", 8, True); b, k = Obj("bucket text", None, True, mode="bytes"), Obj("key text", None, True, mode="bytes"); f = lambda n: field(u, "S3_input_stream", n)
    def split(ex, st, a, i):
        """contract of split_s3_uri_to_bucket_and_key (above)"""
        ex.oblige(st, "requires: the location given", I1(text(ex, st, a[2]) == PATH)); m = u.mods[0]; nb, nk = ex.fresh("n"), ex.fresh("n"); give(st, Ptr(b, 0), BUCKET); give(st, Ptr(k, 0), KEY)
        for off, val, t in ((0, nb, I64), (8, Ptr(b, 0), PT), (16, nk, I64), (24, Ptr(k, 0), PT)): ex.store(st, Ptr(a[0].o, add(a[0].f, off)), val, t, m)
        e = st.copy(); e.ghost["bad"] = True
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def whole(ex, st, a, i):
        """std::string of a view: the whole text"""
        q = ex.load(st, Ptr(a[1].o, add(a[1].f, 8)), PT, u.mods[0]); give(st, a[0], text(ex, st, q))
    def setup(ex, st):
        for x in (p, v, c, b, k): ex.objs[x.id] = x
        give(st, Ptr(p, 0), PATH); give(st, Ptr(v, 0), VERSION); ex.store(st, Ptr(c, 0), Ptr(CL, 0), PT, u.mods[0]); st.assume(z3.ULT(LEN, LIM)); return args_of(u, fn, {0: Ptr(out, 0), 1: Ptr(c, 0), 2: Ptr(p, 0), 3: Ptr(v, 0)})
    def post(ex, st, o):
        if o[0] == "throw": ex.cover("failure"); yield "ensures: only an invalid location or a failing client is an error", I1(st.ghost.get("bad") or st.ghost.get("oserr")); return
        ex.cover("made"); s = cell(ex, st, out, 0, PT); yield "ensures: failures are reported", I1(not st.ghost.get("bad") and not st.ghost.get("oserr"))
        if not isinstance(s, Ptr) or s.o is None: yield "ensures: a stream", False; return
        g = lambda n, t: cell(ex, st, s.o, s.f + f(n), t); q = g("client_", PT)
        yield "ensures: a stream over the bucket, key and version named", I1([text(ex, st, Ptr(s.o, s.f + f(n))) for n in ("bucket_", "key_", "version_id_")] == [BUCKET, KEY, VERSION] and isinstance(q, Ptr) and q.o is CL)
        yield "ensures: open, at the start, with the size of the object", z3.And(U(g("size_", I64)) == LEN, U(g("position_", I64)) == 0, bv(g("closed_", I8), 8) == 0)
    return dict(name="make_s3_input_stream", fn=fn, setup=setup, post=post, covers=["failure", "made"], stubs=[R(r"mlio::detail::split_s3_uri_to_bucket_and_key\(", split), R(r"std::basic_string<char.*::basic_string<std::basic_string_view", whole)] + CLIENT + SYS + LOG + STR + REFS)

def specs(u):
    return [spec_infer, spec_path, spec_prefix, spec_key, spec_uri, store("File", ["path", "memory_map", "compression"], True, 0), store("S3_object", ["client", "uri", "version_id", "compression"], True, 0, "uri_"),
            store("In_memory_store", ["chunk", "compression"], False, 0, None), store("Sagemaker_pipe", ["path", "timeout", "fifo_id", "has", "compression"], False, 0), spec_make, opener("In_memory_store"), opener("Sagemaker_pipe"), opener("S3_object"), spec_id,
            spec_sread, spec_sseek] + [sview(w) for w in ("close", "size", "position", "closed", "seekable")] + [spec_smake]
def srcs(): return build.core() + [s for s in build.all_srcs() if s.endswith(("s3_object.cc", "s3_input_stream.cc"))]
HARNESS = dict(file="P24.cc", srcs=srcs, secs=6)
NOTE = "compression inference, path checks, S3 location splitting, the data stores and the S3 stream are proved for every text, setting and client answer; File::open_read is proved in P30."
ASSUME = ["memcmp, memchr, strlen and std::string by their library contracts; strings are followed by what they hold", "the S3 client (s3_client.cc, which needs the absent AWS SDK) by the contract 'delivers bytes of the named object from the offset on'"]
