import re
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from checks.p19 import setvec, vec_of, words

SRCS = ["src/mlio/image_reader.cc"]
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
fixed = lambda e: U(simp(e))
B64 = z3.BitVecSort(64)
ERR, WARN = z3.BitVec("error on bad examples", 8), z3.BitVec("warn of bad instances", 8)
CH, H, W = (z3.BitVec(n, 32) for n in ("channels", "height", "width"))       # of the output
N, FRAME, RGB, RES, RV = z3.BitVec("size of the instance", 64), z3.BitVec("frame", 32), z3.BitVec("to_rgb", 8), z3.BitVec("resize is set", 8), z3.BitVec("resize", 64)
ROWS, COLS, TYPE = (z3.BitVec(n, 32) for n in ("rows", "columns", "type"))   # of an image
GRAY, COLOR, ANY = 0, 1, 0xffffffff                                          # IMREAD_GRAYSCALE, IMREAD_COLOR, IMREAD_UNCHANGED
CN = lambda t: z3.LShR(t, BV(3, 32)) + 1                                     # number of channels of a matrix type
T8 = lambda n: BV((n - 1) << 3, 32)                                          # CV_8UC(n)
HDRSZ = 24                                                                   # bytes of the MXNet header
CVX = "_ZTIN2cv9ExceptionE"
LOG = [R(r"std::basic_string<char, .*>::(~)?basic_string\(", nop), R(r"mlio::Invalid_instance_error::", nop), R(r"std::(invalid_argument|runtime_error)::~?(invalid_argument|runtime_error)", nop), R(r".*std::basic_string_view<.*>::basic_string_view\(char const\*\)", nop), R(r".*fmt::|_ZN3fmt", nop), R(r"std::basic_string<char, .*>::operator std::basic_string_view", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("length"), Ptr(Obj("message text", None, True), 0)]))])]
class Reader:
    """an image reader, an instance with its bytes, and OpenCV's matrices: the pointer to the pixels tells which image a matrix holds"""
    def __init__(s, u):
        s.u = u; s.m = u.mods[0]; f = lambda n: field(u, "Image_reader", n); p = lambda n: f("params_") + field(u, "Image_reader_params", n); s.f, s.p = f, p; s.M = lambda n: field(u, "Mat", n); s.IA = field(u, "_InputArray", "obj")
        s.this, s.inst, s.store, s.slice, s.buf, s.exc = Obj("this", f("__size__"), True), Obj("instance", field(u, "Instance", "__size__"), True), Obj("data store", None, True), Obj("bits", field(u, "Memory_slice", "__size__"), True), Obj("bytes of the instance", U(N), True), Obj("cv::Exception", None, True)
        s.img = {n: Obj(n, None, True) for n in ("decoded image", "resized image", "converted image", "cropped image")}
    def init(s, ex, st):
        for o in [s.this, s.inst, s.store, s.slice, s.buf, s.exc, *s.img.values()]: ex.objs[o.id] = o
        ex.bounded(st, N); st.assume(z3.ULT(N, BV(1 << 31, 64)), z3.ULE(ERR, 1), z3.ULE(WARN, 1), z3.ULE(RGB, 1), z3.ULE(RES, 1), H > 0, W > 0, CH > 0, z3.ULE(FRAME, 1)); m = s.m; at = lambda n: s.p(n)
        for o, v, t in ((at("image_frame"), FRAME, I32), (at("resize"), RV, I64), (at("resize") + 8, RES, I8), (at("to_rgb"), RGB, I8), (s.f("error_bad_example_"), ERR, I8), *((s.f("img_dims_") + 4 * k, v, I32) for k, v in enumerate((CH, H, W)))): ex.store(st, Ptr(s.this, o), v, t, m)
        ex.store(st, Ptr(s.slice, 0), Ptr(s.buf, 0), PT, m); vinit(ex, st, s.store, "Store"); vinit(ex, st, s.exc, "Exception"); st.ghost.update(warned=BV(0, 8), inner=False); return Ptr(s.this, 0)
    def virtual(s): return dispatch({"Store": ["mlio::Data_store::?"] * 16, "Exception": ["what"] * 16}, {"Store": [(r".", lambda ex, st, a, i: Ptr(Obj("id", 32, True), 0))], "Exception": [(r".", lambda ex, st, a, i: Ptr(Obj("message text", None, True), 0))]})
    # matrices
    def mat(s, ex, st, p, rows, cols, type_, data):
        for n, v, t in (("flags", type_, I32), ("rows", rows, I32), ("cols", cols, I32), ("data", data, PT)): ex.store(st, Ptr(p.o, add(p.f, s.M(n))), v, t, s.m)
    def get(s, ex, st, p):
        """(rows, columns, type, pixels) of a matrix"""
        c = lambda n, t: ex.load(st, Ptr(p.o, add(p.f, s.M(n))), t); return bv(c("rows", I32), 32), bv(c("cols", I32), 32), bv(c("flags", I32), 32) & 4095, c("data", PT)
    def copy(s, ex, st, d, p): s.mat(ex, st, d, *s.get(ex, st, p)); return d
    def arg(s, ex, st, p): return ex.load(st, Ptr(p.o, add(p.f, s.IA)), PT)
    def has(s, p, what): return TF(isinstance(p, Ptr) and p.o is s.img[what])
    def throw(s, st): return (st, ("throw", Thrown(CVX, s.exc)))
    def reported(s, no, er):
        no.assume(ERR == 0); er.assume(ERR == 1)
        for x in (no, er): x.ghost["inner"] = True
        return (er, ("throw", Thrown("_ZTIN4mlio6abi_v122Invalid_instance_errorE")))
    def stubs(s):
        mat = r"cv::Mat::"
        def warn(ex, st, a, i): st.ghost["warned"] = bv(simp(z3.If(z3.UGE(st.ghost["warned"], 2), BV(2, 8), st.ghost["warned"] + 1)), 8)
        def off(ex, st, p):
            d = ex.load(st, Ptr(p.o, p.f), PT); return d
        def sub(ex, st, a, i):
            k = 1 if isinstance(a[1], Ptr) else 0; d = off(ex, st, a[k]); n = U(a[k + 1]); ex.oblige(st, "safety: the part lies inside the instance", z3.ULE(n, N - U(d.f))); ex.store(st, a[0], Ptr(d.o, simp(U(d.f) + n)), PT, s.m)
        def size(ex, st, a, i): d = off(ex, st, a[0]); return simp(N - U(d.f)) if isinstance(d, Ptr) and d.o is s.buf else 0
        def empty(ex, st, a, i): r, c, t, d = s.get(ex, st, a[0]); return 1 if not isinstance(d, Ptr) or d.o is None else simp(z3.If(z3.Or(r == 0, c == 0), BV(1, 8), BV(0, 8)))
        def ctor(ex, st, a, i): s.mat(ex, st, a[0], a[1], a[2], a[3], a[4])
        def blank(ex, st, a, i): s.mat(ex, st, a[0], 0, 0, 0, NULL)
        cp = lambda ex, st, a, i: s.copy(ex, st, a[0], a[1])
        return [R(r"mlio::Data_reader_base::warn_bad_instances\(\)", lambda ex, st, a, i: WARN), R(r"(void )?mlio::logger::", warn), R(r"mlio::Instance::data_store\(\)", lambda ex, st, a, i: Ptr(s.store, 0)), R(r"mlio::Instance::index\(\)", lambda ex, st, a, i: ex.fresh("index")), R(r"mlio::Instance::bits\(\)", lambda ex, st, a, i: (ex.oblige(st, "requires: the bytes of the instance", TF(a[0].o is s.inst)), Ptr(s.slice, 0))[1]),
                R(r"mlio::Memory_slice::subslice\(", sub), R(r"mlio::Memory_slice::(size|end_ - beg_)\(", size), R(r"mlio::Memory_slice::empty\(\)", lambda ex, st, a, i: simp(z3.If(U(size(ex, st, a, i)) == 0, BV(1, 8), BV(0, 8)))), R(r"mlio::Memory_slice::data\(\)", lambda ex, st, a, i: off(ex, st, a[0])), R(r"mlio::Memory_slice::~Memory_slice", nop), R(r"mlio::Memory_slice::Memory_slice\(\)", lambda ex, st, a, i: ex.store(st, a[0], NULL, PT, s.m)), R(r"mlio::Memory_slice::(operator=|Memory_slice)\(", lambda ex, st, a, i: (ex.store(st, a[0], ex.load(st, Ptr(a[1].o, a[1].f), PT), PT, s.m), a[0])[1]),
                R(mat + r"Mat\(int, int, int, void\*", ctor), R(mat + r"Mat\(\)", blank), R(mat + r"(Mat|operator=)\(cv::Mat( const)?&&?\)", cp), R(mat + r"~Mat\(\)", nop), R(mat + r"release\(\)", blank), R(mat + r"empty\(\)", empty), R(r"cv::_(Input|Output|InputOutput)Array::~", nop)] + LOG
    def bad(s, ex, st, out, no, why, also=(), must=True):
        """an image that cannot be used: an error, or refused, as asked for, and logged as asked for"""
        g = st.ghost
        if out[0] == "throw": ex.cover("error"); yield "ensures: an error only for a reason and if asked for", z3.Or(z3.And(TF(is_exc(out, "Invalid_instance_error") or (is_exc(out, "invalid_argument") and not also)), ERR == 1, why), *[z3.And(TF(is_exc(out, "invalid_argument")), c) for c in also]); no = z3.BoolVal(True); also = z3.Or(*also) if also else z3.BoolVal(False)
        else: yield "ensures: refused for a reason only, and every reason counts", no == why; yield "ensures: refused silently only if asked for", z3.Implies(no, ERR == 0); yield "ensures: a wrong configuration is not passed over", z3.Not(z3.And(must, z3.Or(*also))); also = z3.BoolVal(False)
        if not g["inner"]: yield "ensures: reported as asked for", z3.Implies(z3.Not(also), g["warned"] == z3.If(z3.And(no, WARN == 1), BV(1, 8), BV(0, 8)))
    def opts(s, **k): return dict(virtual=s.virtual(), **k)
CLS = r"mlio::Image_reader::"
FAILS, EMPTY = z3.Bool("decoder fails"), z3.Bool("bytes are not an image")
def spec_decode_image(u):
    X = Reader(u); fn = CLS + r"decode_image\("; out, buf = Obj("result", field(u, "Mat", "__size__"), True), Obj("buffer", field(u, "Mat", "__size__"), True); MODE = z3.BitVec("mode", 32)
    def setup(ex, st):
        t = X.init(ex, st)
        for o in (out, buf): ex.objs[o.id] = o
        X.mat(ex, st, Ptr(buf, 0), 1, simp(z3.Extract(31, 0, N)), 0, Ptr(X.buf, 0)); st.assume(ROWS > 0, COLS > 0, z3.ULT(TYPE, 4096), z3.Or(MODE == GRAY, MODE == COLOR, MODE == ANY), z3.Implies(MODE == GRAY, TYPE == T8(1)), z3.Implies(MODE == COLOR, TYPE == T8(3))); st.ghost["read"] = BV(0, 8); return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": t, "buf": Ptr(buf, 0), "mode": MODE, "instance": Ptr(X.inst, 0)})
    def imdecode(ex, st, a, i):
        b = X.arg(ex, st, a[1]); ex.oblige(st, "requires: the given bytes in the given mode, once", z3.And(TF(isinstance(b, Ptr) and b.o is buf), bv(a[2], 32) == MODE, st.ghost["read"] == 0)); st.ghost["read"] = BV(1, 8); x, e, y = fork(st, FAILS, z3.And(z3.Not(FAILS), EMPTY), z3.And(z3.Not(FAILS), z3.Not(EMPTY)))
        X.mat(ex, e, a[0], 0, 0, 0, NULL); X.mat(ex, y, a[0], ROWS, COLS, TYPE, Ptr(X.img["decoded image"], 0)); return [X.throw(x), (e, ("ret", None)), (y, ("ret", None))]
    def post(ex, st, o):
        four = z3.And(z3.Not(FAILS), z3.Not(EMPTY), MODE == ANY, CN(TYPE) != 4); why = z3.Or(FAILS, EMPTY, z3.And(MODE == ANY, CN(TYPE) == 4, TYPE & 7 != 0)); no = None
        if o[0] != "throw":
            r, c, t, d = X.get(ex, st, Ptr(out, 0)); none = not isinstance(d, Ptr) or d.o is None; no = TF(none); ex.cover("image", TF(not none)); ex.cover("not an image", TF(none))
            if not none: yield "ensures: the decoded image", z3.And(X.has(d, "decoded image"), r == ROWS, c == COLS, t == TYPE); yield "ensures: eight bits for each of the channels asked for", t == z3.If(MODE == GRAY, T8(1), z3.If(MODE == COLOR, T8(3), T8(4)))
        yield from X.bad(ex, st, o, no, why, (four,)); yield "ensures: decoded once", st.ghost["read"] == 1
    return dict(name="Image_reader::decode_image", fn=fn, setup=setup, post=post, covers=["image", "not an image", "error"], stubs=[R(r"cv::imdecode\(", imdecode)] + X.stubs(), opts=X.opts(), budget=60)
def spec_resize(u):
    X = Reader(u); fn = CLS + r"resize\("; src, dst = Obj("source", field(u, "Mat", "__size__"), True), Obj("destination", field(u, "Mat", "__size__"), True); ew, eh = z3.BitVec("given width", 32), z3.BitVec("given height", 32)
    def setup(ex, st):
        t = X.init(ex, st)
        for o in (src, dst): ex.objs[o.id] = o
        X.mat(ex, st, Ptr(src, 0), ROWS, COLS, TYPE, Ptr(X.img["decoded image"], 0)); st.assume(RES == 1, ROWS > 0, COLS > 0, ROWS < 1 << 30, COLS < 1 << 30, z3.ULT(TYPE, 4096)); st.ghost["done"] = BV(0, 8); return args_of(u, fn, {"this": t, "src": Ptr(src, 0), "dst": Ptr(dst, 0), "instance": Ptr(X.inst, 0)})
    def rez(ex, st, a, i):
        s_, d = X.arg(ex, st, a[0]), X.arg(ex, st, a[1]); z = U(a[2]); w, h = z3.Extract(31, 0, z), z3.Extract(63, 32, z); g = st.ghost; ex.oblige(st, "requires: from the source to the destination, once", z3.And(TF(isinstance(s_, Ptr) and s_.o is src and isinstance(d, Ptr) and d.o is dst), g["done"] == 0))
        r, c = z3.SignExt(32, ROWS), z3.SignExt(32, COLS); top = BV((1 << 31) - 1, 64); v = z3.If(z3.ULE(RV, top), RV, top); mul = lambda k: z3.If(z3.ULE(RV, top), umul(RV, k), top * k); lim = lambda q: z3.If(q > top, top, q)
        for k, l in ((r, c), (c, r)): q = mul(k); st.assume(umul(RV, k) == umul(k, RV), q >= 0, q < 1 << 61, sdivf(q, l) >= 0, sdivf(q, l) <= q)       # facts of products and quotients of numbers in [0, 2^31]
        ex.oblige(st, "requires: the shorter edge gets the size asked for and the other keeps the ratio", z3.If(ROWS > COLS, z3.And(z3.SignExt(32, w) == v, z3.SignExt(32, h) == lim(sdivf(mul(r), c))), z3.And(z3.SignExt(32, h) == v, z3.SignExt(32, w) == lim(sdivf(mul(c), r)))))
        g["done"] = BV(1, 8); x, y = fork(st, FAILS, z3.Not(FAILS)); X.mat(ex, y, d, h, w, TYPE, Ptr(X.img["resized image"], 0)); return [X.throw(x), (y, ("ret", None))]
    def post(ex, st, o):
        no = None
        if o[0] != "throw":
            ok = bo(asbool(o[1])); no = z3.Not(ok); r, c, t, d = X.get(ex, st, Ptr(dst, 0)); ex.cover("resized", z3.And(ok, ROWS == 20, COLS == 10, RV == 5)); ex.cover("wide", z3.And(ok, ROWS == 10, COLS == 20, RV == 5)); ex.cover("refused", no)
            yield "ensures: the destination is the resized image", z3.Implies(ok, z3.And(X.has(d, "resized image"), t == TYPE))
        yield from X.bad(ex, st, o, no, FAILS); yield "ensures: resized once", st.ghost["done"] == 1
    return dict(name="Image_reader::resize", fn=fn, setup=setup, post=post, covers=["resized", "wide", "refused", "error"], stubs=[R(r"cv::resize\(", rez)] + X.stubs(), opts=X.opts(opaque_mul=True, opaque_sdiv=True), budget=90)
def spec_crop(u):
    X = Reader(u); fn = CLS + r"crop\("; src, dst = Obj("source", field(u, "Mat", "__size__"), True), Obj("destination", field(u, "Mat", "__size__"), True); pix = Obj("row of the tensor", None, True)
    def setup(ex, st):
        t = X.init(ex, st)
        for o in (src, dst, pix): ex.objs[o.id] = o
        X.mat(ex, st, Ptr(src, 0), ROWS, COLS, TYPE, Ptr(X.img["decoded image"], 0)); X.mat(ex, st, Ptr(dst, 0), H, W, TYPE, Ptr(pix, 0)); st.assume(ROWS >= 0, COLS >= 0, z3.ULT(TYPE, 4096)); st.ghost.update(copied=BV(0, 8), failed=z3.BoolVal(False)); return args_of(u, fn, {"this": t, "src": Ptr(src, 0), "dst": Ptr(dst, 0), "instance": Ptr(X.inst, 0)})
    def roi(k):
        def h(ex, st, a, i):
            rc = a[-1]; x, y, w, h_ = (bv(ex.load(st, Ptr(rc.o, add(rc.f, 4 * n)), I32), 32) for n in range(4)); r, c, t, d = X.get(ex, st, a[1]); ex.oblige(st, "requires: a part of the source", X.has(d, "decoded image")); inside = z3.And(x >= 0, y >= 0, w >= 0, h_ >= 0, x <= c, w <= c - x, y <= r, h_ <= r - y)
            ex.oblige(st, "safety: the part lies inside the image", inside); ex.oblige(st, "requires: the centre, of the size asked for", z3.And(w == W, h_ == H, x == z3.LShR(c - W, BV(1, 32)), y == z3.LShR(r - H, BV(1, 32)))); X.mat(ex, st, a[0], h_, w, t, Ptr(X.img["cropped image"], 0))
        return h
    def copy(ex, st, a, i):
        r, c, t, d = X.get(ex, st, a[0]); o = X.arg(ex, st, a[1]); ex.oblige(st, "requires: the centre goes to the destination, once", z3.And(X.has(d, "cropped image"), TF(isinstance(o, Ptr) and o.o is dst), st.ghost["copied"] == 0)); r2, c2, t2, d2 = X.get(ex, st, o); ex.oblige(st, "requires: the destination has the size and type of the part, so that it is filled and not replaced", z3.And(r == r2, c == c2, t == t2, TF(isinstance(d2, Ptr) and d2.o is pix)))
        x, y = fork(st, FAILS, z3.Not(FAILS)); y.ghost["copied"] = BV(1, 8); return [X.throw(x), (y, ("ret", None))]
    small = z3.Or(ROWS < H, COLS < W)
    def post(ex, st, o):
        no = None
        if o[0] != "throw": ok = bo(asbool(o[1])); no = z3.Not(ok); ex.cover("cropped", ok); ex.cover("too small", small); yield "ensures: the destination is filled", ok == (st.ghost["copied"] == 1)
        yield from X.bad(ex, st, o, no, z3.Or(small, FAILS))
    stubs = [R(r"cv::Mat::(operator\(\)|Mat)\((cv::Mat const&, )?cv::Rect_<int> const&\)", roi(0)), R(r"cv::Mat::copyTo\(", copy)]
    return dict(name="Image_reader::crop", fn=fn, setup=setup, post=post, covers=["cropped", "too small", "error"], stubs=stubs + X.stubs(), opts=X.opts(), budget=60)
DOK, ROK, COK, FOUR = (z3.Bool(n) for n in ("image is decoded", "image is resized", "image is cropped", "image has not four channels"))
def spec_core(u):
    X = Reader(u); fn = CLS + r"decode_core\("; row = Obj("row of the tensor", None, True); LEN, R2, C2 = z3.BitVec("row length", 64), z3.BitVec("resized rows", 32), z3.BitVec("resized columns", 32)
    def setup(ex, st):
        t = X.init(ex, st); ex.objs[row.id] = row; st.assume(ROWS > 0, COLS > 0, R2 > 0, C2 > 0); st.ghost.update(decoded=BV(0, 8), resized=BV(0, 8), converted=BV(0, 8), cropped=BV(0, 8), cut=z3.BoolVal(False))
        return args_of(u, fn, {"this": t, 1: Ptr(row, 0), 2: LEN, "instance": Ptr(X.inst, 0)})
    start = z3.If(FRAME == 1, BV(HDRSZ, 64), BV(0, 64)); short = z3.And(FRAME == 1, z3.ULT(N, HDRSZ)); chans = z3.Or(CH == 1, CH == 3, CH == 4); otype = z3.If(CH == 1, T8(1), z3.If(CH == 3, T8(3), T8(4)))
    def decode(ex, st, a, i):
        g = st.ghost; r, c, t, d = X.get(ex, st, a[2]); ex.oblige(st, "requires: the bytes of the image as one row, without the frame's header, once", z3.And(TF(a[1].o is X.this and a[4].o is X.inst and isinstance(d, Ptr) and d.o is X.buf), r == 1, t == 0, z3.SignExt(32, c) == N - start, U(d.f) == start, g["decoded"] == 0) if isinstance(d, Ptr) and d.o is X.buf else False)
        ex.oblige(st, "requires: decoded with the channels asked for", bv(a[3], 32) == z3.If(CH == 1, BV(GRAY, 32), z3.If(CH == 3, BV(COLOR, 32), BV(ANY, 32)))); g["decoded"] = BV(1, 8); y, n, w = fork(st, z3.And(DOK, z3.Not(FOUR)), z3.And(z3.Not(DOK), z3.Not(FOUR)), z3.And(FOUR, CH == 4)); e = n.copy(); rep = X.reported(n, e); w.ghost["inner"] = True
        X.mat(ex, y, a[0], ROWS, COLS, otype, Ptr(X.img["decoded image"], 0)); X.mat(ex, n, a[0], 0, 0, 0, NULL); return [(y, ("ret", None)), (n, ("ret", None)), rep, (w, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def resize(ex, st, a, i):
        g = st.ghost; r, c, t, d = X.get(ex, st, a[1]); ex.oblige(st, "requires: the decoded image, before its colours are converted, once, if a size is asked for", z3.And(TF(a[0].o is X.this and a[3].o is X.inst), X.has(d, "decoded image"), g["resized"] == 0, RES == 1)); g["resized"] = BV(1, 8); y, n = fork(st, ROK, z3.Not(ROK)); e = n.copy(); rep = X.reported(n, e)
        X.mat(ex, y, a[2], R2, C2, t, Ptr(X.img["resized image"], 0)); return [(y, ("ret", 1)), (n, ("ret", 0)), rep]
    def convert(ex, st, a, i):
        g = st.ghost; s_, o = X.arg(ex, st, a[0]), X.arg(ex, st, a[1]); r, c, t, d = X.get(ex, st, s_); code = bv(a[2], 32); ex.oblige(st, "requires: the image as it is so far, of colours, once, if asked for", z3.And(z3.If(RES == 1, X.has(d, "resized image"), X.has(d, "decoded image")), RGB == 1, g["converted"] == 0, t != T8(1)))
        ex.oblige(st, "requires: the first and the third channel change places and none is lost", z3.Or(z3.And(code == 4, t == T8(3)), z3.And(code == 5, t == T8(4)))); g["converted"] = BV(1, 8); x, y = fork(st, FAILS, z3.Not(FAILS)); x.ghost["cvt"] = True; X.mat(ex, y, o, r, c, t, Ptr(X.img["converted image"], 0)); return [X.throw(x), (y, ("ret", None))]
    def crop(ex, st, a, i):
        g = st.ghost; r, c, t, d = X.get(ex, st, a[1]); r2, c2, t2, d2 = X.get(ex, st, a[2]); conv = z3.And(RGB == 1, CH != 1)
        ex.oblige(st, "requires: the image, resized and with its colours converted as asked for", z3.If(conv, X.has(d, "converted image"), z3.If(RES == 1, X.has(d, "resized image"), X.has(d, "decoded image")))); ex.oblige(st, "requires: its size", z3.And(r == z3.If(RES == 1, R2, ROWS), c == z3.If(RES == 1, C2, COLS), z3.Implies(conv, g["converted"] == 1), (g["resized"] == 1) == (RES == 1)))
        ex.oblige(st, "requires: into the row given, of the declared dimensions and of the image's type", z3.And(TF(isinstance(d2, Ptr) and d2.o is row and eqc(simp(d2.f), 0) and a[0].o is X.this and a[3].o is X.inst), r2 == H, c2 == W, t2 == otype, t == t2, g["cropped"] == 0)); g["cropped"] = BV(1, 8); y, n = fork(st, COK, z3.Not(COK)); e = n.copy(); rep = X.reported(n, e); return [(y, ("ret", 1)), (n, ("ret", 0)), rep]
    def post(ex, st, o):
        g = st.ghost; conv = z3.And(RGB == 1, CH != 1); why = z3.Or(short, z3.And(chans, z3.Or(z3.And(z3.Not(FOUR), z3.Not(DOK)), z3.And(RES == 1, z3.Not(ROK)), z3.And(conv, FAILS), z3.Not(COK)))); no = None
        if o[0] != "throw": ok = bo(asbool(o[1])); no = z3.Not(ok); ex.cover("image", z3.And(ok, CH == 4, RGB == 1)); ex.cover("resized", z3.And(ok, RES == 1)); ex.cover("grey", z3.And(ok, CH == 1)); ex.cover("short", z3.And(no, short)); ex.cover("refused", z3.And(no, z3.Not(short))); yield "ensures: a good image fills the row", z3.Implies(ok, g["cropped"] == 1)
        yield from X.bad(ex, st, o, no, why, (z3.Not(chans), z3.And(FOUR, CH == 4)), z3.Not(short))
    f_ = r"(mlio::Image_reader::)"
    stubs = [R(f_ + r"decode_image\(", decode), R(f_ + r"resize\(", resize), R(f_ + r"crop\(", crop), R(r"cv::cvtColor\(", convert)]
    return dict(name="Image_reader::decode_core", fn=fn, setup=setup, post=post, covers=["image", "resized", "grey", "short", "refused", "error"], stubs=stubs + X.stubs(), opts=X.opts(), budget=120)
NI, SIZE, J, LEN = (z3.BitVec(n, 64) for n in ("number of instances", "batch size", "J", "row length")); BAD = z3.BitVec("bad example handling", 32)     # J any instance
OK = z3.Function("instance is good", B64, z3.BoolSort()); GOOD = z3.Function("good instances before", B64, B64)
def good(i): return [GOOD(i + 1) == GOOD(i) + z3.If(OK(i), BV(1, 64), BV(0, 64)), z3.ULE(GOOD(i), i), z3.Implies(z3.ULT(i, NI), z3.And(z3.ULE(GOOD(i + 1), GOOD(NI)), z3.ULE(GOOD(NI) - GOOD(i + 1), NI - i - 1)))]      # definition of GOOD and that it grows by at most one
PAD = z3.Or(BAD == 3, BAD == 4); SKIP = z3.Or(BAD == 1, BAD == 2)
class World(Reader):
    """the reader with its parameters, schema and a batch"""
    def __init__(s, u):
        super().__init__(u); s.w = field(u, "Instance", "__size__"); s.batch, s.insts, s.params, s.schema, s.avec, s.attr, s.st_, s.dims, s.tensor, s.data, s.arr, s.exm, s.out = Obj("batch", field(u, "Instance_batch", "__size__"), True), Obj("instances", simp(U(NI) * s.w), True), Obj("parameters", field(u, "Data_reader_params", "__size__"), True), Obj("schema", None, True), Obj("attribute vector", 24, True), Obj("attribute", field(u, "Attribute", "__size__"), True), Obj("strides", 32, True), Obj("image dimensions", 24, True), Obj("tensor", None, True), Obj("tensor data", simp(umul(SIZE, LEN)), True), Obj("array", None, True), Obj("example", field(u, "Example", "__size__"), True), Obj("result", 8, True)
    def init(s, ex, st):
        t = super().init(ex, st); m, u = s.m, s.u
        for o in (s.batch, s.insts, s.params, s.schema, s.avec, s.attr, s.st_, s.dims, s.tensor, s.data, s.arr, s.exm, s.out): ex.objs[o.id] = o
        ex.bounded(st, NI, SIZE, LEN); st.assume(z3.ULE(NI, SIZE), LEN != 0, umul(BV(0, 64), LEN) == 0, GOOD(BV(0, 64)) == 0, *good(J)); e = simp(U(NI) * s.w); o = field(u, "Instance_batch", "instances_"); z = field(u, "Attribute", "__size__")
        for k, v in ((0, 0), (8, e), (16, e)): ex.store(st, Ptr(s.batch, o + k), Ptr(s.insts, v), PT, m)
        for k, v in ((0, 0), (8, z), (16, z)): ex.store(st, Ptr(s.avec, k), Ptr(s.attr, v), PT, m)
        setvec(ex, st, Ptr(s.attr, field(u, "Attribute", "strides_")), s.st_, BV(4, 64)); ex.store(st, Ptr(s.st_, 0), LEN, I64, m); setvec(ex, st, Ptr(s.this, s.p("image_dimensions")), s.dims, BV(3, 64))
        for k, v in enumerate((CH, H, W)): ex.store(st, Ptr(s.dims, 8 * k), simp(z3.ZeroExt(32, v)), I64, m)
        P = lambda n: field(u, "Data_reader_params", n); ex.store(st, Ptr(s.params, P("bad_example_handling")), BAD, I32, m); ex.store(st, Ptr(s.params, P("batch_size")), SIZE, I64, m); ex.store(st, Ptr(s.batch, field(u, "Instance_batch", "size_")), SIZE, I64, m); return t
    def stubs(s):
        return [R(r"mlio::Data_reader_base::params\(\)", lambda ex, st, a, i: Ptr(s.params, 0)), R(r"mlio::Parallel_data_reader::schema\(", lambda ex, st, a, i: ex.store(st, a[0], Ptr(s.schema, 0), PT, s.m)), R(r"mlio::Schema::attributes\(", lambda ex, st, a, i: Ptr(s.avec, 0)), R(r"mlio::Intrusive_ptr<.*>::~Intrusive_ptr", nop), R(r"std::unique_ptr<.*>::~unique_ptr", nop), R(r"std::vector<mlio::Intrusive_ptr<mlio::Tensor>, .*?>::~vector", nop)] + super().stubs()
def spec_decode(u):
    X = World(u); fn = CLS + r"decode\("; made = {}
    def setup(ex, st): t = X.init(ex, st); st.ghost.update(n=BV(0, 64), bad=BV(0, 8), at=BV(-1, 64), tensor=False, example=False, listed=False); return args_of(u, fn, {"agg.result": Ptr(X.out, 0), "this": t, "batch": Ptr(X.batch, 0)})
    def tensor(ex, st, a, i): ex.oblige(st, "requires: a tensor of the batch's size and of the images' length, once", z3.And(TF(a[1].o is X.this and not st.ghost["tensor"]), U(a[2]) == SIZE, U(a[3]) == LEN)); st.ghost["tensor"] = True; ex.store(st, a[0], Ptr(X.tensor, 0), PT, X.m)
    def row(ex, st, a, i):
        """contract of decode_core (above)"""
        k = quot(simp(a[3].f), X.w) if isinstance(a[3], Ptr) and a[3].o is X.insts else None
        if k is None or not (isinstance(a[1], Ptr) and a[1].o is X.data): ex.oblige(st, "requires: an instance of the batch and a row of the tensor", False); return 0
        k = U(k); g = st.ghost; st.assume(*good(k)); G = GOOD(k); st.assume(umul(G, LEN) + LEN == umul(G + 1, LEN), z3.Implies(z3.ULT(G, SIZE), z3.And(z3.ULE(umul(G + 1, LEN), umul(SIZE, LEN)), z3.ULE(umul(G, LEN), umul(G + 1, LEN)))))       # distributivity and monotony
        ex.oblige(st, "requires: instances of the batch in order", z3.And(k == g["n"], z3.ULT(k, NI))); ex.oblige(st, "requires: good images are stacked without gaps", U(a[1].f) == umul(G, LEN)); ex.oblige(st, "requires: the row lies inside the tensor", z3.And(z3.ULE(LEN, umul(SIZE, LEN) - umul(G, LEN)), z3.ULE(umul(G, LEN), umul(SIZE, LEN))))
        ok, no, er, cf = st.copy(), st.copy(), st.copy(), st.copy(); ok.assume(OK(k)); no.assume(z3.Not(OK(k)), BAD != 0); er.assume(z3.Not(OK(k)), BAD == 0); er.ghost["error"] = True; cf.ghost["config"] = True; n = fixed(k + 1)
        ok.ghost.update(n=n, at=fixed(z3.If(k == J, G, g["at"]))); no.ghost.update(n=n, bad=BV(1, 8)); return [(ok, ("ret", 1)), (no, ("ret", 0)), (er, ("throw", Thrown("_ZTIN4mlio6abi_v122Invalid_instance_errorE"))), (cf, ("throw", Thrown("_ZTISt16invalid_argument")))]
    def cands(sn):
        g = sn.st.ghost; n = g["n"]; r = [("instances read", z3.ULE(n, NI)), ("all instances read", n == NI), ("only padding goes on", z3.Implies(g["bad"] == 1, PAD)), ("bad ones are counted", (g["bad"] == 1) == (GOOD(n) != n)), ("place of instance J", z3.Implies(z3.ULT(J, n), z3.Implies(OK(J), g["at"] == GOOD(J)))), ("flags", z3.ULE(g["bad"], 1)), ("good at most n", z3.ULE(GOOD(n), n))]
        for m, (v, w) in sn.ints.items():
            if w == 64: r += [(f"{m} good", U(v) == GOOD(n)), (f"{m} read", U(v) == n), (f"{m} what is left", U(v) == umul(SIZE, LEN) - umul(GOOD(n), LEN)), (f"{m} offset", U(v) == umul(GOOD(n), LEN))]
        for m, q in sn.ptrs.items():
            k = quot(simp(q.f), X.w) if q.o is X.insts else None
            if k is not None: r.append((f"{m} next", U(k) == n))
            if q.o is X.data: r.append((f"{m} next row", U(q.f) == umul(GOOD(n), LEN)))
        return r
    PADOFF = field(u, "Example", "padding")
    def push(ex, st, a, i): p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the tensor, once", TF(isinstance(p, Ptr) and p.o is X.tensor and not st.ghost["listed"])); st.ghost["listed"] = (a[0].o, a[0].f); return a[0]
    def example(ex, st, a, i):
        s_ = ex.load(st, a[1], PT); l = st.ghost["listed"]; ex.oblige(st, "requires: the reader's schema and the tensor, after every image was read", z3.And(TF(isinstance(s_, Ptr) and s_.o is X.schema and l and a[2].o is l[0] and eqc(a[2].f, l[1])), st.ghost["n"] == NI)); st.ghost["example"] = True; ex.store(st, a[0], Ptr(X.exm, 0), PT, X.m); ex.store(st, Ptr(X.exm, PADOFF), 0, I64, X.m)
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw":
            if g.get("config"): yield "ensures: the error of a wrong configuration is passed on", TF(is_exc(o, "invalid_argument")); return
            if g.get("error"): ex.cover("error"); yield "ensures: a bad image is an error in that mode", z3.And(TF(is_exc(o, "Invalid_instance_error")), BAD == 0); return
            yield "ensures: refused only for an unknown handling", z3.And(TF(is_exc(o, "invalid_argument")), z3.UGT(BAD, 4)); return
        p = cell(ex, st, X.out, 0, PT)
        if p is NULL or not isinstance(p, Ptr) or p.o is None: ex.cover("skipped"); yield "ensures: skipped only for a bad image and only if asked for", z3.And(g["bad"] == 1, SKIP); return
        ex.cover("all good", z3.And(NI == 3, g["bad"] == 0)); ex.cover("padded", z3.And(NI == 3, SIZE == 5, g["bad"] == 1)); yield "ensures: an example of the tensor", TF(p.o is X.exm and g["example"]); yield "ensures: bad images are left out only if asked for", z3.Implies(g["bad"] == 1, PAD); yield "ensures: every instance is read", g["n"] == NI
        yield "ensures: the good images are stacked in order", z3.Implies(z3.And(z3.ULT(J, NI), OK(J)), g["at"] == GOOD(J)); yield "ensures: padding is what the good images leave of the batch", U(cell(ex, st, X.exm, PADOFF, I64)) == SIZE - GOOD(NI)
    VT = r"(.* )?std::vector<mlio::Intrusive_ptr<mlio::Tensor>, .*?>::"
    stubs = [R(CLS + r"make_tensor\(", tensor), R(CLS + r"decode_core\(", row), R(r"mlio::Dense_tensor::data\(\)", lambda ex, st, a, i: (ex.oblige(st, "requires: the new tensor", TF(a[0].o is X.tensor)), Ptr(X.data, 0))[1]), R(r".*mlio::Basic_device_array_span<mlio::Device_array>::as<unsigned char>", lambda ex, st, a, i: [(st, ("ret", [Ptr(X.data, 0), simp(umul(SIZE, LEN))]))]), R(VT + r"(emplace_back|push_back)", push), R(r".*mlio::make_intrusive<mlio::Example", example)]
    return dict(name="Image_reader::decode", fn=fn, setup=setup, post=post, covers=["all good", "padded", "skipped", "error"], cands=[cands], stubs=stubs + X.stubs(), opts=dict(virtual=X.virtual(), scale={X.insts.id: X.w}, watch=[J], opaque_mul=True), budget=120)
def spec_tensor(u):
    X = World(u); fn = CLS + r"make_tensor\("; z = lambda v: simp(z3.ZeroExt(32, v))
    def setup(ex, st): t = X.init(ex, st); st.ghost.update(arr=False, done=False); return args_of(u, fn, {"agg.result": Ptr(X.out, 0), "this": t, "batch_size": SIZE, "batch_stride": LEN})
    def cpu(ex, st, a, i): ex.oblige(st, "requires: bytes for every image", z3.And(bv(a[1], 32) == 8, U(a[2]) == umul(SIZE, LEN))); st.ghost["arr"] = True; ex.store(st, a[0], Ptr(X.arr, 0), PT, X.m)
    def dense(ex, st, a, i):
        d, n = vec_of(ex, st, a[1].o, a[1].f); p = ex.load(st, a[2], PT); b = cell(ex, st, a[1].o, a[1].f, PT) if d is not None else None
        ex.oblige(st, "requires: the shape is batch, height, width, channels", z3.And(n == 32, *[U(cell(ex, st, d, simp(U(b.f) + 8 * k), I64)) == U(v) for k, v in enumerate((SIZE, z(H), z(W), z(CH)))]) if d is not None else False); ex.oblige(st, "requires: the new array", TF(isinstance(p, Ptr) and p.o is X.arr and st.ghost["arr"])); st.ghost["done"] = True; ex.store(st, a[0], Ptr(X.tensor, 0), PT, X.m); ex.store(st, a[2], NULL, PT, X.m)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, X.out, 0, PT); ex.cover("tensor", TF(True)); yield "ensures: the new tensor", TF(isinstance(p, Ptr) and p.o is X.tensor and st.ghost["done"])
    return dict(name="Image_reader::make_tensor", fn=fn, setup=setup, post=post, covers=["tensor"], stubs=[R(r"mlio::make_cpu_array\(", cpu), R(r".*mlio::make_intrusive<mlio::Dense_tensor", dense)] + X.stubs(), opts=dict(virtual=X.virtual(), opaque_mul=True), budget=60)
def spec_schema(u):
    X = World(u); fn = CLS + r"infer_schema\("; z = lambda v: simp(z3.ZeroExt(32, v)); opt = Obj("instance", None, True); AV = r"(.* )?std::vector<mlio::Attribute, .*?>::"
    def setup(ex, st): t = X.init(ex, st); ex.objs[opt.id] = opt; st.ghost.update(attrs=None, done=False); return args_of(u, fn, {"agg.result": Ptr(X.out, 0), "this": t, 2: Ptr(opt, 0)})
    def push(ex, st, a, i):
        ok = lambda s_: all(eqc(ex.load(st, Ptr(a[1].o, add(a[1].f, k)), I8), c) for k, c in enumerate(s_.encode() + b"\0")); d, n = vec_of(ex, st, a[3].o, a[3].f); b = cell(ex, st, a[3].o, a[3].f, PT) if d is not None else None
        ex.oblige(st, "requires: one attribute of bytes, called value", z3.And(TF(ok("value") and st.ghost["attrs"] is None), bv(ex.load(st, a[2], I32), 32) == 8)); ex.oblige(st, "requires: its shape is batch, height, width, channels", z3.And(n == 32, *[U(cell(ex, st, d, simp(U(b.f) + 8 * k), I64)) == U(v) for k, v in enumerate((SIZE, z(H), z(W), z(CH)))]) if d is not None else False); st.ghost["attrs"] = (a[0].o, a[0].f); return a[0]
    def make(ex, st, a, i): l = st.ghost["attrs"]; ex.oblige(st, "requires: a schema of the attribute", TF(l and a[1].o is l[0] and eqc(a[1].f, l[1]))); st.ghost["done"] = True; ex.store(st, a[0], Ptr(X.schema, 0), PT, X.m)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, X.out, 0, PT); ex.cover("schema", TF(True)); yield "ensures: the new schema", TF(isinstance(p, Ptr) and p.o is X.schema and st.ghost["done"])
    return dict(name="Image_reader::infer_schema", fn=fn, setup=setup, post=post, covers=["schema"], stubs=[R(AV + r"(emplace_back|push_back)", push), R(AV + r"~?vector\(", nop), R(r".*mlio::make_intrusive<mlio::Schema", make)] + X.stubs(), opts=dict(virtual=X.virtual()), budget=60)
def spec_record(u):
    X = World(u); fn = CLS + r"make_record_reader\("; raw, rec = Obj("stream of the store", None, True), Obj("record reader", None, True)
    def setup(ex, st):
        t = X.init(ex, st)
        for o in (raw, rec): ex.objs[o.id] = o
        st.ghost.update(open=0); return args_of(u, fn, {"agg.result": Ptr(X.out, 0), "this": t, "store": Ptr(X.store, 0)})
    def open_(ex, st, a, i): ex.oblige(st, "requires: the store is opened once", TF(a[1].o is X.store and st.ghost["open"] == 0)); st.ghost["open"] = 1; ex.store(st, a[0], Ptr(raw, 0), PT, X.m)
    def make(ex, st, a, i): p = ex.load(st, a[1], PT); ex.oblige(st, "requires: the stream of the store", TF(isinstance(p, Ptr) and p.o is raw)); ex.store(st, a[0], Ptr(rec, 0), PT, X.m); ex.store(st, a[1], NULL, PT, X.m)
    def post(ex, st, o):
        if o[0] == "throw": yield "ensures: no error", False; return
        p = cell(ex, st, X.out, 0, PT); none = p is NULL or p.o is None; ex.cover("file", FRAME == 0); ex.cover("records", FRAME == 1); yield "ensures: records are read only if the images are framed, else the store is the image", z3.And(TF(none) == (FRAME == 0), TF(none or p.o is rec))
    V = dispatch({"Store": ["mlio::Data_store::open_read"] * 16}, {"Store": [(r".", open_)]})
    return dict(name="Image_reader::make_record_reader", fn=fn, setup=setup, post=post, covers=["file", "records"], stubs=[R(r".*mlio::make_intrusive<mlio::detail::Recordio_record_reader|.*make_intrusive<.*Recordio_record_reader", make)] + X.stubs(), opts=dict(virtual=V), budget=60)
ND, DIMS = z3.BitVec("number of dimensions", 64), z3.Array("dimensions", B64, B64)
def spec_ctor(u):
    X = Reader(u); fn = CLS + r"Image_reader\(mlio::Data_reader_params"; dims, params, d, ip = Obj("image dimensions", simp(U(ND) * 8), True), Obj("parameters", field(u, "Data_reader_params", "__size__"), True), Obj("data parameters", None, True), Obj("image parameters", None, True)
    def setup(ex, st):
        for o in (X.this, params, d, ip): ex.objs[o.id] = o
        words(ex, st, dims, DIMS); ex.bounded(st, ND); ex.store(st, Ptr(params, field(u, "Data_reader_params", "bad_example_handling")), BAD, I32, X.m); st.ghost.update(base=False, moved=False); return args_of(u, fn, {"this": Ptr(X.this, 0), "params": Ptr(d, 0), "img_params": Ptr(ip, 0)})
    def base(ex, st, a, i): ex.oblige(st, "requires: the reader's parameters", TF(a[1].o is d)); st.ghost["base"] = True
    def move(ex, st, a, i): ex.oblige(st, "requires: the image parameters", TF(a[1].o is ip)); st.ghost["moved"] = True; setvec(ex, st, Ptr(a[0].o, add(a[0].f, field(u, "Image_reader_params", "image_dimensions"))), dims, ND)
    def copy(ex, st, a, i):
        n = U(a[1].f) - U(a[0].f); ex.oblige(st, "safety: the copied dimensions fit", z3.And(TF(a[0].o is dims and a[1].o is dims and a[2].o is X.this and eqc(simp(a[2].f), X.f("img_dims_"))), n == 24, U(a[0].f) == 0))
        for k in range(3): ex.store(st, Ptr(X.this, X.f("img_dims_") + 4 * k), simp(z3.Extract(31, 0, z3.Select(DIMS, BV(k, 64)))), I32, X.m)
        return Ptr(a[2].o, add(a[2].f, 12))
    def post(ex, st, o):
        if o[0] == "throw": ex.cover("refused"); yield "ensures: refused only for another number of dimensions", z3.And(TF(is_exc(o, "invalid_argument")), ND != 3); return
        ex.cover("reader"); yield "ensures: three dimensions", z3.And(ND == 3, TF(st.ghost["base"] and st.ghost["moved"])); yield "ensures: the dimensions are kept in their order", z3.And(*[bv(ex.load(st, Ptr(X.this, X.f("img_dims_") + 4 * k), I32), 32) == z3.Extract(31, 0, z3.Select(DIMS, BV(k, 64))) for k in range(3)]); yield "ensures: bad images are errors in that mode only", (bv(ex.load(st, Ptr(X.this, X.f("error_bad_example_")), I8), 8) == 1) == (BAD == 0)
    stubs = [R(r"mlio::Parallel_data_reader::Parallel_data_reader", base), R(r"mlio::Parallel_data_reader::~", nop), R(r"mlio::Image_reader_params::Image_reader_params", move), R(r"mlio::Image_reader_params::~", nop), R(r"(int\* )?std::copy<", copy), R(r"mlio::Data_reader_base::params\(\)", lambda ex, st, a, i: Ptr(params, 0))]
    return dict(name="Image_reader::Image_reader", fn=fn, setup=setup, post=post, covers=["reader", "refused"], stubs=stubs + LOG, opts=dict(scale={dims.id: 8}, watch=[BV(k, 64) for k in range(3)]), budget=60)
def specs(u): return [spec_ctor, spec_decode_image, spec_resize, spec_crop, spec_core, spec_decode, spec_tensor, spec_schema, spec_record]
HARNESS = dict(file="P29.cc", srcs=lambda: build.images(), secs=10)
NOTE = "the reader is proved for images of every size and every setting: the bytes of the instance (without the header of a frame) are decoded with the channels asked for, the shorter edge gets the size asked for and the other keeps the ratio, colours change places and no channel is lost, the centre of the declared size goes to the row of the tensor and the row has the image's own type (so it is filled, not replaced), every reason to refuse an image is an error or skipped and is reported as asked for, good images are stacked in order without gaps, padding is what they leave, and the tensor and the schema have the declared shape. OpenCV's operations keep their contracts; that the rows behind the good ones are zero follows from the contract of make_cpu_array (zeroed memory) and from rows being written at good positions only, and is compared in the bounded harness, whose oracle crops and swaps the pixels itself (but resizes with OpenCV)."
ASSUME = ["OpenCV: imdecode gives 8-bit images of one and three channels in the grey and colour modes, resize gives the size asked for and keeps the type, cvtColor keeps the number of channels with BGRA2RGBA and needs three for BGR2RGB, copyTo fills a destination of the same size and type in place; any of them may throw cv::Exception", "the declared dimensions are positive and below 2^31, an encoded image is smaller than 2 GiB, an image has fewer than 2^30 rows and columns (OpenCV's own limit)", "std::vector, std::array and Intrusive_ptr keep their contracts; Schema and Dense_tensor keep theirs (P22)"]
