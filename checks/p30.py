import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field
from dv.stubs import str_view

SRCS = [os.path.join(build.VERIF, "harness/ir/refs.cc"), "src/mlio/streams/file_input_stream.cc", "src/mlio/memory/file_mapped_memory_block.cc", "src/mlio/data_stores/file.cc",
        "src/mlio/streams/sagemaker_pipe_input_stream.cc"]
J = z3.BitVec("J", 64)       # any byte position of the caller's buffer
U = lambda x: bv(x, 64)
F = z3.Array("file[]", z3.BitVecSort(64), z3.BitVecSort(8)); LEN = z3.BitVec("file.size", 64); POS = z3.BitVec("file.position", 64); FD = z3.BitVec("file descriptor", 32)
LIM = BV(1 << 46, 64); M1 = (1 << 32) - 1; L1 = (1 << 64) - 1
MAP_FAILED = Ptr(None, L1)

# ---- the operating system, by its documented contracts.  One file: F[0..LEN), its position and the descriptor in ghosts
def error(st):
    e = st.copy(); e.ghost["oserr"] = e.ghost.get("oserr", 0) + 1; return e
def mine(ex, st, v):
    fd = st.ghost.get("fd"); ex.oblige(st, "requires: the open file of this object", z3.And(z3.BoolVal(fd is not None and not st.ghost.get("closed")), bv(v, 32) == fd if fd is not None else z3.BoolVal(False), bv(v, 32) != M1))
PATH = "path"                # the text of the path; strings are followed by what they hold
def text(ex, st, p): return st.ghost.get(("str", p.o.id, p.f)) if isinstance(p, Ptr) and p.o is not None else None
def give(st, p, v): st.ghost[("str", p.o.id, p.f)] = v
def copy(ex, st, a, i): give(st, a[0], text(ex, st, a[1]))
def move(ex, st, a, i): give(st, a[0], text(ex, st, a[1])); give(st, a[1], None)
def view(ex, st, a, i): return [(st, ("ret", [ex.fresh("length"), a[0]]))]
SB = r"std::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
STR = [R(SB + r"basic_string\(std::basic_string<.*> ?>? const&\)", copy), R(SB + r"basic_string\(std::basic_string<.*> ?>?&&\)", move), R(SB + r"(data|c_str)\(", lambda ex, st, a, i: a[0]), R(SB + r"operator std::basic_string_view", view), R(SB + r"~basic_string", nop)]
def open_(ex, st, a, i):
    ex.oblige(st, "requires: the file that was named", z3.BoolVal(text(ex, st, a[0]) == PATH))
    ex.oblige(st, "requires: opened for reading, neither created nor changed", z3.BoolVal(is_c(a[1]) and a[1] & 3 == 0 and not a[1] & 0o11100))
    ex.oblige(st, "requires: opened once", z3.BoolVal(st.ghost.get("fd") is None))
    e = error(st); st.ghost["fd"] = ex.fresh("fd", 32); st.assume(st.ghost["fd"] >= 0); st.ghost["pos"] = BV(0, 64)
    return [(st, ("ret", st.ghost["fd"])), (e, ("ret", M1))]
def fadvise(ex, st, a, i): mine(ex, st, a[0]); return ex.fresh("advice", 32)
def read(ex, st, a, i):
    mine(ex, st, a[0]); p, n = a[1], U(a[2]); e = error(st)
    ex.oblige(st, "requires: the buffer handed to the operating system lies in the caller's", z3.And(z3.BoolVal(p.o is not None), z3.ULE(U(p.f), U(p.o.size)), z3.ULE(n, U(p.o.size) - U(p.f))) if p.o is not None else z3.BoolVal(False))
    pos = st.ghost["pos"]; k = ex.fresh("bytes"); rest = z3.If(z3.ULT(pos, LEN), LEN - pos, BV(0, 64))
    st.assume(z3.ULE(k, n), z3.ULE(k, rest), z3.Implies(z3.And(n != 0, rest != 0), k != 0))
    m = ex.omw(st, p.o); old = m.arr; m.arr = ex.fresharr("read")
    st.assume(z3.Select(m.arr, J) == z3.If(z3.And(z3.ULE(U(p.f), J), z3.ULT(J - U(p.f), k)), z3.Select(F, pos + J - U(p.f)), z3.Select(old, J)))
    st.ghost["pos"] = pos + k
    return [(st, ("ret", k)), (e, ("ret", L1))]
def lseek(ex, st, a, i):
    mine(ex, st, a[0]); e = error(st); o, w = U(a[1]), a[2]
    if not is_c(w) or w not in (0, 1, 2): raise Unsupported("lseek")
    t = o if w == 0 else st.ghost["pos"] + o if w == 1 else LEN + o
    st.assume(t >= 0); st.ghost["pos"] = t
    e.ghost["errno"] = True
    return [(st, ("ret", t)), (e, ("ret", L1))]
def fstat(ex, st, a, i):
    mine(ex, st, a[0]); e = error(st); ex.store(st, Ptr(a[1].o, add(a[1].f, 48)), LEN, I64, ex.unit.mods[0])        # st_size
    return [(st, ("ret", 0)), (e, ("ret", M1))]
def close(ex, st, a, i):
    mine(ex, st, a[0]); st.ghost["closed"] = st.ghost.get("closed", 0) + 1; e = st.copy(); return [(st, ("ret", 0)), (e, ("ret", M1))]
def mmap(ex, st, a, i):
    n = U(a[1]); mine(ex, st, a[4]); e = error(st)
    ex.oblige(st, "requires: a readable mapping inside the file, from its start", z3.And(n != 0, z3.ULE(n, LEN), U(a[5]) == 0, z3.BoolVal(is_c(a[2]) and a[2] & 1 == 1 and is_c(a[3]) and a[3] & 3 in (1, 2) and not a[3] & 0x30)))
    # a writable shared mapping would let the file be changed
    ex.oblige(st, "requires: the mapping cannot change the file", z3.BoolVal(is_c(a[2]) and is_c(a[3]) and (not a[2] & 2 or a[3] & 3 == 2)))
    d = ex.new_obj(st, "mapping", n, mode="bytes"); ex.omw(st, d).arr = F; d.tag = "mapping"
    return [(st, ("ret", Ptr(d, 0))), (e, ("ret", MAP_FAILED))]
def munmap(ex, st, a, i):
    p = a[0]; ok = isinstance(p, Ptr) and p.o is not None and getattr(p.o, "tag", "") == "mapping" and ex.om(st, p.o).alive
    ex.oblige(st, "requires: exactly the block's mapping", z3.And(z3.BoolVal(ok), U(p.f) == 0, U(a[1]) == U(p.o.size)) if ok else z3.BoolVal(False))
    ex.omw(st, p.o).alive = False; return 0
def errno(ex, st, a, i):
    o = ex.lazymemo.get("errno")
    if o is None: o = ex.lazymemo["errno"] = Obj("errno", None, True); ex.objs[o.id] = o
    return Ptr(o, 0)
def validate(ex, st, a, i):
    ex.oblige(st, "requires: the path of this object is checked", z3.BoolVal(text(ex, st, a[1]) == PATH)); st.ghost["checked"] = True; e = st.copy(); e.ghost["badpath"] = True
    return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt16invalid_argument")))]
OS = [R(r"^open(64)?$", open_), R(r"^posix_fadvise(64)?$", fadvise), R(r"^read$", read), R(r"^lseek(64)?$", lseek), R(r"^fstat(64)?$", fstat), R(r"^close$", close), R(r"^mmap(64)?$", mmap), R(r"^munmap$", munmap), R(r"__errno_location$", errno),
      R(r"mlio::detail::current_error_code\(\)", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("errno", 32), Ptr(Obj("category", None, True), 0)]))]),
      R(r"mlio::detail::validate_file_path\(", validate), R(r"std::operator==\(std::error_code const&, std::error_condition const&\)", lambda ex, st, a, i: ex.fresh("same", 1)),
      R(r"std::error_condition::|std::error_code::", nop), R(r"^strlen$", lambda ex, st, a, i: ex.fresh("strlen")), R(r"void mlio::logger::", nop),
      R(r"std::_V2::generic_category\(\)|std::generic_category", lambda ex, st, a, i: Ptr(Obj("category", None, True), 0)), R(r"std::make_error_co", lambda ex, st, a, i: [(st, ("ret", [ex.fresh("code", 32), Ptr(Obj("category", None, True), 0)]))]),
      R(r"mlio::(Input_stream|Input_stream_base|Memory_block|Data_store)::(~)?(Input_stream|Input_stream_base|Memory_block|Data_store)\(", nop)]
STUBS = STR + OS + REFS

class FS:
    """a File_input_stream over the file; open exactly when its descriptor is not -1; its size, once known, is the file's"""
    def __init__(s, u):
        s.u = u; s.f = lambda n: field(u, "File_input_stream", n); s.this = Obj("this", s.f("__size__"), True); s.SZ = z3.BitVec("size_", 64)
    def init(s, ex, st):
        m = s.u.mods[0]; ex.store(st, Ptr(s.this, s.f("fd_")), FD, I32, m); ex.store(st, Ptr(s.this, s.f("size_")), s.SZ, I64, m); give(st, Ptr(s.this, s.f("path_")), PATH)
        st.assume(FD >= BV(M1, 32), z3.ULT(LEN, LIM), z3.ULT(POS, LIM), z3.Or(s.SZ == 0, s.SZ == LEN)); st.ghost["fd"], st.ghost["pos"] = FD, POS
        return Ptr(s.this, 0)
    def fd(s, ex, st): return bv(cell(ex, st, s.this, s.f("fd_"), I32), 32)
    def inv(s, ex, st):
        z = U(cell(ex, st, s.this, s.f("size_"), I64)); return z3.Or(z == 0, z == LEN)
    def stays(s, ex, st):
        yield "frame: the file stays open", z3.And(s.fd(ex, st) == FD, z3.BoolVal(not st.ghost.get("closed")))
        yield "invariant: the size, once known, is the file's", s.inv(ex, st)
    def thrown(s, ex, st, o):
        """a failure: only when closed or because a system call failed"""
        ex.cover("failure")
        if is_exc(o, "Stream_error"): ex.cover("closed"); yield "ensures: refused only after closing", FD == M1
        else: yield "ensures: only a failing system call is an error, reported as such", z3.And(z3.BoolVal(bool(st.ghost.get("oserr")) and is_exc(o, "system_error")), FD != M1)
        yield "ensures: an error does not move the position", st.ghost["pos"] == POS
        for x in s.stays(ex, st): yield x
    def ok(s, ex, st):
        yield "ensures: a closed stream refuses the operation", FD != M1
        yield "ensures: a failing system call is reported", z3.BoolVal(not st.ghost.get("oserr"))
        for x in s.stays(ex, st): yield x
C = r"mlio::File_input_stream::"
def spec_read(u):
    S = FS(u); N = z3.BitVec("requested", 64); D0 = z3.Array("destination0", z3.BitVecSort(64), z3.BitVecSort(8)); D = Obj("destination", N, True, mode="bytes")
    def setup(ex, st):
        t = S.init(ex, st); st.assume(z3.ULT(N, LIM)); ex.omw(st, D).arr = D0
        f = u.one(C + r"read\("); names = [n for n, _ in f.params]
        return [t, N, Ptr(D, 0)] if "coerce0" in names[1] and f.params[1][1].__class__ is ir.IntTy else [t, Ptr(D, 0), N]
    def post(ex, st, o):
        if o[0] == "throw":
            for x in S.thrown(ex, st, o): yield x
            return
        v = U(o[1]); ex.cover("bytes", v != 0); ex.cover("end", z3.And(N != 0, v == 0)); ex.cover("nothing requested", N == 0); ex.cover("short", z3.And(v != 0, z3.ULT(v, N), POS + v != LEN))
        for x in S.ok(ex, st): yield x
        yield "ensures: at most the requested bytes", z3.ULE(v, N)
        yield "ensures: the position moves by the bytes delivered", st.ghost["pos"] == POS + v
        yield "ensures: the bytes delivered are the next of the file, no other is written", z3.Select(ex.om(st, D).arr, J) == z3.If(z3.ULT(J, v), z3.Select(F, POS + J), z3.Select(D0, J))
        yield "ensures: nothing only at the end", z3.Implies(z3.And(N != 0, v == 0), z3.UGE(POS, LEN))
    return dict(name="File_input_stream::read", fn=C + r"read\(", setup=setup, post=post, covers=["failure", "closed", "bytes", "end", "nothing requested", "short"], stubs=STUBS, opts=dict(watch=[J]))
def spec_seek(u):
    S = FS(u); P = z3.BitVec("target", 64)
    def setup(ex, st): return [S.init(ex, st), P]
    def post(ex, st, o):
        if o[0] == "throw":
            for x in S.thrown(ex, st, o): yield x
            return
        ex.cover("beyond the end", z3.UGT(P, LEN)); ex.cover("inside", z3.ULT(P, LEN))
        for x in S.ok(ex, st): yield x
        yield "ensures: the given position or the end", st.ghost["pos"] == z3.If(z3.ULT(P, LEN), P, LEN)
    return dict(name="File_input_stream::seek", fn=C + r"seek\(", setup=setup, post=post, covers=["failure", "closed", "beyond the end", "inside"], stubs=STUBS)
def spec_size(u):
    S = FS(u)
    def setup(ex, st): return [S.init(ex, st)]
    def post(ex, st, o):
        if o[0] == "throw":
            for x in S.thrown(ex, st, o): yield x
            return
        ex.cover("known", S.SZ != 0); ex.cover("unknown", z3.And(S.SZ == 0, LEN != 0))
        for x in S.ok(ex, st): yield x
        yield "ensures: the size of the file", U(o[1]) == LEN
        yield "frame: the position does not change", st.ghost["pos"] == POS
    return dict(name="File_input_stream::size", fn=C + r"size\(", setup=setup, post=post, covers=["failure", "closed", "known", "unknown"], stubs=STUBS)
def spec_position(u):
    S = FS(u)
    def setup(ex, st): return [S.init(ex, st)]
    def post(ex, st, o):
        if o[0] == "throw":
            for x in S.thrown(ex, st, o): yield x
            return
        for x in S.ok(ex, st): yield x
        yield "ensures: the position of the file, unchanged", z3.And(U(o[1]) == POS, st.ghost["pos"] == POS)
    return dict(name="File_input_stream::position", fn=C + r"position\(", setup=setup, post=post, covers=["failure", "closed"], stubs=STUBS)
def spec_view(what):
    def spec(u):
        S = FS(u)
        def setup(ex, st): return [S.init(ex, st)]
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            yield f"ensures: {what} is truthful", bo(asbool(o[1])) == (FD == M1 if what == "closed" else z3.BoolVal(True)); yield "frame: nothing changes", z3.And(S.fd(ex, st) == FD, z3.BoolVal(not st.ghost.get("closed")))
        return dict(name="File_input_stream::" + what, fn=C + what + r"\(", setup=setup, post=post, stubs=STUBS)
    spec.__name__ = "spec_" + what
    return spec
def spec_close(fn):
    def spec(u):
        S = FS(u)
        def setup(ex, st): return [S.init(ex, st)]
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            n = st.ghost.get("closed", 0); ex.cover("was open", FD != M1); ex.cover("was closed", FD == M1)
            yield "ensures: an open file is closed once", z3.BoolVal(n == 1) == (FD != M1); yield "ensures: not twice", z3.BoolVal(n <= 1)
            if fn == "close": yield "ensures: the stream is closed", S.fd(ex, st) == M1
        return dict(name="File_input_stream::" + fn, fn=C + fn + r"\(\)", setup=setup, post=post, covers=["was open", "was closed"], stubs=STUBS)
    spec.__name__ = "spec_" + fn.replace("~", "dtor_")
    return spec
def spec_ctor(u):
    S = FS(u); p = Obj("path argument", 32, True)
    def setup(ex, st): ex.objs[p.id] = p; give(st, Ptr(p, 0), PATH); st.assume(z3.ULT(LEN, LIM)); return [Ptr(S.this, 0), Ptr(p, 0)]
    def post(ex, st, o):
        opened = st.ghost.get("fd") is not None
        if o[0] == "throw":
            ex.cover("failure"); yield "ensures: only an invalid path or a failing system call is an error", z3.BoolVal(bool(st.ghost.get("oserr") and is_exc(o, "system_error") or st.ghost.get("badpath") and is_exc(o, "invalid_argument")))
            yield "ensures: no file is left open", z3.BoolVal(not opened or st.ghost.get("closed") == 1); return
        ex.cover("opened")
        yield "ensures: a failing system call is reported", z3.BoolVal(not st.ghost.get("oserr")); yield "ensures: invalid paths are refused", z3.BoolVal(bool(st.ghost.get("checked")))
        yield "ensures: the stream holds the open file, at its start, with its size unknown or right", z3.And(z3.BoolVal(opened and not st.ghost.get("closed")), S.fd(ex, st) == st.ghost["fd"], st.ghost["pos"] == 0, S.inv(ex, st)) if opened else z3.BoolVal(False)
        yield "ensures: the path is kept", z3.BoolVal(text(ex, st, Ptr(S.this, S.f("path_"))) == PATH)
    return dict(name="File_input_stream::File_input_stream", fn=C + r"File_input_stream\(", setup=setup, post=post, covers=["failure", "opened"], stubs=STUBS)

# ---- mappings
def spec_map(u):
    f = lambda n: field(u, "File_mapped_memory_block", n); this = Obj("this", f("__size__"), True); p = Obj("path argument", 32, True)
    def setup(ex, st): ex.objs[p.id] = p; give(st, Ptr(p, 0), PATH); st.assume(z3.ULT(LEN, LIM)); return [Ptr(this, 0), Ptr(p, 0)]
    def post(ex, st, o):
        fd = st.ghost.get("fd"); yield "ensures: no file is left open", z3.BoolVal(fd is None or st.ghost.get("closed") == 1)
        if o[0] == "throw":
            ex.cover("failure"); yield "ensures: only an invalid path or a failing system call is an error", z3.BoolVal(bool(st.ghost.get("oserr") and is_exc(o, "system_error") or st.ghost.get("badpath") and is_exc(o, "invalid_argument"))); return
        yield "ensures: a failing system call is reported", z3.BoolVal(not st.ghost.get("oserr")); yield "ensures: invalid paths are refused", z3.BoolVal(bool(st.ghost.get("checked")))
        ex.cover("empty file", LEN == 0); ex.cover("mapped", LEN != 0)
        d = cell(ex, st, this, f("data_"), PT); n = U(cell(ex, st, this, f("size_"), I64))
        yield "ensures: exactly the size of the file", n == LEN
        m = isinstance(d, Ptr) and d.o is not None
        yield "ensures: the block exposes the file's bytes", z3.And(z3.BoolVal(m and ex.om(st, d.o).alive and getattr(d.o, "tag", "") == "mapping"), U(d.f) == 0, U(d.o.size) == n, z3.Implies(z3.ULT(J, n), z3.Select(ex.om(st, d.o).arr, J) == z3.Select(F, J))) if m else LEN == 0
    return dict(name="File_mapped_memory_block::File_mapped_memory_block", fn=r"mlio::File_mapped_memory_block::File_mapped_memory_block\(", setup=setup, post=post, covers=["failure", "empty file", "mapped"], stubs=STUBS, opts=dict(watch=[J]))
def mapped(what, empty):
    def spec(u):
        f = lambda n: field(u, "File_mapped_memory_block", n); this = Obj("this", f("__size__"), True); D = Obj("mapping", LEN, True, mode="bytes"); D.tag = "mapping"
        def setup(ex, st):
            m = u.mods[0]; ex.objs[D.id] = D; ex.store(st, Ptr(this, f("data_")), NULL if empty else Ptr(D, 0), PT, m); ex.store(st, Ptr(this, f("size_")), LEN, I64, m); st.assume(z3.ULT(LEN, LIM), LEN == 0 if empty else LEN != 0); return [Ptr(this, 0)]
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            v = o[1]
            if what.startswith("~"): yield "ensures: the mapping is given back", z3.BoolVal(empty or not ex.om(st, D).alive); return
            if what == "size": yield "ensures: the size of the file", U(v) == LEN
            else: yield "ensures: the start of the file's bytes", z3.BoolVal(isinstance(v, Ptr) and (v.o is None if empty else v.o is D and eqc(v.f, 0)))
        return dict(name=f"File_mapped_memory_block::{what} ({'empty' if empty else 'mapped'})", fn=r"mlio::File_mapped_memory_block::%s\(\)" % what, setup=setup, post=post, stubs=STUBS)
    spec.__name__ = f"spec_map_{what}_{empty}".replace("~", "dtor")
    return spec


# ---- pipe channels: the stream of one numbered FIFO.  fifo_ids_ holds, per path, the number of the next FIFO, or -1 while
# a stream has the channel (ghost 'next'); a stream that has given the channel back has the number -1
PF, ID, TO = z3.BitVec("pipe fd", 32), z3.BitVec("fifo id", 64), z3.BitVec("timeout", 64)
AGAIN, INTR = 11, 4
def seterr(ex, st, v): ex.store(st, errno(ex, st, [], None), v, I32, ex.unit.mods[0])
def geterr(ex, st): return bv(ex.load(st, errno(ex, st, [], None), I32, ex.unit.mods[0]), 32)
def pread(ex, st, a, i):
    """read of a FIFO: what there is, nothing at the end, EAGAIN if there may be more later, or a failure"""
    r = read(ex, st, a, i); e = r[1][0]; ag = e.copy(); ag.ghost["oserr"] = st.ghost.get("oserr", 0); ag.ghost["again"] = ag.ghost.get("again", 0) + 1
    seterr(ex, ag, AGAIN); c = ex.fresh("errno", 32); e.assume(c != AGAIN, c > 0); seterr(ex, e, c)
    return r + [(ag, ("ret", L1))]
class Chan:
    def __init__(s, u):
        s.u = u; s.f = lambda n: field(u, "Sagemaker_pipe_input_stream", n); s.this = Obj("this", s.f("__size__"), True); s.next = Obj("channel", 8, True); s.N0 = z3.BitVec("next0", 64)
    def init(s, ex, st, held=True):
        m = s.u.mods[0]; ex.store(st, Ptr(s.this, s.f("fifo_fd_")), PF, I32, m); ex.store(st, Ptr(s.this, s.f("fifo_id_")), ID, I64, m); ex.store(st, Ptr(s.this, s.f("timeout_")), TO, I64, m); give(st, Ptr(s.this, s.f("path_")), PATH)
        ex.objs[s.next.id] = s.next; ex.store(st, Ptr(s.next, 0), s.N0, I64, m)
        # an open stream has the channel; one that has it has a number
        st.assume(PF >= BV(M1, 32), z3.ULT(LEN, LIM), z3.ULT(POS, LIM), ID >= -1, s.N0 >= -1, ID < BV(1 << 62, 64), z3.Implies(PF != M1, ID != -1), z3.Implies(ID != -1, s.N0 == -1)); st.ghost["fd"], st.ghost["pos"] = PF, POS
        return Ptr(s.this, 0)
    def stubs(s):
        def at(ex, st, a, i): ex.oblige(st, "requires: the channel of this stream's path", z3.BoolVal(text(ex, st, a[1]) == PATH)); return Ptr(s.next, 0)
        return [R(r"std::unordered_map<.*>::operator\[\]\(", at), R(r"std::this_thread::", nop), R(r"^(nanosleep|sched_yield|usleep)$", lambda ex, st, a, i: ex.fresh("slept", 32)), R(r"std::this_thread::yield|std::(_V2::)?(system|generic)_category", lambda ex, st, a, i: Ptr(Obj("category", None, True), 0)), R(r"^read$", pread)]
    def fd(s, ex, st): return bv(cell(ex, st, s.this, s.f("fifo_fd_"), I32), 32)
    def id(s, ex, st): return U(cell(ex, st, s.this, s.f("fifo_id_"), I64))
    def chan(s, ex, st): return U(cell(ex, st, s.next, 0, I64))
    def same(s, ex, st): return z3.And(s.fd(ex, st) == PF, s.id(ex, st) == ID, s.chan(ex, st) == s.N0, z3.BoolVal(not st.ghost.get("closed")))
PC = r"mlio::Sagemaker_pipe_input_stream::"
def wait(ex, st, a, i):
    """contract of wait_for_data (below)"""
    if "waited" in st.ghost: st.ghost["waited"] = BV(1, 8)
    e = st.copy(); e.ghost["oserr"] = e.ghost.get("oserr", 0) + 1; return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt12system_error")))]
WAIT = R(PC + r"wait_for_data\(", wait)
def spec_pipe_read(u):
    S = Chan(u); N = z3.BitVec("requested", 64); D0 = z3.Array("destination0", z3.BitVecSort(64), z3.BitVecSort(8)); D = Obj("destination", N, True, mode="bytes")
    def setup(ex, st):
        t = S.init(ex, st); st.ghost["waited"] = BV(0, 8); st.assume(z3.ULT(N, LIM)); ex.omw(st, D).arr = D0
        f = u.one(PC + r"read\("); return [t, N, Ptr(D, 0)] if f.params[1][1].__class__ is ir.IntTy else [t, Ptr(D, 0), N]
    def cands(sn):
        g = sn.st.ghost; r = [("position kept", g["pos"] == POS), ("nothing written", z3.Select(sn.ex.om(sn.st, D).arr, J) == z3.Select(D0, J))]
        for n, (v, w) in sn.ints.items():
            if w == 32: r += [(f"{n}<={k}", z3.And(bv(v, 32) >= 0, bv(v, 32) <= k)) for k in (1, 2)] + [(f"{n}<=1 or waited", z3.Or(bv(v, 32) <= 1, g["waited"] == 1))]
        return r
    def post(ex, st, o):
        yield "frame: the stream keeps its FIFO and its channel", S.same(ex, st)
        if o[0] == "throw":
            ex.cover("failure")
            if is_exc(o, "Stream_error"): ex.cover("closed"); yield "ensures: refused only after closing", PF == M1
            else: yield "ensures: only a failing system call is an error, reported as such", z3.And(z3.BoolVal(is_exc(o, "system_error")), PF != M1, z3.Or(z3.BoolVal(bool(st.ghost.get("oserr"))), st.ghost["waited"] == 1))
            yield "ensures: no bytes are lost by an error", st.ghost["pos"] == POS; return
        v = U(o[1]); ex.cover("bytes", v != 0); ex.cover("end", z3.And(N != 0, v == 0)); ex.cover("nothing requested", N == 0)
        yield "ensures: a closed stream refuses the operation", PF != M1
        yield "ensures: a failing system call is reported", z3.BoolVal(not st.ghost.get("oserr"))
        yield "ensures: at most the requested bytes, the position moves by them", z3.And(z3.ULE(v, N), st.ghost["pos"] == POS + v)
        yield "ensures: the bytes delivered are the next of the FIFO, no other is written", z3.Select(ex.om(st, D).arr, J) == z3.If(z3.ULT(J, v), z3.Select(F, POS + J), z3.Select(D0, J))
        yield "ensures: nothing only at the end", z3.Implies(z3.And(N != 0, v == 0), z3.UGE(POS, LEN))
    return dict(name="Sagemaker_pipe_input_stream::read", fn=PC + r"read\(", setup=setup, post=post, cands=[cands], covers=["failure", "closed", "bytes", "end", "nothing requested"], stubs=S.stubs() + [WAIT] + STUBS, opts=dict(watch=[J]))
def spec_wait(u):
    S = Chan(u)
    MAX = BV(((1 << 31) - 1) // 1000, 64); T = z3.If(TO < 0, BV(0, 64), z3.If(TO > MAX, MAX, TO)) * 1000
    def poll(ex, st, a, i):
        p = a[0]; ok = isinstance(p, Ptr) and p.o is not None; mine(ex, st, ex.load(st, p, I32, u.mods[0]) if ok else M1)
        ev = ex.load(st, Ptr(p.o, add(p.f, 4)), ir.IntTy(16), u.mods[0]); ex.oblige(st, "requires: it waits for data of this one file", z3.And(bv(ev, 16) & 1 == 1, U(a[1]) == 1))
        t = z3.SignExt(32, bv(a[2], 32)); ex.oblige(st, "requires: the time limit is the stream's timeout, or what is left of it after a signal", z3.And(t >= 0, t <= T, z3.Or(t == T, st.ghost["intr"] == 1)))
        e, n, k = error(st), st.copy(), st.copy(); c = ex.fresh("errno", 32); e.assume(c != INTR, c > 0); seterr(ex, e, c); n.ghost["timeout"] = True; seterr(ex, k, INTR); k.ghost["intr"] = BV(1, 8)
        r = ex.fresh("ready", 32); st.assume(r > 0)
        return [(st, ("ret", r)), (n, ("ret", 0)), (e, ("ret", M1)), (k, ("ret", M1))]
    def now(ex, st, a, i):
        t = ex.fresh("now"); st.assume(t >= st.ghost["now"], t < BV(1 << 62, 64)); st.ghost["now"] = t; return t
    def cands(sn):
        r = [("clock", z3.And(sn.st.ghost["now"] >= 0, sn.st.ghost["now"] < BV(1 << 62, 64)))]
        for n, (v, w) in sn.ints.items():
            if w == 64: v = bv(v, 64); r += [(f"{n}<=T", z3.And(v >= 0, v <= T)), (f"{n}==T", v == T), (f"{n}==T or interrupted", z3.Or(v == T, sn.st.ghost["intr"] == 1)), (f"{n}<=now", z3.And(v >= 0, v <= sn.st.ghost["now"]))]
        return r
    def setup(ex, st): st.assume(PF != M1); st.ghost["now"], st.ghost["intr"] = BV(0, 64), BV(0, 8); return [S.init(ex, st, True)]
    def post(ex, st, o):
        yield "frame: the stream keeps its FIFO and its channel", z3.And(S.same(ex, st), st.ghost["pos"] == POS)
        g = st.ghost
        if o[0] == "throw": ex.cover("timeout" if g.get("timeout") else "failure"); yield "ensures: only a timeout or a failing system call is an error", z3.BoolVal(bool(g.get("oserr") or g.get("timeout")) and is_exc(o, "system_error")); return
        ex.cover("ready"); yield "ensures: a timeout or failure is reported", z3.BoolVal(not g.get("oserr") and not g.get("timeout"))
    return dict(name="Sagemaker_pipe_input_stream::wait_for_data", fn=PC + r"wait_for_data\(", setup=setup, post=post, cands=[cands], covers=["timeout", "failure", "ready"], stubs=S.stubs() + [R(r"^poll$", poll), R(r"std::chrono::_V2::steady_clock::now\(\)", now)] + STUBS)
def spec_pipe_close(fn):
    def spec(u):
        S = Chan(u)
        def setup(ex, st): return [S.init(ex, st)]
        def post(ex, st, o):
            if o[0] == "throw": yield "ensures: no error", False; return
            n = st.ghost.get("closed", 0); ex.cover("open", PF != M1); ex.cover("closed before", ID == -1)
            yield "ensures: an open FIFO is closed once", z3.And(z3.BoolVal(n == 1) == (PF != M1), z3.BoolVal(n <= 1))
            yield "ensures: the channel is given back with its next number, once", S.chan(ex, st) == z3.If(ID != -1, ID, S.N0)
            if fn == "close": yield "ensures: the stream is closed and no longer has the channel", z3.And(S.fd(ex, st) == M1, S.id(ex, st) == -1)
        return dict(name="Sagemaker_pipe_input_stream::" + fn, fn=PC + fn + r"\(\)", setup=setup, post=post, covers=["open", "closed before"], stubs=S.stubs() + STUBS)
    spec.__name__ = "spec_pipe_" + fn.replace("~", "dtor_")
    return spec
def spec_pipe_ctor(u):
    S = Chan(u); p = Obj("path argument", 32, True); GIVEN, HAS = z3.BitVec("given id", 64), z3.BitVec("id given", 8)
    def setup(ex, st):
        ex.objs[p.id] = p; give(st, Ptr(p, 0), PATH); S.init(ex, st); give(st, Ptr(S.this, S.f("path_")), None); st.assume(z3.ULE(HAS, BV(1, 8)), z3.ULT(GIVEN, BV(1 << 62, 64)))
        return [Ptr(S.this, 0), Ptr(p, 0), TO, GIVEN, HAS]
    def post(ex, st, o):
        if o[0] == "throw":
            ex.cover("refused"); yield "ensures: only an invalid path or a channel that another stream has is refused", z3.If(z3.BoolVal(bool(st.ghost.get("badpath"))), z3.BoolVal(is_exc(o, "invalid_argument")), z3.And(S.N0 == -1, z3.BoolVal(is_exc(o, "system_error"))))
            yield "ensures: the channel is as before", S.chan(ex, st) == S.N0; return
        ex.cover("given", HAS == 1); ex.cover("next", HAS == 0)
        yield "ensures: a channel that another stream has is refused", S.N0 != -1
        yield "ensures: the stream has the channel, with its next number or the given one", z3.And(S.chan(ex, st) == -1, S.id(ex, st) == z3.If(HAS == 1, GIVEN, S.N0))
        yield "ensures: no FIFO is open yet", S.fd(ex, st) == M1; yield "ensures: the timeout and the path are kept", z3.And(U(cell(ex, st, S.this, S.f("timeout_"), I64)) == TO, z3.BoolVal(text(ex, st, Ptr(S.this, S.f("path_"))) == PATH))
    return dict(name="Sagemaker_pipe_input_stream::Sagemaker_pipe_input_stream", fn=PC + r"Sagemaker_pipe_input_stream\(std", setup=setup, post=post, covers=["refused", "given", "next"], stubs=S.stubs() + STUBS)
def spec_open_fifo(u):
    S = Chan(u)
    def fmt(ex, st, a, i):
        give(st, a[0], None)
        k = [text(ex, st, x) for x in a[1:] if isinstance(x, Ptr)]; n = [x for x in a[1:] if isinstance(x, Ptr) and x.o is S.this and eqc(x.f, S.f("fifo_id_"))]
        if PATH in k and n: give(st, a[0], ("fifo", st.ghost["ids"]))
    def opn(ex, st, a, i):
        ex.oblige(st, "requires: the FIFO of the channel with the stream's number", z3.And(z3.BoolVal(isinstance(text(ex, st, a[0]), tuple)), S.id(ex, st) == ID))
        ex.oblige(st, "requires: opened for reading without waiting", z3.BoolVal(is_c(a[1]) and a[1] & 3 == 0 and bool(a[1] & 0o4000) and not a[1] & 0o1100))
        e = error(st); st.ghost["fd"] = ex.fresh("fd", 32); st.assume(st.ghost["fd"] >= 0); st.ghost["pos"] = BV(0, 64)
        return [(st, ("ret", st.ghost["fd"])), (e, ("ret", M1))]
    def setup(ex, st): t = S.init(ex, st); st.assume(PF == M1, ID != -1); st.ghost["fd"] = None; st.ghost["ids"] = 0; return [t]
    def cands(sn):
        r = [("closed", S.fd(sn.ex, sn.st) == M1), ("number kept", S.id(sn.ex, sn.st) == ID), ("channel kept", S.chan(sn.ex, sn.st) == -1)]
        for n, (v, w) in sn.ints.items():
            if w == 32: r += [(f"{n}<={k}", z3.And(bv(v, 32) >= 0, bv(v, 32) <= k)) for k in (1, 2)]
        return r
    def post(ex, st, o):
        yield "frame: the stream keeps its channel", S.chan(ex, st) == -1
        if o[0] == "throw":
            ex.cover("failure"); yield "ensures: only a failing system call is an error, reported as such", z3.BoolVal(bool(st.ghost.get("oserr")) and is_exc(o, "system_error"))
            yield "ensures: the number does not fall back", z3.And(S.id(ex, st) - ID >= 0, S.id(ex, st) - ID <= 1); return
        ex.cover("opened")
        if st.ghost.get("fd") is None: yield "ensures: a FIFO is open", False; return
        yield "ensures: the FIFO is open and the next number is due", z3.And(S.fd(ex, st) == st.ghost["fd"], S.id(ex, st) == ID + 1, z3.BoolVal(not st.ghost.get("closed")))
    return dict(name="Sagemaker_pipe_input_stream::open_fifo", fn=PC + r"open_fifo\(", setup=setup, post=post, cands=[cands], covers=["failure", "opened"], stubs=S.stubs() + [WAIT, R(r"^open(64)?$", opn), R(r"(std::basic_string<.*> )?fmt::.*format<", fmt)] + STUBS)

# ---- the data stores: what they open
def made(cls, arg):
    def h(ex, st, a, i):
        o = ex.new_obj(st, cls, None, lazy=True); st.ghost[("is", o.id)] = (cls, arg(ex, st, a[1:])); ex.store(st, a[0], Ptr(o, 0), PT, ex.unit.mods[0])
        e = st.copy(); e.ghost["oserr"] = 1
        return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTISt12system_error")))]
    return R(r"mlio::Intrusive_ptr<mlio::%s> mlio::make_intrusive<mlio::%s," % (cls, cls), h)
def kind(ex, st, p):
    v = ex.load(st, p, PT, ex.unit.mods[0]); return st.ghost.get(("is", v.o.id)) if isinstance(v, Ptr) and v.o is not None else None
def inner(ex, st, a):
    k = kind(ex, st, a[0]); ex.store(st, a[0], NULL, PT, ex.unit.mods[0]); return k
def inflate(ex, st, a, i):
    """contract of make_inflate_stream (below)"""
    k = kind(ex, st, a[1]); ex.store(st, a[1], NULL, PT, ex.unit.mods[0]); o = ex.new_obj(st, "inflate", None, lazy=True); st.ghost[("is", o.id)] = ("inflate", k); st.ghost["by"] = bv(a[2], 32); ex.store(st, a[0], Ptr(o, 0), PT, ex.unit.mods[0])
    e = st.copy(); e.ghost["oserr"] = 1
    return [(st, ("ret", None)), (e, ("throw", Thrown("_ZTI5other")))]
MAKE = [made("File_mapped_memory_block", lambda ex, st, a: text(ex, st, a[0])), made("File_input_stream", lambda ex, st, a: text(ex, st, a[0])), made("Memory_input_stream", lambda ex, st, a: inner(ex, st, a)), R(r"mlio::make_inflate_stream\(", inflate)]
COMP = z3.BitVec("compression", 32); MM = z3.BitVec("memory_map", 8)
def spec_open(u):
    f = lambda n: field(u, "File", n); this = Obj("this", f("__size__"), True); out = outobj("result", 8)
    def setup(ex, st):
        m = u.mods[0]; give(st, Ptr(this, f("path_")), PATH); ex.store(st, Ptr(this, f("memory_map_")), MM, I8, m); ex.store(st, Ptr(this, f("compression_")), COMP, I32, m); st.assume(z3.ULE(MM, BV(1, 8)))
        return args_of(u, r"mlio::File::open_read\(\)", {"agg.result": Ptr(out, 0), "this": Ptr(this, 0)})
    def post(ex, st, o):
        if o[0] == "throw": ex.cover("failure"); yield "ensures: only opening fails", z3.BoolVal(bool(st.ghost.get("oserr"))); return
        yield "ensures: a failure is reported", z3.BoolVal(not st.ghost.get("oserr"))
        k = kind(ex, st, Ptr(out, 0))
        if k is None: yield "ensures: a stream", False; return
        z = bool(k[0] == "inflate")
        yield "ensures: decompressed exactly when the file is compressed", (COMP != NOCOMP(u)) == z3.BoolVal(z)
        if z: yield "ensures: decompressed as it was compressed", st.ghost["by"] == COMP; k = k[1]
        ex.cover(f"{k[0] if k else None}{', inflated' if z else ''}")
        yield "ensures: a stream over the named file", z3.BoolVal(k in (("File_input_stream", PATH), ("Memory_input_stream", ("File_mapped_memory_block", PATH))))
        yield "ensures: mapped exactly when asked", (MM == 1) == z3.BoolVal(k[0] == "Memory_input_stream")
    return dict(name="File::open_read", fn=r"mlio::File::open_read\(\)", setup=setup, post=post, covers=["failure"] + [a + b for a in ("File_input_stream", "Memory_input_stream") for b in ("", ", inflated")], stubs=STUBS + MAKE)
def NOCOMP(u): return BV(0, 32)
def specs(u):
    return [spec_ctor, spec_read, spec_seek, spec_size, spec_position, spec_view("closed"), spec_view("seekable"), spec_close("close"), spec_close("~File_input_stream"), spec_map] + \
           [mapped(w, e) for w in ("~File_mapped_memory_block", "size", "data") for e in (False, True)] + [spec_open, spec_pipe_read, spec_wait, spec_pipe_close('close'), spec_pipe_close('~Sagemaker_pipe_input_stream'), spec_pipe_ctor, spec_open_fifo]
HARNESS = dict(file="P30.cc", srcs=build.core, secs=6)
NOTE = "file streams, mapped blocks, file stores and SageMaker pipe streams are proved over the documented contracts of the system calls, for every file, position, request and failure."
ASSUME = ["the documented contracts of open, read, lseek, fstat, mmap, munmap, close, poll and errno", "files are smaller than 2^46 bytes and do not change while they are open",
          "std::unordered_map::operator[] and std::string by their library contracts; the FIFO's name is followed through fmt::format by its arguments (the harness opens real FIFOs)"]
