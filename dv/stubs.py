"""Assumed contracts of code outside the verified functions: the C++ run time,
libstdc++ and other libraries.  Each one is listed in the evidence."""
import re, z3
from .sym import *
from . import ir

I8, I64, PT = ir.IntTy(8), ir.IntTy(64), ir.PTR

def nop(ex, st, args, inst): return None
def ret0(ex, st, args, inst): return args[0] if args else None

def cxa_alloc(ex, st, args, inst):
    o = ex.new_obj(st, "exception", None); o.lazy = False
    return Ptr(o, 0)
def cxa_throw(ex, st, args, inst):
    ti = args[1]
    ty = ti.o.gname if isinstance(ti, Ptr) and ti.o is not None else None
    return [(st, ("throw", Thrown(ty, args[0].o)))]
def cxa_rethrow(ex, st, args, inst):
    e = st.caught[-1] if st.caught else st.exc
    return [(st, ("throw", e))]
def cxa_begin_catch(ex, st, args, inst):
    st.caught.append(st.exc)
    return args[0]
def cxa_end_catch(ex, st, args, inst):
    if st.caught: st.caught.pop()
    return None
def thrower(ty):
    def h(ex, st, args, inst):
        return [(st, ("throw", Thrown(ty)))]
    return h
def forbidden(what):
    def h(ex, st, args, inst):
        ex.oblige(st, f"safety:{what} ({ex.where(st)})", False)
        raise PathEnd()
    return h
def op_new(ex, st, args, inst):
    n = args[0]
    o = ex.new_obj(st, "new", n)
    return Ptr(o, 0)
def op_delete(ex, st, args, inst):
    p = args[0]
    if isinstance(p, Ptr) and p.o is not None:
        m = ex.om(st, p.o)
        if not m.alive and p.o.nullc is None:
            ex.oblige(st, "safety:no double free", False)
        if p.o.nullc is None:
            ex.omw(st, p.o).alive = False
    return None
def opaque_string(ex, st, args, inst):
    """returns a string object through the sret pointer"""
    return None

# --- std::string, layout {char *p; size_t n; ...}
def str_obj(ex, st, p):
    """(buffer Obj, length) of the std::string at p; the buffer is a byte array"""
    d = ex.load(st, p, PT)
    n = ex.load(st, Ptr(p.o, add(p.f, 8)), I64)
    return d, n
def str_init(ex, st, p, name="str", n=0, arr=None, size=None):
    o = ex.new_obj(st, name, None, mode="bytes")
    m = ex.omw(st, o)
    m.arr = arr if arr is not None else z3.K(z3.BitVecSort(64), BV(0, 8))
    ex.store(st, p, Ptr(o, 0), PT); ex.store(st, Ptr(p.o, add(p.f, 8)), n, I64)
    return o
def str_clear(ex, st, args, inst):
    p = args[0]
    ex.store(st, Ptr(p.o, add(p.f, 8)), 0, I64)
def str_size(ex, st, args, inst): return str_obj(ex, st, args[0])[1]
def str_empty(ex, st, args, inst): return simp(eq(str_obj(ex, st, args[0])[1], 0))
def str_data(ex, st, args, inst): return str_obj(ex, st, args[0])[0]
def str_push(ex, st, args, inst):
    p, c = args
    d, n = str_obj(ex, st, p)
    m = ex.omw(st, d.o)
    if m.mode != "bytes": raise Unsupported("string buffer mode")
    m.arr = z3.Store(m.arr, bv(add(d.f, n), 64), bv(c, 8))
    ex.store(st, Ptr(p.o, add(p.f, 8)), add(n, 1), I64)
def str_index(ex, st, args, inst):
    d, n = str_obj(ex, st, args[0])
    ex.oblige(st, f"safety:string index in range ({ex.where(st)})", ule(args[1], n))
    return Ptr(d.o, add(d.f, args[1]))
def str_begin(ex, st, args, inst): return str_obj(ex, st, args[0])[0]
def str_end(ex, st, args, inst):
    d, n = str_obj(ex, st, args[0]); return Ptr(d.o, simp(add(d.f, n)))
def str_view(ex, st, args, inst):
    d, n = str_obj(ex, st, args[0]); return [n, d]

S = r"std::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
def R(rx, h): return (re.compile(rx), h)

RUNTIME = [
    R(r"__cxa_allocate_exception$", cxa_alloc), R(r"__cxa_free_exception$", nop),
    R(r"__cxa_throw$", cxa_throw), R(r"__cxa_rethrow$", cxa_rethrow),
    R(r"__cxa_begin_catch$", cxa_begin_catch), R(r"__cxa_end_catch$", cxa_end_catch),
    R(r"__cxa_get_exception_ptr$", ret0),
    R(r"__clang_call_terminate$", forbidden("std::terminate is not called")),
    R(r"std::terminate\(", forbidden("std::terminate is not called")),
    R(r"std::__glibcxx_assert_fail", forbidden("library precondition (__glibcxx_assert)")),
    R(r"__cxa_pure_virtual", forbidden("no pure virtual call")),
    R(r"abort$", forbidden("abort is not called")), R(r"__assert_fail$", forbidden("assertion")),
    R(r"std::__throw_bad_alloc", thrower("_ZTISt9bad_alloc")),
    R(r"std::__throw_bad_array_new_length", thrower("_ZTISt20bad_array_new_length")),
    R(r"std::__throw_length_error", thrower("_ZTISt12length_error")),
    R(r"std::__throw_out_of_range", thrower("_ZTISt12out_of_range")),
    R(r"std::__throw_logic_error", thrower("_ZTISt11logic_error")),
    R(r"std::__throw_invalid_argument", thrower("_ZTISt16invalid_argument")),
    R(r"std::__throw_bad_optional_access", thrower("_ZTISt19bad_optional_access")),
    R(r"std::__throw_bad_function_call", thrower("_ZTISt17bad_function_call")),
    R(r"operator new(\[\])?\(unsigned long\)", op_new),
    R(r"operator delete(\[\])?\(void\*", op_delete),
]
EXC = r"(std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|exception|system_error|bad_alloc)|mlio::(detail::)?\w*[Ee]rror|mlio::\w*_exception)"
EXCEPTIONS = [
    R(EXC + r"::(\w+)\(", nop), R(EXC + r"::~", nop),
    R(r"fmt::.*(v?format|make_format_args|format_arg_store|basic_format_args|basic_memory_buffer|to_string)", nop),
    R(r"(std::basic_string.* )?fmt::", nop),
    R(r"std::(runtime_error|logic_error)::", nop),
    R(r"void mlio::logger::", nop), R(r"mlio::logger::", nop),
]
STRING = [
    R(S + r"clear\(", str_clear), R(S + r"push_back\(char\)", str_push),
    R(S + r"(size|length)\(\) const", str_size), R(S + r"empty\(\) const", str_empty),
    R(S + r"(data|c_str)\(\)", str_data), R(S + r"operator\[\]\(", str_index),
    R(S + r"c?begin\(\)", str_begin), R(S + r"c?end\(\)", str_end),
    R(S + r"operator std::basic_string_view", str_view),
    R(S + r"~basic_string", nop),
]
DEFAULT = RUNTIME + EXCEPTIONS + STRING
