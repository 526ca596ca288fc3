import os
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field, VERIF
from checks.p19 import setvec, vec_of

SRCS = ["src/mlio/integ/dlpack.cc", "src/mlio/tensor.cc", "src/mlio/tensor_visitor.cc", "src/mlio/cpu_array.cc", os.path.join(VERIF, "harness/ir/dlpack.cc")]
U = lambda x: bv(x, 64)
I1 = lambda b: z3.BoolVal(bool(b))
VERSION, KIND, DT, ID, RANK, NSTR, DSIZE, REF = z3.BitVec("version", 64), z3.BitVec("tensor kind", 8), z3.BitVec("data type", 32), z3.BitVec("device id", 64), z3.BitVec("rank", 64), z3.BitVec("number of strides", 64), z3.BitVec("data size", 64), z3.BitVec("reference count", 64); CPU = z3.Bool("the device is the CPU")
DENSE, COO, CSR = 0, 1, 2; NAMES = ["Dense_tensor", "Coo_tensor", "Csr_tensor"]
# element types: DLPack code (0 signed, 1 unsigned, 2 float) and bits
TYPES = {0: (1, 64), 1: (2, 16), 2: (2, 32), 3: (2, 64), 4: (0, 8), 5: (0, 16), 6: (0, 32), 7: (0, 64), 8: (1, 8), 9: (1, 16), 10: (1, 32), 11: (1, 64)}
class World:
    """a tensor of the given kind with arbitrary element type, rank, shape, strides, data and device"""
    def __init__(s, u, kind):
        s.u, s.kind, s.name = u, kind, NAMES[kind]; s.t = Obj("tensor", field(u, s.name, "__size__"), True); s.shape, s.str = Obj("shape data", None, True), Obj("stride data", None, True); s.arr, s.data, s.cpu = Obj("array", None, True), Obj("data", None, True), Obj("CPU", 3, True); s.name_ = Obj("device kind name", None, True)
    def init(s, ex, st):
        u, m = s.u, s.u.mods[0]; T = lambda n: field(u, "Tensor", n)
        for o in (s.t, s.shape, s.str, s.arr, s.data, s.cpu, s.name_): ex.objs[o.id] = o
        vinit(ex, st, s.t, s.name); vinit(ex, st, s.arr, "Device_array"); ex.bounded(st, RANK, NSTR); st.assume(z3.ULE(RANK, BV((1 << 31) - 1, 64)), NSTR == RANK, z3.ULE(DT, BV(12, 32)), REF >= 1, z3.ULT(REF, BV(1 << 62, 64)))
        ex.store(st, Ptr(s.t, T("data_type_")), DT, ir.IntTy(32), m)
        setvec(ex, st, Ptr(s.t, T("shape_")), s.shape, RANK); setvec(ex, st, Ptr(s.t, T("strides_")), s.str, NSTR); st.ghost["ref"] = REF; st.ghost["lock"] = 0
        ex.store(st, Ptr(s.t, field(u, s.name, "data_")), Ptr(s.arr, 0), PT, m)
    def opts(s):
        u = s.u; f = lambda rx: u.one(rx)
        def accept(ex, st, a, inst):
            return [(st, ("push", u.one(rf"mlio::{s.name}::accept\(mlio::Tensor_visitor&\)$"), a))]
        def device(ex, st, a, inst):
            p = a[0]; m = u.mods[0]; n = Obj("device kind name", None, True)
            ex.store(st, Ptr(p.o, add(p.f, field(u, "Device", "kind_"))), z3.BitVec("name size", 64), I64, m); ex.store(st, Ptr(p.o, add(p.f, field(u, "Device", "kind_") + 8)), Ptr(s.name_, 0), PT, m); ex.store(st, Ptr(p.o, add(p.f, field(u, "Device", "id_"))), ID, I64, m)
        tab = {s.name: vtable(u, s.name), "Device_array": vtable_of(u)}
        return dict(virtual=dispatch(tab, {s.name: [(r"::accept\(.*\)$", accept)], "Device_array": [(r"::device\(\)", device), (r"::data\(\)", lambda ex, st, a, i: Ptr(s.data, 0)), (r"::size\(\)", lambda ex, st, a, i: DSIZE)]}))
    def stubs(s):
        u = s.u
        def cpu(ex, st, a, i): return [(st, ("ret", [BV(3, 64), Ptr(s.cpu, 0)]))]
        def same(ex, st, a, i):
            """device kinds are equal when their names are"""
            ps = [cell(ex, st, p.o, add(p.f, 8), PT) for p in a[:2]]
            os_ = [p.o for p in ps]
            if set(map(id, os_)) != {id(s.cpu), id(s.name_)}: raise ir.Unsupported("comparison of other device kinds")
            return CPU
        def inc(ex, st, a, i): ok(ex, st, a); st.ghost["ref"] = st.ghost["ref"] + 1
        def dec(ex, st, a, i): ok(ex, st, a); st.ghost["ref"] = st.ghost["ref"] - 1
        def ok(ex, st, a): ex.oblige(st, "requires: the counted reference is the tensor's", I1(isinstance(a[0], Ptr) and a[0].o is s.t))
        return [R(r"mlio::Device_kind::cpu\(\)", cpu), R(r"mlio::operator==\(mlio::Device_kind const&", same), R(r"mlio::intrusive_ptr_inc_ref\(", inc), R(r"mlio::intrusive_ptr_dec_ref\(", dec)]
def vtable_of(u):
    """slots of the abstract class Device_array as its concrete classes lay them out"""
    return vtable(u, "Cpu_array", r"Cpu_array<")
def version(u):
    """DLPACK_VERSION of the installed header"""
    for m in u.mods:
        for n, g in m.globals.items():
            if "verif_dlpack_version" in n and g.init is not None: return BV(int(g.init.v), 64)
    raise ir.Unsupported("DLPACK_VERSION")
def representable(kind): return z3.And(I1(kind == DENSE), CPU, DT != 12)
def check(ex, st, W, p):
    """what the consumer sees"""
    u = W.u; g = lambda off, t: cell(ex, st, p.o, add(p.f, off), t); I32 = ir.IntTy(32)
    DL = dict(data=0, ctx=8, ndim=16, dtype=20, shape=24, strides=32, byte_offset=40).__getitem__; d = 0      # DLPack's C ABI
    v = g(d + DL("data"), PT); yield "ensures: the data pointer is the tensor's", I1(isinstance(v, Ptr) and v.o is W.data and eqc(simp(v.f), 0)); yield "ensures: no offset into the data", U(g(d + DL("byte_offset"), I64)) == 0
    c, b, l = (bv(g(d + DL("dtype") + k, t), w) for k, t, w in ((0, I8, 8), (1, I8, 8), (2, ir.IntTy(16), 16)))
    yield "ensures: the element type is the tensor's", z3.And(l == 1, *[z3.Implies(DT == k, z3.And(c == cc, b == bb)) for k, (cc, bb) in TYPES.items()])
    yield "ensures: the rank is the tensor's", bv(g(d + DL("ndim"), I32), 32) == z3.Extract(31, 0, RANK)
    ctx = "ctx"; yield "ensures: the device is the CPU with its number", z3.And(bv(g(d + DL(ctx), I32), 32) == 1, bv(g(d + DL(ctx) + 4, I32), 32) == z3.Extract(31, 0, ID))
    for n, o, k in (("shape", W.shape, RANK), ("strides", W.str, NSTR)):
        v = g(d + DL(n), PT); isnull = v is NULL or (isinstance(v, Ptr) and v.o is None) or (not isinstance(v, Ptr))
        yield f"ensures: the {n} are the tensor's", k == 0 if isnull else I1(isinstance(v, Ptr) and v.o is o and eqc(simp(v.f), 0))
def spec_export(kind):
    def mk(u):
        fn = r"mlio::as_dlpack\("; W = World(u, kind)
        def setup(ex, st): W.init(ex, st); return args_of(u, fn, {0: Ptr(W.t, 0), 1: VERSION})
        def post(ex, st, out):
            ok = representable(kind)
            if out[0] == "throw":
                ex.cover("refused"); yield "ensures: refused only when it cannot be represented", z3.Or(z3.Not(ok), VERSION != version(u)); yield "ensures: a refusal is an error of its kind", I1(is_exc(out, "Not_supported_error", "invalid_argument")); yield "ensures: nothing is kept after a refusal", st.ghost["ref"] == REF; return
            ex.cover("exported"); yield "ensures: a tensor that cannot be represented is refused", ok; p = out[1]
            yield "ensures: a managed tensor is returned", I1(isinstance(p, Ptr) and p.o is not None and ex.om(st, p.o).alive)
            yield from check(ex, st, W, p)
            yield "ensures: the consumer holds one reference of the tensor", st.ghost["ref"] == REF + 1
        return dict(name=f"as_dlpack of a {NAMES[kind]}", fn=fn, setup=setup, post=post, covers=["refused"] + (["exported"] if kind == DENSE else []), stubs=W.stubs(), opts=W.opts(), budget=60)
    mk.__name__ = f"spec_export_{NAMES[kind]}"; return mk
def spec_release(u):
    fn = r"verif_export_and_release\("; W = World(u, DENSE)
    def setup(ex, st): W.init(ex, st); st.assume(representable(DENSE)); return args_of(u, fn, {0: Ptr(W.t, 0)})
    def post(ex, st, out):
        if out[0] == "throw": yield "ensures: no error", False; return
        ex.cover("released"); yield "ensures: the deleter gives back the one reference", st.ghost["ref"] == REF
        live = [o for o in ex.objs.values() if o.name.startswith("new") and o.id in st.mem and st.mem[o.id].alive] if hasattr(st, "mem") else []
        yield "ensures: everything allocated for the export is released", I1(not live)
    return dict(name="export and deleter", fn=fn, setup=setup, post=post, covers=["released"], stubs=W.stubs(), opts=W.opts(), budget=60)
def specs(u): return [spec_export(k) for k in (DENSE, COO, CSR)] + [spec_release]
HARNESS = dict(file="P26.cc", srcs=lambda: build.core() + ["src/mlio/integ/dlpack.cc"], secs=5)
NOTE = "the export and the deleter are proved for every kind of tensor, element type, rank, shape, strides, device and version; the reference counter itself is P15's."
ASSUME = ["device kinds are equal when their names are", "Device_array::data and device return the array's data and device", "the address of an empty shape or stride list is null or the list's", "DLPack's published C layout of DLTensor and DLManagedTensor"]
