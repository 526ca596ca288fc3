"""Symbolic values, memory and path executor over the IR of the real code.

Function bodies are executed symbolically, path by path; calls are inlined when
the callee's body is in the compiled unit and no contract is given for it, and
replaced by the contract otherwise.  Every loop is cut at its header with an
invariant (inferred by Houdini from candidate templates, see engine.py), so no
iteration count bounds anything.  Machine integers are exact bit-vectors."""
import z3, subprocess, re, sys, time, threading
z3.set_param("rewriter.bv_le2extract", False)      # comparisons stay comparisons: the integer back end needs them
from . import ir, lia
from .ir import Unsupported

BV = z3.BitVecVal
U64 = lambda n: z3.BitVec(n, 64)

class PathEnd(Exception):
    pass

# ------------------------------------------------------------------ helpers
def is_c(v): return isinstance(v, (int, bool))

def simp(v):
    if isinstance(v, (int, bool)): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return v

def bv(v, w):
    if w == 1 and (isinstance(v, bool) or z3.is_bool(v) if not isinstance(v, int) else False):
        return z3.If(v, BV(1, 1), BV(0, 1)) if not isinstance(v, bool) else BV(int(v), 1)
    return BV(v, w) if isinstance(v, int) else v

def bo(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(bool(v & 1))
    return v

def asbool(v):
    """i1 value -> python bool or z3 Bool"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v & 1)
    if z3.is_bool(v): return v
    return simp(v == BV(1, v.size()))

def And(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)): r += [bo(y) for y in x]
        else: r.append(bo(x))
    if len(r) == 1: return r[0]
    return z3.And(*r) if r else z3.BoolVal(True)
def Or(*a): return z3.Or(*[bo(x) for x in a])
def Not(a): return (not a) if isinstance(a, bool) else z3.Not(a)
def Implies(a, b): return z3.Implies(bo(a), bo(b))
def add(a, b, w=64):
    if is_c(a) and is_c(b): return (a + b) & ((1 << w) - 1)
    if is_c(b) and b == 0: return a
    if is_c(a) and a == 0: return b
    return bv(a, w) + bv(b, w)
def sub(a, b, w=64):
    if is_c(a) and is_c(b): return (a - b) & ((1 << w) - 1)
    if is_c(b) and b == 0: return a
    return bv(a, w) - bv(b, w)
def eq(a, b, w=64):
    if is_c(a) and is_c(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (not is_c(a) and z3.is_bool(a)) or (not is_c(b) and z3.is_bool(b)):
        return bo(a) == bo(b)
    if is_c(a): w = b.size()
    elif is_c(b): w = a.size()
    return bv(a, w) == bv(b, w)
def _w(a, b): return 64 if is_c(a) and is_c(b) else (b.size() if is_c(a) else a.size())
def ule(a, b):
    if is_c(a) and is_c(b): return a <= b
    w = _w(a, b); return z3.ULE(bv(a, w), bv(b, w))
def ult(a, b):
    if is_c(a) and is_c(b): return a < b
    w = _w(a, b); return z3.ULT(bv(a, w), bv(b, w))
def sle(a, b, w=64):
    return bv(a, w) <= bv(b, w)
def ite(c, a, b, w=64):
    if isinstance(c, bool): return a if c else b
    if is_c(a) and is_c(b) and a == b and type(a) == type(b): return a
    if isinstance(a, bool) or isinstance(b, bool): return z3.If(c, bo(a), bo(b))
    w = _w(a, b) if not (is_c(a) and is_c(b)) else w
    return z3.If(c, bv(a, w), bv(b, w))

# ------------------------------------------------------------------ values
# 64-bit products as opaque functions (opts["opaque_mul"]): the low 64 bits and
# whether the unsigned or signed product does not fit
_B = z3.BitVecSort(64)
sdivf = z3.Function("a/b", _B, _B, _B); umul = z3.Function("low64(a*b)", _B, _B, _B); umulo = z3.Function("overflows(a*b)", _B, _B, z3.BoolSort()); smulo = z3.Function("soverflows(a*b)", _B, _B, z3.BoolSort())
udivf = z3.Function("quotient(a/b)", _B, _B, _B); uremf = z3.Function("remainder(a%b)", _B, _B, _B)
def division(a, b):
    """what is known of the opaque quotient and remainder (b != 0)"""
    return [umul(udivf(a, b), b) == umul(b, udivf(a, b)), umul(udivf(a, b), b) + uremf(a, b) == a, z3.Implies(b != 0, z3.ULT(uremf(a, b), b)), z3.ULE(udivf(a, b), a)]

class Obj:
    """A memory object (allocation).  nullc: Bool under which the pointer that
    led to it is null (None: never)."""
    n = 0
    __slots__ = ("id", "name", "size", "lazy", "nullc", "mode", "cls", "kind", "hooks", "gname", "base", "tag", "const", "freed_ok")
    def __init__(s, name, size=None, lazy=False, nullc=None, mode="cells", kind="heap"):
        Obj.n += 1
        s.id = Obj.n; s.name = name; s.size = size; s.lazy = lazy; s.nullc = nullc
        s.mode = mode; s.cls = None; s.kind = kind; s.hooks = None; s.gname = None; s.base = None; s.tag = None; s.const = False; s.freed_ok = True
    def addr(s):
        if s.base is None: s.base = U64("&" + s.name + "#%d" % s.id)
        return s.base
    def __repr__(s): return f"<{s.name}>"

class Ptr:
    __slots__ = ("o", "f")
    def __init__(s, o, f=0): s.o, s.f = o, f
    def __repr__(s): return f"Ptr({s.o},{s.f})"
NULL = Ptr(None, 0)

class FnPtr:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __repr__(s): return f"Fn({s.name})"

class VFn:
    """function pointer loaded from an unknown vtable: object + slot"""
    __slots__ = ("obj", "slot")
    def __init__(s, o, k): s.obj, s.slot = o, k

class Fp:
    """floating-point value (z3 FP term) of width w"""
    __slots__ = ("t", "w")
    def __init__(s, t, w): s.t, s.w = t, w

def fpsort(w):
    return {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64(), 80: z3.FPSort(15, 64)}[w]

class OMem:
    """contents of one object; copied on write"""
    __slots__ = ("mode", "cells", "arr", "ew", "copies", "alive", "dflt")
    def __init__(s, mode="cells"):
        s.mode = mode; s.cells = {}; s.arr = None; s.ew = 1; s.copies = (); s.alive = True; s.dflt = None
    def copy(s):
        c = OMem(s.mode); c.cells = dict(s.cells); c.arr = s.arr; c.ew = s.ew; c.copies = s.copies; c.alive = s.alive; c.dflt = s.dflt
        return c

class Frame:
    __slots__ = ("fn", "regs", "blk", "ip", "prev", "active", "ctx", "call", "allocas", "uid")
    cnt = 0
    def __init__(s, fn, ctx, call):
        s.fn = fn; s.regs = {}; s.blk = fn.entry; s.ip = 0; s.prev = None
        s.active = {}; s.ctx = ctx; s.call = call; s.allocas = []
        Frame.cnt += 1; s.uid = Frame.cnt
    def copy(s):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.regs = dict(s.regs); f.blk = s.blk; f.ip = s.ip; f.prev = s.prev
        f.active = dict(s.active); f.ctx = s.ctx; f.call = s.call; f.allocas = list(s.allocas); f.uid = s.uid
        return f

class State:
    __slots__ = ("mem", "frames", "pc", "ghost", "exc", "trace", "outcome", "caught")
    def __init__(s):
        s.mem = {}; s.frames = []; s.pc = []; s.ghost = {}; s.exc = None; s.trace = []; s.outcome = None; s.caught = []
    def copy(s):
        n = State()
        n.mem = dict(s.mem); n.frames = [f.copy() for f in s.frames]; n.pc = list(s.pc)
        n.ghost = dict(s.ghost); n.exc = s.exc; n.trace = list(s.trace); n.outcome = s.outcome; n.caught = list(s.caught)
        return n
    def assume(s, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                s.assume(*f); continue
            f = bo(f)
            if z3.is_true(f): continue
            s.pc.append(f)

class Thrown:
    def __init__(s, ty, obj=None): s.ty, s.obj = ty, obj
    def __repr__(s): return f"Thrown({s.ty})"

_dem = {}
def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        out = subprocess.run(["c++filt", "--no-strip-underscore"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        for a, b in zip(todo, out): _dem[a] = b
def dem(n):
    if n not in _dem: demangle_all([n])
    return _dem[n].replace("abi_v1::", "").replace("std::__cxx11::", "std::")

class Unit:
    """one or more compiled translation units"""
    def __init__(s, mods):
        s.mods = mods
        names = []
        for m in mods: names += list(m.funcs)
        demangle_all(names)
        s.dnames = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.is_decl:
                    s.dnames.setdefault(dem(n), []).append(f)
    def func(s, name, prefer=None):
        if prefer is not None:
            f = prefer.func(name)
            if f is not None and not f.is_decl: return f
        for m in s.mods:
            f = m.func(name)
            if f is not None and not f.is_decl: return f
        return None
    def find(s, rx):
        """defined functions whose demangled name matches"""
        r = re.compile(rx)
        out = []
        for d, fs in s.dnames.items():
            if r.match(d): out += [fs[0].mod.func(fs[0].name)]
        return out
    def one(s, rx):
        l = s.find(rx)
        if len(l) != 1:
            raise Unsupported(f"function /{rx}/: {len(l)} definitions found" )
        return l[0]
    def glob(s, name, prefer=None):
        if prefer is not None and name in prefer.globals and prefer.globals[name].init is not None:
            return prefer.globals[name], prefer
        for m in s.mods:
            g = m.globals.get(name)
            if g is not None and g.init is not None: return g, m
        return None, prefer

def cvc5(txt, ms, *opts):
    try:
        p = subprocess.run(["cvc5", f"--tlimit={ms}", "--lang=smt2", *opts], input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        return p.stdout.strip().split("\n")[0] if p.stdout else None
    except Exception:
        return None
def race(ex, so, ms):
    """z3 and cvc5 side by side; the first proof ends the other"""
    txt = so.to_smt2()
    if "(lambda" in txt or "FloatingPoint" in txt or "(_ to_fp" in txt: return so.check()
    p = subprocess.Popen(["cvc5", f"--tlimit={ms}", "--lang=smt2", "--solve-bv-as-int=sum"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    done = []
    def wait():
        try: out = p.communicate("(set-logic ALL)\n" + txt)[0].strip().split("\n")[0]
        except Exception: out = None
        if not done:
            ex.cv = out
            if out == "unsat":
                while not done:
                    z3.main_ctx().interrupt()
                    time.sleep(0.005)
    th = threading.Thread(target=wait); th.start()
    try: r = so.check()
    except z3.Z3Exception: r = z3.unknown
    done.append(1)
    if r == z3.unknown and p.poll() is None:
        done.clear(); th.join(); done.append(1)
    if p.poll() is None: p.kill()
    th.join()
    if r == z3.unknown and ex.cv == "unsat": r = z3.unsat; ex.ncv += 1
    return r

# ------------------------------------------------------------------ executor
class Exec:
    def __init__(s, unit, stubs, opts=None):
        s.unit = unit
        s.stubs = stubs              # list of (compiled regex, handler)
        s.cache = {}
        s.opts = opts or {}
        s.globs = {}
        s.lazymemo = {}
        s.loops = {}                 # (ctx, header) -> LoopInfo
        s.freshn = 0
        s.mode = "infer"
        s.changed = False
        s.results = []               # obligations of the final pass
        s.tcheck = 0.0
        s.nq = 0; s.nlia = 0; s.streak = 0; s.lia = lia.Tr()
        s.ncv = 0
        s.cv = None
        s.stats = {"paths": 0, "steps": 0}
        s.on_load = []               # hooks (ex, st, obj, off, n)
        s.cand_fns = []              # candidate generators
        s.used = set()               # contracts used
        s.inlined = set()
        s.assumed_nonnull = set()
        s.vmethods = None            # fn(obj, slot)-> key for virtual calls
        s.deadline = None
        s.touch = s.opts.get("touch")          # hook (ex, st, obj, off, n, write) on accesses of fields
        s.max_paths = s.opts.get("max_paths", 4000)
        s.bounds_unknown = 0
        s.axioms = []
        s.vt = {}                    # object name regex -> class name of vtable

    # ---- solver
    def fresh(s, name, w=64):
        s.freshn += 1
        return z3.BitVec(f"{name}!{s.freshn}", w)
    def freshb(s, name):
        s.freshn += 1
        return z3.Bool(f"{name}!{s.freshn}")
    def fresharr(s, name, w=8):
        s.freshn += 1
        return z3.Array(f"{name}!{s.freshn}", z3.BitVecSort(64), z3.BitVecSort(w))
    def check(s, fs, timeout=10000):
        """sat/unsat/unknown of the conjunction"""
        t = time.time()
        if s.deadline and t > s.deadline: raise Unsupported("time budget of the proof exceeded")
        fs = list({f.get_id(): f for f in fs}.values())
        so = z3.Solver()
        # where the linear back end keeps deciding, the first try is short
        first = min(timeout, s.opts.get("first_ms", 15 if s.streak >= 6 else 100))
        so.set("timeout", first)
        for f in fs: so.add(f)
        for f in s.axioms: so.add(f)
        r = so.check()
        s.cv = None
        if r == z3.unknown and timeout > first and not s.opts.get("nolia"):
            r, g = lia.check(list(fs) + list(s.axioms), min(timeout, 3000), s.lia)
            if g is not None: so = g
            s.nlia += r != z3.unknown; s.streak = min(s.streak + 1, 12) if r != z3.unknown else 0
        elif r != z3.unknown: s.streak = max(0, s.streak - 1)
        if r == z3.unknown and timeout > first:
            # cvc5 with bit-vectors translated to (bounded) integers: strong on
            # the linear address arithmetic that bit-blasting is weak on
            so = z3.Solver(); so.set("timeout", timeout)
            for f in fs: so.add(f)
            for f in s.axioms: so.add(f)
            r = race(s, so, min(timeout, 10000))
        s.tcheck += time.time() - t
        s.nq += 1
        s.last = so
        return r
    def feasible(s, st, c):
        c = simp(c) if not isinstance(c, bool) else c
        if isinstance(c, bool): return c
        return s.check(st.pc + [c], 3000) != z3.unsat
    def valid(s, st, f, timeout=10000):
        f = simp(f) if not isinstance(f, bool) else f
        if f is True: return True
        return s.check(st.pc + [z3.Not(bo(f))], timeout) == z3.unsat
    def oblige(s, st, label, f):
        """prove f on this path (final pass), then assume it"""
        if isinstance(f, bool) and f: return
        g = simp(bo(f))
        if g is True: 
            if s.mode == "final": s.results.append((label, "proved", None, None, 0.0))
            return
        if s.mode == "final":
            t = time.time()
            neg = z3.BoolVal(True) if g is False else z3.Not(g)
            r = s.check(st.pc + [neg], s.opts.get("timeout", 20000))
            if r == z3.unknown: r, m = s.second_opinion(st.pc + [neg])
            else: m = s.last.model() if r == z3.sat else None
            s.results.append((label, {"unsat": "proved", "sat": "failed"}.get(str(r), "unknown"), m, list(st.trace), time.time() - t))
        if g is False: raise PathEnd()
        st.assume(g)
    def second_opinion(s, fs):
        so = z3.Solver(); so.set("timeout", 30000)
        so.set("smt.random_seed", 7) if False else None
        for f in fs + s.axioms: so.add(f)
        # cvc5 as the second back end
        if s.cv == "sat": return z3.sat, None
        o = cvc5(so.to_smt2(), 30000)
        if o == "unsat": return z3.unsat, None
        if o == "sat": return z3.sat, None
        r = so.check()
        return r, (so.model() if r == z3.sat else None)

    # ---- memory
    def om(s, st, o):
        m = st.mem.get(o.id)
        if m is None:
            m = OMem(o.mode)
            if o.mode == "bytes": m.arr = z3.Array(o.name + "[]", z3.BitVecSort(64), z3.BitVecSort(8))
            elif o.mode.startswith("words"):
                m.ew = int(o.mode[5:]); m.mode = "words"
                m.arr = z3.Array(o.name + "[]", z3.BitVecSort(64), z3.BitVecSort(8 * m.ew))
            st.mem[o.id] = m
        return m
    def omw(s, st, o):
        m = s.om(st, o).copy(); st.mem[o.id] = m
        return m
    def new_obj(s, st, name, size=None, mode="cells", lazy=False, nullc=None):
        s.freshn += 1
        o = Obj(f"{name}!{s.freshn}", size, lazy, nullc, mode)
        return o
    def nonnull(s, st, p, what):
        """the pointer must be dereferenceable"""
        if not isinstance(p, Ptr): raise Unsupported(f"dereference of {p}")
        if p.o is None:
            s.oblige(st, f"safety:no null dereference ({what})", False)
            raise PathEnd()
        if p.o.nullc is not None:
            if p.o.lazy == "assume":
                s.assumed_nonnull.add(re.sub(r"!\d+", "", p.o.name)); st.assume(z3.Not(p.o.nullc))
            else:
                s.oblige(st, f"safety:no null dereference ({what})", z3.Not(p.o.nullc))
        m = st.mem.get(p.o.id)
        if m is not None and not m.alive:
            s.oblige(st, f"safety:no use after free ({what})", False)
    def bounds(s, st, p, n, what):
        o = p.o
        if o.size is None:
            return
        if is_c(o.size) and is_c(p.f):
            if p.f + n <= o.size: return
            s.oblige(st, f"safety:in bounds ({what})", False); raise PathEnd()
        f = z3.And(z3.ULE(bv(p.f, 64), bv(o.size, 64)), z3.ULE(bv(n, 64), bv(o.size, 64) - bv(p.f, 64)))
        s.oblige(st, f"safety:in bounds ({what})", f)
    def wtype(s, ty):
        return ty.w if ty.k == "int" else 64 if ty.k == "ptr" else ty.w
    def where(s, st):
        fr = st.frames[-1] if st.frames else None
        return short(dem(fr.fn.name)) if fr else "?"
    def load(s, st, p, ty, mod=None):
        mod = mod or (st.frames[-1].fn.mod if st.frames else s.unit.mods[0])
        rt = mod.resolve(ty) if ty.k == "named" else ty
        if rt.k == "struct":
            return [s.load(st, Ptr(p.o, add(p.f, mod.field_off(rt, i)[0])), f, mod) for i, f in enumerate(rt.fields)]
        if rt.k == "array":
            sz = mod.sizeof(rt.el)
            return [s.load(st, Ptr(p.o, add(p.f, i * sz)), rt.el, mod) for i in range(rt.n)]
        if rt.k not in ("int", "ptr", "fp"): raise Unsupported("load of " + repr(rt))
        n = mod.sizeof(rt)
        if isinstance(p, VFn): raise Unsupported("load through function pointer")
        s.nonnull(st, p, "load in " + s.where(st))
        s.bounds(st, p, n, "load in " + s.where(st))
        return s.load_raw(st, p.o, p.f, n, rt)
    def conv(s, v, n, ty):
        """raw cell value (int bits / Ptr / Fp ...) -> typed"""
        if ty.k == "ptr":
            if isinstance(v, (Ptr, FnPtr, VFn)): return v
            if is_c(v) and v == 0: return NULL
            if isinstance(v, Fp): raise Unsupported("fp as ptr")
            v2 = simp(v)
            if is_c(v2) and v2 == 0: return NULL
            return s.int2ptr(v2)
        if ty.k == "int":
            if isinstance(v, Ptr): return s.ptr2int(v, ty.w)
            if isinstance(v, Fp): return z3.fpToIEEEBV(v.t) if v.w != 80 else None
            if isinstance(v, (FnPtr, VFn)): raise Unsupported("fn ptr as int")
            if ty.w == 1:
                return asbool(v if is_c(v) else z3.Extract(0, 0, v))
            if not is_c(v) and v.size() > ty.w: return simp(z3.Extract(ty.w - 1, 0, v))
            if is_c(v): return v & ((1 << ty.w) - 1)
            return v
        if ty.k == "fp":
            if isinstance(v, Fp): return v
            if isinstance(v, Ptr): raise Unsupported("ptr as fp")
            return Fp(z3.fpBVToFP(bv(v, ty.w), fpsort(ty.w)), ty.w)
        return v
    def raw(s, v, ty):
        if ty.k == "int" and ty.w == 1:
            v = asbool(v)
            return int(v) if isinstance(v, bool) else z3.If(v, BV(1, 8), BV(0, 8))
        if ty.k == "int" and ty.w % 8:
            w = (ty.w + 7) // 8 * 8
            return v if is_c(v) else z3.ZeroExt(w - ty.w, v)
        return v
    def int2ptr(s, v):
        k = ("i2p", v if is_c(v) else v.get_id())
        o = s.lazymemo.get(k)
        if o is None:
            o = Obj("int2ptr#%d" % len(s.lazymemo), None, True, eq(v, 0)); o.base = v
            s.lazymemo[k] = o; s.lazymemo[("keep", k)] = v
        return Ptr(o, 0)
    def ptr2int(s, p, w=64):
        if p.o is None: return p.f
        a = p.o.addr()
        if p.o.nullc is not None:
            a = z3.If(p.o.nullc, BV(0, 64), a)
        r = add(a, p.f)
        return r if w == 64 else z3.Extract(w - 1, 0, r)
    def lazyval(s, o, off, n, ty, st):
        """initial contents of a lazily known object (memoised: the same
        location has the same initial value on every path)"""
        key = (o.id, off, n, "p" if ty.k == "ptr" else "f" if ty.k == "fp" else "i")
        v = s.lazymemo.get(key)
        if v is None:
            nm = f"{o.name}.{off}"
            if ty.k == "ptr":
                if o.tag == "vtable":
                    v = VFn(o.cls, off // 8)
                else:
                    no = Obj(nm, None, "assume", None)
                    no.nullc = z3.Bool("null(" + nm + ")")
                    if off == 0 and o.tag != "data":
                        no.tag = None
                    v = Ptr(no, 0)
            elif ty.k == "fp":
                v = Fp(z3.FP(nm, fpsort(ty.w)), ty.w)
            else:
                v = z3.BitVec(nm, n * 8)
            s.lazymemo[key] = v
        return v
    def load_raw(s, st, o, off, n, ty):
        if o.gname is not None and o.const:
            v = s.load_const(st, o, off, n, ty)
            if v is not None: return v
        m = s.om(st, o)
        off = simp(off)
        if m.mode == "cells" and not is_c(off):
            m = s.to_array(st, o, n)
        if m.mode == "bytes":
            for h in s.on_load: h(s, st, o, off, n)
            bs = [z3.Select(m.arr, bv(add(off, i), 64)) for i in range(n)]
            v = bs[0] if n == 1 else z3.Concat(*reversed(bs))
            return s.conv(simp(v), n, ty)
        if m.mode == "words":
            if n != m.ew: raise Unsupported(f"{n}-byte access to {m.ew}-byte array {o.name}")
            for h in s.on_load: h(s, st, o, off, n)
            idx = s.widx(st, off, m.ew)
            if ty.k == "ptr" and o.id in s.opts.get("elems", ()): return s.opts["elems"][o.id](s, st, idx)
            return s.conv(simp(z3.Select(m.arr, idx)), n, ty)
        if s.touch: s.touch(s, st, o, off, n, False)
        c = m.cells.get(off)
        if c is not None and c[0] == n:
            return s.conv(c[1], n, ty)
        # overlap?
        ov = [(k, c) for k, c in m.cells.items() if k < off + n and off < k + c[0]]
        if ov:
            return s.conv(s.assemble(st, o, m, off, n, ov), n, ty)
        for (d, ln, so, sf, snap) in reversed(m.copies):
            if d <= off and off + n <= d + ln:
                v = s.load_snap(st, so, sf + off - d, n, ty, snap)
                m2 = s.omw(st, o); m2.cells[off] = (n, v)
                return s.conv(v, n, ty)
        if m.dflt is not None:
            v = m.dflt * int("01" * n, 16) if is_c(m.dflt) else None
            if v is None: raise Unsupported("symbolic fill")
        elif o.lazy:
            v = s.lazyval(o, off, n, ty, st)
        else:
            v = s.uninit(o, off, n, ty)
        m2 = s.omw(st, o); m2.cells[off] = (n, v)
        return s.conv(v, n, ty)
    def load_snap(s, st, so, off, n, ty, snap):
        if so.gname is not None and so.const:
            v = s.load_const(st, so, off, n, ty)
            if v is not None: return v
        c = snap.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        for (d, ln, so2, sf, sn2) in reversed(snap.copies):
            if d <= off and off + n <= d + ln: return s.load_snap(st, so2, sf + off - d, n, ty, sn2)
        ov = [(k, c) for k, c in snap.cells.items() if k < off + n and off < k + c[0]]
        if ov: return s.assemble(st, so, snap, off, n, ov)
        if snap.dflt is not None: return 0
        return s.lazyval(so, off, n, ty, st) if so.lazy else s.uninit(so, off, n, ty)
    def uninit(s, o, off, n, ty):
        if ty.k == "ptr": return Ptr(Obj(f"uninit:{o.name}.{off}", None, True, None), 0)
        if ty.k == "fp":
            s.freshn += 1
            return Fp(z3.FP(f"uninit:{o.name}.{off}!{s.freshn}", fpsort(ty.w)), ty.w)
        return s.fresh(f"uninit:{o.name}.{off}", n * 8)
    def assemble(s, st, o, m, off, n, ov):
        byts = [None] * n
        for k, (cn, v) in ov:
            if isinstance(v, Ptr):
                if k == off and cn == n: return v
                if v.o is None: v = v.f
                else: v = s.ptr2int(v)
            if isinstance(v, Fp): v = z3.fpToIEEEBV(v.t)
            if isinstance(v, (FnPtr, VFn)): raise Unsupported("partial fn pointer")
            for i in range(cn):
                j = k + i - off
                if 0 <= j < n:
                    byts[j] = ((v >> (8 * i)) & 255) if is_c(v) else z3.Extract(8 * i + 7, 8 * i, v)
        for j in range(n):
            if byts[j] is None:
                t8 = ir.IntTy(8)
                v = None
                for (d, ln, so, sf, snap) in reversed(m.copies):
                    if d <= off + j < d + ln:
                        v = s.load_snap(st, so, sf + off + j - d, 1, t8, snap); break
                if v is None:
                    v = 0 if m.dflt is not None else s.lazyval(o, off + j, 1, t8, st) if o.lazy else s.uninit(o, off + j, 1, t8)
                byts[j] = v
        if all(is_c(b) for b in byts):
            return sum(b << (8 * i) for i, b in enumerate(byts))
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(byts)])) if n > 1 else byts[0]
    def widx(s, st, off, ew):
        if is_c(off):
            if off % ew: raise Unsupported("misaligned array access")
            return BV(off // ew, 64)
        sh = {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[ew]
        i = s.divexact(off, ew, sh)
        if i is not None: return i
        f = z3.Extract(sh - 1, 0, off) == 0
        s.oblige(st, "safety:aligned array access (" + s.where(st) + ")", f)
        return z3.LShR(off, sh)
    def divexact(s, off, ew, sh):
        """off = ew*i (syntactically) -> i ; needs no-overflow of ew*i: offsets
        inside an object whose size is bounded by 2^48 (checked by bounds)"""
        return None
    def to_array(s, st, o, n):
        m = s.omw(st, o)
        if m.copies or any(not (is_c(v) or z3.is_bv(v)) for _, v in m.cells.values()):
            raise Unsupported(f"symbolic offset into structured object {o.name}")
        if m.cells and n > 1 and all(c == n for c, _ in m.cells.values()) and all(k % n == 0 for k in m.cells):
            m.mode = "words"; m.ew = n
        elif not m.cells and n > 1:
            m.mode = "words"; m.ew = n
        else:
            m.mode = "bytes"; m.ew = 1
        w = 8 * m.ew
        if m.dflt is not None and is_c(m.dflt):
            arr = z3.K(z3.BitVecSort(64), BV(m.dflt * int("01" * m.ew, 16), w))
        elif o.lazy:
            arr = z3.Array(o.name + "[]", z3.BitVecSort(64), z3.BitVecSort(w))
        else:
            arr = s.fresharr(o.name + "[]", w)
        for k, (cn, v) in m.cells.items():
            if m.mode == "words": arr = z3.Store(arr, BV(k // m.ew, 64), bv(v, w))
            else:
                for i in range(cn):
                    arr = z3.Store(arr, BV(k + i, 64), BV((v >> (8 * i)) & 255, 8) if is_c(v) else z3.Extract(8 * i + 7, 8 * i, v))
        m.cells = {}
        m.arr = arr
        return m
    def store(s, st, p, v, ty, mod=None):
        mod = mod or st.frames[-1].fn.mod
        rt = mod.resolve(ty) if ty.k == "named" else ty
        if rt.k == "struct":
            for i, f in enumerate(rt.fields):
                s.store(st, Ptr(p.o, add(p.f, mod.field_off(rt, i)[0])), v[i], f, mod)
            return
        if rt.k == "array":
            sz = mod.sizeof(rt.el)
            for i in range(rt.n): s.store(st, Ptr(p.o, add(p.f, i * sz)), v[i], rt.el, mod)
            return
        if rt.k not in ("int", "ptr", "fp"): raise Unsupported("store of " + repr(rt))
        n = mod.sizeof(rt)
        s.nonnull(st, p, "store in " + s.where(st))
        s.bounds(st, p, n, "store in " + s.where(st))
        if p.o.const:
            s.oblige(st, "frame:no write to read-only data (" + s.where(st) + ")", False)
        s.store_raw(st, p.o, p.f, n, s.raw(v, rt))
    def store_raw(s, st, o, off, n, v):
        off = simp(off)
        m = s.omw(st, o)
        if s.touch: s.touch(s, st, o, off, n, True)
        if m.mode == "cells" and not is_c(off):
            m = s.to_array(st, o, n)
        if m.mode == "bytes":
            if isinstance(v, Ptr):
                v = s.ptr2int(v)
            if isinstance(v, Fp): v = z3.fpToIEEEBV(v.t)
            for i in range(n):
                m.arr = z3.Store(m.arr, bv(add(off, i), 64), BV((v >> (8 * i)) & 255, 8) if is_c(v) else (z3.Extract(8 * i + 7, 8 * i, v) if n > 1 else v))
            return
        if m.mode == "words":
            if n != m.ew: raise Unsupported(f"{n}-byte store to {m.ew}-byte array")
            if isinstance(v, Ptr): v = s.ptr2int(v)
            if isinstance(v, Fp): v = z3.fpToIEEEBV(v.t)
            m.arr = z3.Store(m.arr, s.widx(st, off, m.ew), bv(v, 8 * n))
            return
        s.clear_range(st, o, m, off, n)
        m.cells[off] = (n, v)
    def clear_range(s, st, o, m, off, n):
        for k in [k for k, c in m.cells.items() if k < off + n and off < k + c[0]]:
            cn, cv = m.cells.pop(k)
            if k >= off and k + cn <= off + n: continue
            if isinstance(cv, Ptr) and cv.o is None: cv = 0
            if isinstance(cv, Ptr): cv = s.ptr2int(cv)
            if isinstance(cv, Fp): cv = z3.fpToIEEEBV(cv.t)
            if not (is_c(cv) or z3.is_bv(cv)): raise Unsupported("partial overwrite")
            for i in range(cn):
                if not (off <= k + i < off + n):
                    m.cells[k + i] = (1, (cv >> (8 * i)) & 255 if is_c(cv) else simp(z3.Extract(8 * i + 7, 8 * i, cv)))
    def memcpy(s, st, d, sp, n, what="memcpy"):
        n = simp(n)
        if is_c(n) and n == 0: return
        z = True
        if not is_c(n):
            # a zero-length copy touches nothing
            if not s.feasible(st, n != 0): return
            c0 = n == 0
            guard = lambda f: z3.Or(c0, f)
        else: guard = lambda f: f
        for p, w in ((sp, "read"), (d, "write")):
            if p.o is None:
                s.oblige(st, f"safety:no null dereference ({what} {w})", guard(z3.BoolVal(False))); return
            if p.o.nullc is not None:
                if p.o.lazy == "assume": st.assume(z3.Not(p.o.nullc)); s.assumed_nonnull.add(p.o.name)
                else: s.oblige(st, f"safety:no null dereference ({what} {w})", guard(z3.Not(p.o.nullc)))
            if p.o.size is not None:
                f = z3.And(z3.ULE(bv(p.f, 64), bv(p.o.size, 64)), z3.ULE(bv(n, 64), bv(p.o.size, 64) - bv(p.f, 64)))
                s.oblige(st, f"safety:in bounds ({what} {w} in {s.where(st)})", guard(f))
        ms = s.om(st, sp.o); md = s.omw(st, d.o)
        df, sf = simp(d.f), simp(sp.f)
        if ms.mode == "cells" and md.mode == "cells" and is_c(n) and is_c(df) and is_c(sf):
            snap = ms.copy()
            s.clear_range(st, d.o, md, df, n)
            got = {}
            for k, (cn, v) in snap.cells.items():
                if k >= sf and k + cn <= sf + n: got[df + k - sf] = (cn, v)
                elif k < sf + n and sf < k + cn: raise Unsupported("memcpy splits a cell")
            md.cells.update(got)
            md.copies = md.copies + ((df, n, sp.o, sf, snap),)
            return
        if ms.mode == "words" and md.mode in ("cells",) and not md.cells and not md.copies:
            md.mode = "words"; md.ew = ms.ew; md.arr = s.fresharr(d.o.name, 8 * ms.ew)
        if md.mode == "words" and ms.mode == "cells" and is_c(sf): ms = s.to_array(st, sp.o, md.ew)
        if ms.mode == "words" and md.mode == "words" and ms.ew == md.ew:
            di, si, ni = s.widx(st, df, md.ew), s.widx(st, sf, ms.ew), s.widx(st, n, ms.ew)
            md.arr = s.arrcopy(st, d.o, md.arr, di, ms.arr, si, ni); return
        if ms.mode == "cells": ms = s.to_array(st, sp.o, 1)
        if md.mode == "cells":
            md = s.to_array(st, d.o, 1)
        if ms.mode != "bytes" or md.mode != "bytes": raise Unsupported("memcpy between modes")
        for h in s.on_load: h(s, st, sp.o, sf, n)
        md.arr = s.arrcopy(st, d.o, md.arr, bv(df, 64), ms.arr, bv(sf, 64), bv(n, 64))
    def arrcopy(s, st, o, dst, di, src, si, n):
        """opts["watch"]: the only indices whose contents the proof follows
        through copies of unknown length (nothing is known about the others)"""
        w = s.opts.get("watch")
        if w is None or z3.is_bv_value(z3.simplify(n)) and z3.simplify(n).as_long() <= 64: return arrcopy(dst, di, src, si, n)
        ix = w(s, st, o) if callable(w) else w
        r = s.fresharr("copy", dst.range().size())
        for i in ix: st.assume(z3.Select(r, i) == z3.If(z3.And(z3.ULE(di, i), z3.ULT(i - di, n)), z3.Select(src, i - di + si), z3.Select(dst, i)))
        return r
    def memset(s, st, d, byte, n):
        n = simp(n)
        if is_c(n) and n == 0: return
        s.nonnull(st, d, "memset"); s.bounds_n(st, d, n, "memset in " + s.where(st))
        m = s.omw(st, d.o); df = simp(d.f)
        if m.mode == "cells" and is_c(n) and is_c(df) and is_c(byte) and n <= 4096:
            s.clear_range(st, d.o, m, df, n)
            i = 0
            while i < n:
                k = 8 if (df + i) % 8 == 0 and n - i >= 8 else 1
                m.cells[df + i] = (k, byte * int("01" * k, 16)); i += k
            return
        if m.mode == "cells": m = s.to_array(st, d.o, 1)
        if m.mode != "bytes": raise Unsupported("memset on words")
        i = z3.BitVec("i!l", 64)
        b = bv(byte, 8) if is_c(byte) or byte.size() == 8 else z3.Extract(7, 0, byte)
        m.arr = z3.Lambda([i], z3.If(z3.And(z3.UGE(i, bv(df, 64)), z3.ULT(i - bv(df, 64), bv(n, 64))), b, z3.Select(m.arr, i)))
    def bounds_n(s, st, p, n, what):
        if p.o.size is None: return
        f = z3.And(z3.ULE(bv(p.f, 64), bv(p.o.size, 64)), z3.ULE(bv(n, 64), bv(p.o.size, 64) - bv(p.f, 64)))
        s.oblige(st, f"safety:in bounds ({what})", f)

    # ---- globals / constants
    def gobj(s, name, mod):
        o = s.globs.get(name)
        if o is None:
            g, m = s.unit.glob(name, mod)
            size = None
            if g is not None and g.ty is not None:
                try: size = m.sizeof(g.ty)
                except Unsupported: pass
            o = Obj("@" + name, size, True, None, "cells", "global")
            o.gname = name
            o.const = bool(g and g.const and g.init is not None)
            s.globs[name] = o
            s.lazymemo[("gl", o.id)] = (g, m)
        return o
    def load_const(s, st, o, off, n, ty):
        g, m = s.lazymemo[("gl", o.id)]
        if g is None: return None
        off = simp(off)
        if not is_c(off):
            # symbolic index into a constant string/array of ints
            ini = g.init
            if ini.k == "str": data = ini.v
            else:
                return s.const_table(g, m, off, n, ty)
            if n != 1: return None
            r = BV(data[-1] if data else 0, 8)
            for i, b in enumerate(data): r = z3.If(off == BV(i, 64), BV(b, 8), r)
            return s.conv(r, 1, ty)
        return s.const_at(g.init, g.ty, m, off, n, ty, st)
    def const_table(s, g, m, off, n, ty):
        rt = m.resolve(g.ty) if g.ty.k == "named" else g.ty
        while rt.k == "struct" and len(rt.fields) == 1:
            return None
        if rt.k != "array" or rt.el.k != "int" or m.sizeof(rt.el) != n: return None
        vals = [0] * rt.n if g.init.k == "zero" else [e.v for e in g.init.a]
        r = BV(vals[-1] if vals else 0, 8 * n)
        for i, b in enumerate(vals): r = z3.If(off == BV(i * n, 64), BV(b, 8 * n), r)
        return s.conv(r, n, ty)
    def const_at(s, c, cty, m, off, n, ty, st):
        rt = m.resolve(cty) if cty.k == "named" else cty
        if c.k == "zero" or c.k == "undef": return s.conv(0, n, ty) if ty.k != "fp" else Fp(z3.FPVal(0.0, fpsort(ty.w)), ty.w)
        if c.k == "str":
            bs = c.v[off:off + n]
            return s.conv(int.from_bytes(bs, "little"), n, ty)
        if c.k == "agg":
            if rt.k == "struct":
                for i in range(len(rt.fields)):
                    fo, ft = m.field_off(rt, i)
                    sz = m.sizeof(ft)
                    if fo <= off and off + n <= fo + sz: return s.const_at(c.a[i], ft, m, off - fo, n, ty, st)
                return None
            sz = m.sizeof(rt.el); i = off // sz
            return s.const_at(c.a[i], rt.el, m, off - i * sz, n, ty, st)
        v = s.opd(st, c, mod=m)
        if off == 0: 
            if isinstance(v, int) and m.sizeof(rt) != n: return s.conv(v, n, ty)
            return s.conv(v, n, ty) if not isinstance(v, (FnPtr,)) else v
        if is_c(v): return s.conv((v >> (8 * off)) & ((1 << (8 * n)) - 1), n, ty)
        return None

    # ---- operands
    def opd(s, st, o, mod=None):
        k = o.k
        if k == "reg":
            return st.frames[-1].regs[o.v]
        if k == "int":
            w = o.ty.w
            if w == 1: return bool(o.v)
            return o.v & ((1 << w) - 1)
        if k == "null": return NULL
        mod = mod or st.frames[-1].fn.mod
        if k == "global":
            n = o.v
            n = mod.aliases.get(n, n)
            if n in mod.funcs or s.unit.func(n) is not None: return FnPtr(n)
            return Ptr(s.gobj(n, mod), 0)
        if k in ("undef", "zero"): return s.zero(o.ty, mod, k == "undef")
        if k == "fp":
            return Fp(fpconst(o.v, o.ty.w), o.ty.w)
        if k == "agg": return [s.opd(st, e, mod) for e in o.a]
        if k == "gep":
            return s.gep(st, o.v, [s.opd(st, a, mod) for a in o.a], [a.ty for a in o.a], mod)
        if k == "cast":
            v = s.opd(st, o.a, mod)
            return s.cast(o.v, v, o.a.ty, o.ty)
        if k == "bin":
            return s.binop(o.v, s.opd(st, o.a[0], mod), s.opd(st, o.a[1], mod), o.ty.w)
        if k == "str": return list(o.v)
        if k == "icmpc": return s.icmp(st, o.v, s.opd(st, o.a[0], mod), s.opd(st, o.a[1], mod), o.a[0].ty)
        raise Unsupported("operand " + k)
    def zero(s, ty, mod, undef=False):
        rt = mod.resolve(ty) if ty.k == "named" else ty
        if rt.k == "int": return False if rt.w == 1 else 0
        if rt.k == "ptr": return NULL
        if rt.k == "fp": return Fp(z3.FPVal(0.0, fpsort(rt.w)), rt.w)
        if rt.k == "struct": return [s.zero(f, mod, undef) for f in rt.fields]
        if rt.k in ("array", "vector"): return [s.zero(rt.el, mod, undef) for _ in range(rt.n)]
        if rt.k in ("metadata", "token", "void"): return None
        raise Unsupported("zero of " + repr(rt))
    def gep(s, st, base, args, tys, mod):
        p = args[0]
        if isinstance(p, VFn): raise Unsupported("gep on fn")
        if isinstance(p, FnPtr): raise Unsupported("gep on fn")
        off = p.f
        off = add(off, s.scale(args[1], mod.sizeof(base), tys[1]))
        ty = base
        for i, t in zip(args[2:], tys[2:]):
            rt = mod.resolve(ty) if ty.k == "named" else ty
            if rt.k == "struct":
                fo, ty = mod.field_off(rt, i)
                off = add(off, fo)
            else:
                ty = rt.el
                off = add(off, s.scale(i, mod.sizeof(ty), t))
        return Ptr(p.o, simp(off) if not is_c(off) else off)
    def scale(s, i, sz, ty):
        if is_c(i):
            w = ty.w
            if i >= 1 << (w - 1): i -= 1 << w
            return (i * sz) & ((1 << 64) - 1)
        if ty.w < 64: i = z3.SignExt(64 - ty.w, i)
        if sz == 1: return i
        if sz & (sz - 1) == 0: return i << BV(sz.bit_length() - 1, 64)
        return i * BV(sz, 64)
    def binop(s, op, a, b, w):
        if w == 1:
            a, b = asbool(a), asbool(b)
            if op == "xor":
                if is_c(a) and is_c(b): return a != b
                return simp(z3.Xor(bo(a), bo(b)))
            if op in ("and", "mul"): return simp(z3.And(bo(a), bo(b)))
            if op == "or": return simp(z3.Or(bo(a), bo(b)))
            if op in ("add", "sub"): return simp(z3.Xor(bo(a), bo(b)))
            raise Unsupported("i1 " + op)
        if isinstance(a, Ptr): a = s.ptr2int(a)
        if isinstance(b, Ptr): b = s.ptr2int(b)
        M = (1 << w) - 1
        if is_c(a) and is_c(b):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == "add": return (a + b) & M
            if op == "sub": return (a - b) & M
            if op == "mul": return (a * b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl" and b < w: return (a << b) & M
            if op == "lshr" and b < w: return a >> b
            if op == "ashr" and b < w: return (sa >> b) & M
            if op == "udiv" and b: return a // b
            if op == "urem" and b: return a % b
            if op == "sdiv" and b:
                q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q
                return q & M
            if op == "srem" and b:
                r = abs(sa) % abs(sb); r = -r if sa < 0 else r
                return r & M
        x, y = bv(a, w), bv(b, w)
        if op in ("udiv", "urem") and is_c(b) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return simp(z3.LShR(x, BV(k, w))) if op == "udiv" else simp(x & BV(b - 1, w))
        if op == "sdiv" and is_c(b) and b and b & (b - 1) == 0 and b < 1 << (w - 1):
            q = s.exact(x, b) if s.small else None
            if q is not None: return q
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
             "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
             "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
        return simp(r)
    small = frozenset()
    def exact(s, x, d):
        """x / d for a sum of multiples of d whose symbols are known (assumed by
        the specification) to be below 2^44, so that the sum does not wrap"""
        r = BV(0, 64); n = 0
        todo = [z3.simplify(x)]
        while todo:
            t = todo.pop(); k = t.decl().kind(); n += 1
            if n > 50: return None
            if k == z3.Z3_OP_BADD: todo += t.children(); continue
            if z3.is_bv_value(t): c, e = t.as_signed_long(), None
            elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)): c, e = t.arg(0).as_signed_long(), t.arg(1)
            else: c, e = 1, t
            if c % d or abs(c) >= 1 << 12 and e is not None or abs(c) >= 1 << 60: return None
            if e is not None and e.get_id() not in s.small: return None
            r = r + BV(c // d, 64) * (e if e is not None else BV(1, 64))
        return simp(r)
    def bounded(s, st, *xs):
        """the specification's assumption that xs are below 2^44"""
        s.small = s.small | {x.get_id() for x in xs}; st.assume(*[z3.ULT(x, BV(1 << 44, 64)) for x in xs])
    def cast(s, op, v, fty, tty):
        if op in ("bitcast", "addrspacecast"):
            if isinstance(v, Fp) and tty.k == "int": return simp(z3.fpToIEEEBV(v.t))
            if tty.k == "fp" and not isinstance(v, Fp): return Fp(z3.fpBVToFP(bv(v, tty.w), fpsort(tty.w)), tty.w)
            return v
        if op == "ptrtoint":
            if isinstance(v, FnPtr) and tty.w == 64: return v      # the address of a function, kept symbolic (member function pointers)
            if isinstance(v, (FnPtr, VFn)): raise Unsupported("ptrtoint fn")
            return simp(s.ptr2int(v, tty.w))
        if op == "inttoptr":
            if is_c(v) and (v == 0 or v == (1 << 64) - 1): return Ptr(None, v)
            return s.int2ptr(v)
        if op == "trunc":
            if tty.w == 1:
                if is_c(v): return bool(v & 1)
                return simp(z3.Extract(0, 0, v) == BV(1, 1))
            if is_c(v): return v & ((1 << tty.w) - 1)
            return simp(z3.Extract(tty.w - 1, 0, v))
        if op == "zext":
            if fty.w == 1:
                v = asbool(v)
                if isinstance(v, bool): return int(v)
                return z3.If(v, BV(1, tty.w), BV(0, tty.w))
            if is_c(v): return v
            return simp(z3.ZeroExt(tty.w - fty.w, v))
        if op == "sext":
            if fty.w == 1:
                v = asbool(v)
                if isinstance(v, bool): return ((1 << tty.w) - 1) if v else 0
                return z3.If(v, BV(-1, tty.w), BV(0, tty.w))
            if is_c(v):
                if v >> (fty.w - 1): v |= ((1 << tty.w) - 1) ^ ((1 << fty.w) - 1)
                return v
            return simp(z3.SignExt(tty.w - fty.w, v))
        if op in ("uitofp", "sitofp"):
            x = bv(v, fty.w) if fty.w > 1 else z3.If(bo(v), BV(1, 8), BV(0, 8))
            t = z3.fpToFP(z3.RNE(), x, fpsort(tty.w)) if op == "sitofp" else z3.fpToFPUnsigned(z3.RNE(), x, fpsort(tty.w))
            return Fp(simp_fp(t), tty.w)
        if op in ("fptosi", "fptoui"):
            f = z3.fpToSBV if op == "fptosi" else z3.fpToUBV
            return simp(f(z3.RTZ(), v.t, z3.BitVecSort(tty.w)))
        if op in ("fpext", "fptrunc"):
            return Fp(simp_fp(z3.fpToFP(z3.RNE(), v.t, fpsort(tty.w))), tty.w)
        raise Unsupported("cast " + op)
    def icmp(s, st, pr, a, b, ty):
        if isinstance(a, (Ptr, FnPtr, VFn)) or isinstance(b, (Ptr, FnPtr, VFn)):
            return s.pcmp(st, pr, a, b)
        if ty.k == "int" and ty.w == 1:
            x, y = bo(asbool(a)), bo(asbool(b))
            if pr == "eq": return simp(x == y)
            if pr == "ne": return simp(x != y)
            raise Unsupported("i1 cmp")
        w = ty.w
        if is_c(a) and is_c(b):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                    "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pr]
        x, y = bv(a, w), bv(b, w)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pr]()
        return simp(r)
    def pcmp(s, st, pr, a, b):
        if isinstance(a, (FnPtr, VFn)) or isinstance(b, (FnPtr, VFn)):
            if isinstance(a, Ptr) and a.o is None or isinstance(b, Ptr) and b.o is None:
                return pr == "ne"
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): return (a.name == b.name) == (pr == "eq")
            raise Unsupported("fn compare")
        if a.o is b.o:
            if a.o is None and not (is_c(a.f) and is_c(b.f)): pass
            x, y = a.f, b.f
            if is_c(x) and is_c(y):
                sx = x - (1 << 64) if x >> 63 else x
                sy = y - (1 << 64) if y >> 63 else y
                return {"eq": x == y, "ne": x != y, "ult": sx < sy, "ule": sx <= sy, "ugt": sx > sy, "uge": sx >= sy}[pr]
            x, y = bv(x, 64), bv(y, 64)
            e = s.opts.get("scale", {}).get(a.o.id) if a.o is not None else None
            if e is not None:
                # whole elements compare as their indices do
                from .lib import quot
                i, j = quot(simp(x), e), quot(simp(y), e); L = BV(1 << 44, 64)
                if i is not None and j is not None:
                    i, j = bv(i, 64), bv(j, 64)
                    if s.valid(st, z3.And(z3.ULE(i, L), z3.ULE(j, L)), 2000): x, y = i, j
            # offsets stay far from the wrap-around of the address space, so
            # address order is the signed order of the offsets
            return simp({"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: x < y, "ule": lambda: x <= y,
                         "ugt": lambda: x > y, "uge": lambda: x >= y, "slt": lambda: x < y, "sgt": lambda: x > y}[pr]())
        if pr in ("eq", "ne"):
            if a.o is None: a, b = b, a
            if b.o is None and is_c(b.f) and b.f == 0:
                c = a.o.nullc
                r = False if c is None else c
            else:
                ca, cb = a.o.nullc if a.o else None, b.o.nullc if b.o else None
                if ca is not None and cb is not None: r = z3.And(ca, cb)
                else: r = False       # distinct objects (separation assumption)
            if pr == "ne": r = Not(r)
            return simp(r) if not isinstance(r, bool) else r
        raise Unsupported("order of pointers into different objects")

    # ---- stubs
    def stub_for(s, name):
        h = s.cache.get(name)
        if h is None:
            d = dem(name)
            h = False
            for rx, fn in s.stubs:
                if rx.match(d) or rx.match(name):
                    h = fn; break
            s.cache[name] = h
        return h

    # ---- running
    def run(s, st0, on_end):
        """explore every path from st0 until frames are empty; on_end(st)"""
        work = [st0]
        while work:
            st = work.pop()
            s.stats["paths"] += 1
            if s.stats["paths"] > s.max_paths: raise Unsupported("path budget exceeded")
            try:
                s.run_path(st, work, on_end)
            except PathEnd:
                pass
    def run_path(s, st, work, on_end):
        while True:
            if not st.frames:
                on_end(st); return
            fr = st.frames[-1]
            inst = fr.fn.blocks[fr.blk][fr.ip].get()
            s.stats["steps"] += 1
            if s.stats["steps"] & 1023 == 0 and s.deadline and time.time() > s.deadline:
                raise Unsupported("time budget of the proof exceeded")
            s.step(st, fr, inst, work)
    def jump(s, st, fr, b, work):
        fr.prev, fr.blk, fr.ip = fr.blk, b, 0
        ins = fr.fn.blocks[b]
        vals = []
        i = 0
        while True:
            x = ins[i].get()
            if x.op != "phi": break
            for v, pb in x.x:
                if pb == fr.prev:
                    vals.append((x.res, s.opd(st, v), x.ty)); break
            else: raise Unsupported("phi edge")
            i += 1
        for r, v, t in vals: fr.regs[r] = v
        fr.ip = i
        if b in ir.loop_headers(fr.fn):
            s.at_header(st, fr, b, [(r, t) for r, v, t in vals], work)
    def fork(s, st, c, work):
        """returns True/False for the current state after splitting on c; the
        other side goes to work with fn applied"""
        raise NotImplementedError
    def branch(s, st, c):
        """split st on c: list of (state, bool)"""
        c = asbool(c)
        if isinstance(c, bool): return [(st, c)]
        ft = s.feasible(st, c)
        ff = s.feasible(st, z3.Not(c)) if ft else True
        out = []
        if ft and ff:
            o = st.copy(); o.assume(z3.Not(c)); st.assume(c)
            return [(st, True), (o, False)]
        if ft: st.assume(c); return [(st, True)]
        st.assume(z3.Not(c))
        return [(st, False)]
    def step(s, st, fr, x, work):
        op = x.op
        R = fr.regs
        if op == "unsupported": raise Unsupported(x.x)
        if op == "load":
            v = s.load(st, s.opd(st, x.a[0]), x.ty); R[x.res] = v
        elif op == "store":
            s.store(st, s.opd(st, x.a[1]), s.opd(st, x.a[0]), x.ty)
        elif op == "getelementptr":
            R[x.res] = s.gep(st, x.ty, [s.opd(st, a) for a in x.a], [a.ty for a in x.a], fr.fn.mod)
        elif op == "br":
            if not x.a:
                s.jump(st, fr, x.x[0], work); return
            c = asbool(s.opd(st, x.a[0]))
            bs = s.branch(st, c)
            for st2, v in bs[1:]:
                work.append(s.deferjump(st2, x.x[0] if v else x.x[1], work))
            v = bs[0][1]
            if len(bs) > 1: st.trace.append((short(dem(fr.fn.name)), x.x[0] if v else x.x[1]))
            s.jump(st, fr, x.x[0] if v else x.x[1], work); return
        elif op == "alloca":
            n = fr.fn.mod.sizeof(x.ty)
            if x.a[0] is not None:
                c = s.opd(st, x.a[0])
                if not is_c(c): raise Unsupported("dynamic alloca")
                n *= c
            o = Obj(f"{short(dem(fr.fn.name))}:{x.res}#{s.allocid(fr, x.res)}", n, False, None, "cells", "stack")
            fr.allocas.append(o)
            R[x.res] = Ptr(o, 0)
        elif op == "icmp":
            R[x.res] = s.icmp(st, x.x, s.opd(st, x.a[0]), s.opd(st, x.a[1]), x.ty)
        elif op in ("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"):
            a, b = s.opd(st, x.a[0]), s.opd(st, x.a[1])
            if op in ("udiv", "sdiv", "urem", "srem"):
                s.oblige(st, f"safety:no division by zero ({s.where(st)})", bv(b, x.ty.w) != 0 if not is_c(b) else b != 0)
            if s.opts.get("ovf") and x.x and ("nsw" in x.x) and op in ("add", "sub", "mul"):
                s.ovf(st, op, a, b, x.ty.w)
            if op == "mul" and x.ty.w == 64 and s.opts.get("opaque_mul") and not is_c(a) and not is_c(b): R[x.res] = umul(a, b); st.assume(umul(a, b) == umul(b, a))
            elif op in ("udiv", "urem") and x.ty.w == 64 and s.opts.get("opaque_mul") and not is_c(b):
                a, b = bv(a, 64), bv(b, 64); R[x.res] = (udivf if op == "udiv" else uremf)(a, b); st.assume(*division(a, b))
            elif op == "sdiv" and x.ty.w == 64 and s.opts.get("opaque_sdiv") and not is_c(b): R[x.res] = sdivf(bv(a, 64), bv(b, 64))
            else: R[x.res] = s.binop(op, a, b, x.ty.w)
        elif op in ("trunc","zext","sext","ptrtoint","inttoptr","bitcast","addrspacecast","fptrunc","fpext","fptoui","fptosi","uitofp","sitofp"):
            R[x.res] = s.cast(op, s.opd(st, x.a[0]), x.a[0].ty, x.ty)
        elif op == "ret":
            v = s.opd(st, x.a[0]) if x.a else None
            s.do_return(st, v, work); return
        elif op in ("call", "invoke"):
            s.do_call(st, fr, x, work); return
        elif op == "select":
            c = asbool(s.opd(st, x.a[0])); a, b = s.opd(st, x.a[1]), s.opd(st, x.a[2])
            if isinstance(c, bool): R[x.res] = a if c else b
            elif is_c(a) or is_c(b) or z3.is_expr(a):
                if x.ty.w == 1: R[x.res] = simp(z3.If(c, bo(asbool(a)), bo(asbool(b))))
                else: R[x.res] = simp(z3.If(c, bv(a, x.ty.w), bv(b, x.ty.w)))
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                R[x.res] = Ptr(a.o, simp(ite(c, a.f, b.f)))
            elif isinstance(a, Fp): R[x.res] = Fp(z3.If(c, a.t, b.t), a.w)
            else:
                bs = s.branch(st, c)
                for st2, v in bs[1:]:
                    f2 = st2.frames[-1]; f2.regs[x.res] = a if v else b; f2.ip += 1; work.append(st2)
                R[x.res] = a if bs[0][1] else b
        elif op == "switch":
            v = s.opd(st, x.a[0]); w = x.a[0].ty.w
            dflt, cs = x.x
            if is_c(v):
                for k, b in cs:
                    if (k & ((1 << w) - 1)) == v: s.jump(st, fr, b, work); return
                s.jump(st, fr, dflt, work); return
            tgt = {}
            for k, b in cs: tgt.setdefault(b, []).append(v == BV(k & ((1 << w) - 1), w))
            rest = z3.And(*[v != BV(k & ((1 << w) - 1), w) for k, b in cs])
            opts = [(b, z3.Or(*c)) for b, c in tgt.items()] + [(dflt, rest)]
            todo = [(b, c) for b, c in opts if s.feasible(st, c)]
            if not todo: raise PathEnd()
            for b, c in todo[1:]:
                o = st.copy(); o.assume(c); o.trace.append((short(dem(fr.fn.name)), b)); work.append(s.deferjump(o, b, work))
            st.assume(todo[0][1]); st.trace.append((short(dem(fr.fn.name)), todo[0][0]))
            s.jump(st, fr, todo[0][0], work); return
        elif op == "extractvalue":
            v = s.opd(st, x.a[0])
            for i in x.x: v = v[i]
            R[x.res] = v
        elif op == "insertvalue":
            def ins(agg, v, idx):
                agg = list(agg); agg[idx[0]] = v if len(idx) == 1 else ins(agg[idx[0]], v, idx[1:]); return agg
            R[x.res] = ins(s.opd(st, x.a[0]), s.opd(st, x.a[1]), x.x)
        elif op == "landingpad":
            s.landing(st, fr, x)
        elif op == "resume":
            v = s.opd(st, x.a[0])
            s.unwind(st, st.exc, work); return
        elif op == "unreachable":
            s.oblige(st, f"safety:unreachable code is not reached ({s.where(st)})", False); raise PathEnd()
        elif op == "freeze": R[x.res] = s.opd(st, x.a[0])
        elif op == "fence": pass
        elif op == "atomicrmw":
            p = s.opd(st, x.a[0]); v = s.opd(st, x.a[1]); old = s.load(st, p, x.ty)
            nv = v if x.x == "xchg" else s.binop(x.x, old, v, x.ty.w)
            s.store(st, p, nv, x.ty); R[x.res] = old
        elif op == "cmpxchg":
            p = s.opd(st, x.a[0]); c = s.opd(st, x.a[1]); v = s.opd(st, x.a[2]); old = s.load(st, p, x.a[1].ty)
            e = s.icmp(st, "eq", old, c, x.a[1].ty)
            if isinstance(e, bool):
                if e: s.store(st, p, v, x.a[1].ty)
            else:
                s.store(st, p, z3.If(e, bv(v, x.a[1].ty.w), bv(old, x.a[1].ty.w)), x.a[1].ty)
            R[x.res] = [old, e]
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = s.opd(st, x.a[0]), s.opd(st, x.a[1])
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
            R[x.res] = Fp(simp_fp(f(z3.RNE(), a.t, b.t)), a.w)
        elif op == "fneg":
            a = s.opd(st, x.a[0]); R[x.res] = Fp(z3.fpNeg(a.t), a.w)
        elif op == "fcmp":
            a, b = s.opd(st, x.a[0]), s.opd(st, x.a[1])
            R[x.res] = simp(fcmp(x.x, a.t, b.t))
        else:
            raise Unsupported("instruction " + op)
        fr.ip += 1
    def ovf(s, st, op, a, b, w):
        x, y = bv(a, w), bv(b, w)
        f = {"add": lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)),
             "sub": lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
             "mul": lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[op]()
        s.oblige(st, f"safety:no signed overflow ({s.where(st)})", f)
    def allocid(s, fr, res): return f"{fr.ctx}"
    def deferjump(s, st, b, work):
        """state that continues with a jump to b"""
        fr = st.frames[-1]
        st.trace.append((short(dem(fr.fn.name)), b))
        # emulate by performing the jump now; at_header may end the path
        try:
            s.jump(st, fr, b, work)
        except PathEnd:
            st.frames = []; st.outcome = ("dead",)
        return st
    def do_return(s, st, v, work):
        fr = st.frames.pop()
        for o in fr.allocas:
            m = st.mem.get(o.id)
            if m is not None:
                del st.mem[o.id]
        if not st.frames:
            st.outcome = ("ret", v); return
        s.ret_to(st, fr.call, v, work)
    def ret_to(s, st, inst, v, work):
        fr = st.frames[-1]
        if inst is None: return
        if inst.res is not None: fr.regs[inst.res] = v
        if inst.op == "invoke": s.jump(st, fr, inst.x[1], work)
        else: fr.ip += 1
    def throw_from(s, st, inst, exc, work):
        """the call instruction inst of the top frame raised exc"""
        st.exc = exc
        if inst is not None and inst.op == "invoke":
            s.jump(st, st.frames[-1], inst.x[2], work)
        else:
            s.unwind(st, exc, work)
    def unwind(s, st, exc, work):
        while True:
            fr = st.frames.pop()
            for o in fr.allocas: st.mem.pop(o.id, None)
            if not st.frames:
                st.outcome = ("throw", exc); st.exc = exc; return
            if fr.call is not None and fr.call.op == "invoke":
                st.exc = exc
                s.jump(st, st.frames[-1], fr.call.x[2], work); return
    def typeid(s, name):
        return 1 + (hash_id(name) & 0x3FFFFFFF)
    def isa(s, ty, base, mod):
        """exception type ty (typeinfo name) caught as base?"""
        seen = [ty]
        while seen:
            t = seen.pop()
            if t == base: return True
            seen += EXC_BASES.get(t, [])
            g, m = s.unit.glob(t, mod)
            if g is not None and g.init is not None and g.init.k == "agg":
                for e in g.init.a[2:]:
                    if e.k == "global": seen.append(e.v)
        return False
    def landing(s, st, fr, x):
        cleanup, clauses = x.x
        exc = st.exc
        sel = 0
        for c in clauses:
            if isinstance(c, tuple):
                continue
            if c.k == "null": sel = s.typeid("*"); break
            if exc.ty is None: raise Unsupported("unknown exception type at catch")
            if s.isa(exc.ty, c.v, fr.fn.mod): sel = s.typeid(c.v); break
        fr.regs[x.res] = [Ptr(exc.obj, 0) if exc.obj is not None else NULL, sel]

    # ---- calls
    def do_call(s, st, fr, x, work):
        callee, _, _ = x.x
        c = s.opd(st, callee)
        args = [s.opd(st, a) for a in x.a]
        if isinstance(c, VFn) or isinstance(c, Ptr):
            h = s.opts.get("virtual")
            outs = h(s, st, c, args, x) if h else None
            if outs is None:
                raise Unsupported(f"indirect call in {s.where(st)}: {x.line}")
            if isinstance(outs, str): c = FnPtr(outs)
            else: return s.apply(st, x, outs, work)
        name = c.name
        if name.startswith("llvm."):
            return s.intrinsic(st, fr, x, name, args, work)
        h = s.stub_for(name)
        if h:
            s.used.add(dem(name))
            outs = h(s, st, args, x)
            return s.apply(st, x, outs, work)
        f = s.unit.func(name, fr.fn.mod)
        if f is None:
            raise Unsupported("call to external function without contract: " + dem(name))
        if len(st.frames) > 120: raise Unsupported("call depth")
        s.inlined.add(dem(name))
        s.push(st, f, args, x)
    def push(s, st, f, args, inst):
        par = st.frames[-1] if st.frames else None
        ctx = "" if par is None else f"{par.ctx}/{callsite(par, inst)}"
        nf = Frame(f, ctx, inst)
        for i, ((n, t), v) in enumerate(zip(f.params, args)):
            a = f.param_attrs[i]
            if "byval" in a:
                sz = f.mod.sizeof(a["byval"])
                o = Obj(f"byval:{short(dem(f.name))}:{n}#{ctx}", sz, False, None, "cells", "stack")
                nf.allocas.append(o)
                s.memcpy(st, Ptr(o, 0), v, sz)
                v = Ptr(o, 0)
            nf.regs[n] = v
        st.frames.append(nf)
        if nf.fn.entry in ir.loop_headers(nf.fn): raise Unsupported("entry block is a loop header")
    def apply(s, st, inst, outs, work):
        """outs: list of (state, ('ret', v)|('throw', Thrown)|('push', Func, args)|('end',)) or a plain value"""
        if outs is None or not isinstance(outs, list): outs = [(st, ("ret", outs))]
        first = True
        for st2, o in outs:
            if o[0] == "end": continue
            try:
                if o[0] == "ret": s.ret_to(st2, inst, o[1], work)
                elif o[0] == "throw": s.throw_from(st2, inst, o[1], work)
                elif o[0] == "push": s.push(st2, o[1], o[2], inst)
            except PathEnd:
                st2.frames = []; st2.outcome = ("dead",)
                if st2 is st: continue
                continue
            if st2 is not st: work.append(st2)
            else: first = False
        if first: raise PathEnd()
    def intrinsic(s, st, fr, x, name, args, work):
        v = None
        if name.startswith(("llvm.memcpy", "llvm.memmove")): s.memcpy(st, args[0], args[1], args[2])
        elif name.startswith("llvm.memset"): s.memset(st, args[0], args[1], args[2])
        elif name.startswith("llvm.eh.typeid.for"):
            v = s.typeid(x.a[0].v if x.a[0].k == "global" else "*")
        elif name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stack", "llvm.experimental", "llvm.donothing", "llvm.invariant")): v = None
        elif name.startswith("llvm.expect"): v = args[0]
        elif name.startswith("llvm.umul.with.overflow"):
            w = x.a[0].ty.w; a, b = args
            if s.opts.get("opaque_mul") and w == 64: a, b = bv(a, w), bv(b, w); v = [umul(a, b), umulo(a, b)]; st.assume(umul(a, b) == umul(b, a), umulo(a, b) == umulo(b, a))
            elif is_c(a) and is_c(b): v = [(a * b) & ((1 << w) - 1), a * b >= 1 << w]
            else: v = [simp(bv(a, w) * bv(b, w)), simp(z3.Not(z3.BVMulNoOverflow(bv(a, w), bv(b, w), False)))]
        elif name.startswith(("llvm.smul.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.uadd.with.overflow", "llvm.usub.with.overflow")):
            w = x.a[0].ty.w; a, b = bv(args[0], w), bv(args[1], w)
            k = name[5:9]
            r, ok = {"smul": lambda: (a * b, z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))),
                 "sadd": lambda: (a + b, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))),
                 "ssub": lambda: (a - b, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))),
                 "uadd": lambda: (a + b, z3.BVAddNoOverflow(a, b, False)),
                 "usub": lambda: (a - b, z3.BVSubNoUnderflow(a, b, False))}[k]()
            v = [simp(r), simp(z3.Not(ok))]
            if k == "smul" and s.opts.get("opaque_mul") and w == 64: v = [umul(a, b), smulo(a, b)]; st.assume(umul(a, b) == umul(b, a), smulo(a, b) == smulo(b, a))
        elif name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            w = x.ty.w; a, b = bv(args[0], w), bv(args[1], w)
            c = {"umin": z3.ULE(a, b), "umax": z3.UGE(a, b), "smin": a <= b, "smax": a >= b}[name[5:9]]
            v = simp(z3.If(c, a, b))
        elif name.startswith("llvm.bswap"):
            w = x.ty.w; a = bv(args[0], w)
            v = simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))
        elif name.startswith("llvm.trap"):
            s.oblige(st, f"safety:no trap ({s.where(st)})", False); raise PathEnd()
        elif name.startswith(("llvm.ctlz", "llvm.cttz")):
            w = x.ty.w; a = bv(args[0], w); r = BV(w, w)
            rng = range(w) if "ctlz" in name else range(w - 1, -1, -1)
            for i in rng: r = z3.If(z3.Extract(i, i, a) == 1, BV(w - 1 - i if "ctlz" in name else i, w), r)
            v = simp(r)
        elif name.startswith(("llvm.fabs",)): v = Fp(z3.fpAbs(args[0].t), args[0].w)
        elif name.startswith("llvm.is.fpclass"):
            a, m = args[0].t, args[1]; neg, qnan = z3.fpIsNegative(a), z3.BoolVal(True)
            if m & 3 not in (0, 3): raise Unsupported("signalling NaN test")
            c = [(3, z3.fpIsNaN(a)), (4, z3.And(neg, z3.fpIsInf(a))), (8, z3.And(neg, z3.fpIsNormal(a))), (16, z3.And(neg, z3.fpIsSubnormal(a))), (32, z3.And(neg, z3.fpIsZero(a))),
                 (64, z3.And(z3.Not(neg), z3.fpIsZero(a))), (128, z3.And(z3.Not(neg), z3.fpIsSubnormal(a))), (256, z3.And(z3.Not(neg), z3.fpIsNormal(a))), (512, z3.And(z3.Not(neg), z3.fpIsInf(a)))]
            v = simp(z3.Or(*[t for k, t in c if m & k]))
        else: raise Unsupported("intrinsic " + name)
        s.ret_to(st, x, v, work)

    # ---- loops
    def at_header(s, st, fr, b, phis, work):
        from . import engine
        engine.at_header(s, st, fr, b, phis, work)

def callsite(fr, inst):
    return f"{short(dem(fr.fn.name))}.{fr.blk}.{fr.ip}"

def arrcopy(dst, di, src, si, n):
    if z3.is_bv_value(z3.simplify(n)) and z3.simplify(n).as_long() <= 64:
        k = z3.simplify(n).as_long()
        r = dst
        vals = [z3.Select(src, z3.simplify(si + BV(i, 64))) for i in range(k)]
        for i in range(k): r = z3.Store(r, z3.simplify(di + BV(i, 64)), vals[i])
        return r
    i = z3.BitVec("i!l", 64)
    return z3.Lambda([i], z3.If(z3.And(z3.UGE(i, di), z3.ULT(i - di, n)), z3.Select(src, i - di + si), z3.Select(dst, i)))

def fcmp(pr, a, b):
    nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "ne": lambda x, y: z3.Not(z3.fpEQ(x, y))}
    if pr == "ord": return z3.Not(nan)
    if pr == "uno": return nan
    if pr == "true": return z3.BoolVal(True)
    if pr == "false": return z3.BoolVal(False)
    f = base[pr[1:]](a, b)
    if pr[0] == "o": return z3.And(z3.Not(nan), f)
    return z3.Or(nan, f)

def simp_fp(t): return z3.simplify(t)

def fpconst(txt, w):
    if txt.startswith("0x"):
        h = txt[2:]
        if h[0] in "KLMHR":
            if h[0] == "H": return z3.fpBVToFP(BV(int(h[1:], 16), 16), fpsort(16))
            if h[0] == "K":
                v = int(h[1:], 16)
                sgn, ex, man = v >> 79, (v >> 64) & 0x7fff, v & ((1 << 64) - 1)
                return z3.FPVal(0.0, fpsort(80)) if man == 0 else z3.fpFP(BV(sgn, 1), BV(ex, 15), BV(man & ((1 << 63) - 1), 63))
            raise Unsupported("fp const")
        import struct
        d = struct.unpack(">d", int(h, 16).to_bytes(8, "big"))[0]
        if w == 64: return z3.simplify(z3.fpBVToFP(BV(int(h, 16), 64), z3.Float64()))
        return z3.simplify(z3.fpToFP(z3.RNE(), z3.fpBVToFP(BV(int(h, 16), 64), z3.Float64()), fpsort(w)))
    return z3.FPVal(float(txt), fpsort(w))

_hid = {}
def hash_id(n):
    if n not in _hid: _hid[n] = len(_hid) + 1
    return _hid[n]

EXC_BASES = {
 "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
 "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
 "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12domain_error": ["_ZTISt11logic_error"],
 "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
 "_ZTISt8bad_cast": ["_ZTISt9exception"], "_ZTISt11range_error": ["_ZTISt13runtime_error"],
 "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"], "_ZTISt19bad_optional_access": ["_ZTISt9exception"],
 "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
}

def short(d):
    d = re.sub(r"\(.*", "", d)
    d = re.sub(r"<[^<>]*>", "", d)
    while re.search(r"<[^<>]*>", d): d = re.sub(r"<[^<>]*>", "", d)
    d = d.split(" ")[-1]
    p = d.split("::")
    return "::".join(p[-2:])
