"""Houdini loop-invariant inference, verification driver, default candidates."""
import z3, time, re, traceback
from .sym import *
from . import sym, ir

class LoopInfo:
    def __init__(s):
        s.mods = set()        # modified locations: ('cell',oname,off) ('arr',oname) ('ghost',k) ('obj',oname)
        s.dropped = set()     # dropped candidate labels
        s.unk = set()         # candidates the solver gave no answer for
        s.phimulti = set()    # pointer phis / cells that change object
        s.kept = set()
        s.visits = 0

class Snap:
    """what candidate generators see: the header state, symbolic"""
    def __init__(s, ex, st, fr, hdr, ints, ptrs, entry):
        s.ex, s.st, s.fr, s.hdr, s.ints, s.ptrs = ex, st, fr, hdr, ints, ptrs
        s.entry = entry           # dict of values at first arrival
    def ghost(s, k): return s.st.ghost.get(k)

def locs(ex, st, fr, phis, li):
    """int and pointer locations that the loop changes: name -> value"""
    ints, ptrs = {}, {}
    for r, t in phis:
        v = fr.regs[r]
        nm = "phi." + r
        if t.k == "ptr":
            if isinstance(v, Ptr): ptrs[nm] = v
        elif t.k == "int" and t.w >= 8: ints[nm] = (v, t.w)
        elif t.k == "int": ints[nm] = (v, 1)
    for k in sorted(li.mods, key=str):
        if k[0] == "cell":
            o = ex.byname(st, k[1])
            if o is None: continue
            m = st.mem.get(o.id)
            c = m.cells.get(k[2]) if m else None
            if c is None: continue
            v = c[1]
            nm = f"{k[1]}+{k[2]}"
            if isinstance(v, Ptr): ptrs[nm] = v
            elif isinstance(v, (FnPtr, VFn, Fp)): pass
            else: ints[nm] = (v, 8 * c[0])
        elif k[0] == "ghost":
            v = st.ghost.get(k[1])
            if v is None: continue
            if is_c(v) or z3.is_bv(v): ints["ghost." + k[1]] = (v, 64 if is_c(v) else v.size())
    return ints, ptrs

def byname(ex, st, name):
    for oid in st.mem:
        o = ex.objs.get(oid)
        if o is not None and o.name == name: return o
    return None
sym.Exec.byname = byname

def eqval(a, b):
    """syntactic/semantic-free equality of cell values"""
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and eqval(a.f, b.f)
    if isinstance(a, (Ptr, FnPtr, VFn, Fp)) or isinstance(b, (Ptr, FnPtr, VFn, Fp)):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if isinstance(a, Fp) and isinstance(b, Fp): return a.t.eq(b.t)
        if isinstance(a, VFn) and isinstance(b, VFn): return a.obj is b.obj and a.slot == b.slot
        return False
    if is_c(a) and is_c(b): return a == b and isinstance(a, bool) == isinstance(b, bool)
    if is_c(a) or is_c(b): return False
    return a.eq(b)

def same(ex, st, a, b):
    """provably equal on this path"""
    if eqval(a, b): return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and same(ex, st, a.f, b.f)
    if isinstance(a, (Ptr, FnPtr, VFn, Fp)) or isinstance(b, (Ptr, FnPtr, VFn, Fp)): return False
    try:
        if isinstance(a, bool) or isinstance(b, bool) or (not is_c(a) and z3.is_bool(a)):
            return ex.valid(st, bo(a) == bo(b), 3000)
        return ex.valid(st, eq(a, b), 3000)
    except z3.Z3Exception:
        return False

def at_header(ex, st, fr, b, phis, work):
    key = (fr.ctx + "/" + short(dem(fr.fn.name)), b)
    li = ex.loops.get(key)
    if li is None: li = ex.loops[key] = LoopInfo()
    act = fr.active.get(b)
    if act is None:
        entry = {}
        ints, ptrs = locs(ex, st, fr, phis, li)
        for n, (v, w) in ints.items(): entry[n] = v
        for n, p in ptrs.items(): entry[n] = p
        entry["ghosts"] = dict(st.ghost)
        entry["st"] = st.copy()
        sn = Snap(ex, st, fr, b, ints, ptrs, entry)
        if ex.mode == "infer": prune(ex, st, key, sn, li)
        else: confirm(ex, st, key, sn, li, f"loop invariant established [{short(dem(fr.fn.name))}.{b}]")
        havoc(ex, st, fr, key, phis, li, entry)
        ints, ptrs = locs(ex, st, fr, phis, li)
        sn = Snap(ex, st, fr, b, ints, ptrs, entry)
        for lab, f in gen(ex, key, sn, li):
            if lab not in li.dropped: st.assume(f)
        if not ex.feasible_pc(st): raise PathEnd()
        fr.active[b] = (entry, snapshot(st), {r: fr.regs[r] for r, t in phis}, len(st.trace))
        st.trace.append((short(dem(fr.fn.name)), "loop " + b))
        li.visits += 1
        return
    entry, snap, ph0, _ = act
    # back at the header: unchanged locations must be unchanged...
    newmods = diff(ex, st, snap, li)
    if newmods:
        if ex.mode == "final":
            for k in newmods: ex.results.append((f"loop frame [{short(dem(fr.fn.name))}.{b}]: {k}", "failed", None, list(st.trace), 0))
        li.mods |= newmods; ex.changed = True
    for r, t in phis:
        if t.k == "ptr":
            v, v0 = fr.regs[r], ph0[r]
            whole(ex, v)
            if not (isinstance(v, Ptr) and isinstance(v0, Ptr) and v.o is v0.o) and ("phi", r) not in li.phimulti:
                li.phimulti.add(("phi", r)); ex.changed = True
                if ex.mode == "final": ex.results.append((f"loop frame: {r}", "failed", None, list(st.trace), 0))
    for k in li.mods:
        if k[0] == "cell" and ex.opts.get("scale"):
            o = ex.byname(st, k[1]); c = st.mem[o.id].cells.get(k[2]) if o is not None and o.id in st.mem and st.mem[o.id].mode == "cells" else None
            if c is not None: whole(ex, c[1])
    # ... and the invariant holds again
    ints, ptrs = locs(ex, st, fr, phis, li)
    sn = Snap(ex, st, fr, b, ints, ptrs, entry)
    if ex.mode == "infer": prune(ex, st, key, sn, li)
    else:
        confirm(ex, st, key, sn, li, f"loop invariant preserved [{short(dem(fr.fn.name))}.{b}]", keep=True)
    raise PathEnd()

def live(ex, key, sn, li):
    todo = []
    for lab, f in gen(ex, key, sn, li):
        if lab in li.dropped: continue
        f = simp(bo(f))
        if f is True: continue
        todo.append((lab, z3.BoolVal(False) if f is False else f))
    return todo

def prune(ex, st, key, sn, li):
    """drop every candidate that this path does not prove"""
    todo = live(ex, key, sn, li)
    while todo:
        r = ex.check(st.pc + [z3.Not(z3.And(*[f for _, f in todo]))], 6000 * ex.patience)
        if r == z3.unsat: return
        bad = set()
        if r == z3.sat:
            m = ex.last.model()
            for lab, f in todo:
                if not z3.is_true(m.eval(f, model_completion=True)): bad.add(lab)
        if not bad:
            for lab, f in todo:
                c = ex.check(st.pc + [z3.Not(f)], 4000 * ex.patience)
                if c == z3.unsat: continue
                if c != z3.sat:
                    # no answer: not refuted.  Without the candidate a failure
                    # later on means nothing (see verify)
                    li.unk.add(lab)
                    if ex.optimistic: continue
                bad.add(lab)
            li.dropped |= bad
            if bad: ex.changed = True
            return
        li.dropped |= bad; ex.changed = True
        todo = [(l, f) for l, f in todo if l not in bad]

def confirm(ex, st, key, sn, li, what, keep=False):
    todo = live(ex, key, sn, li)
    if keep: li.kept |= {l for l, _ in todo}
    if not todo: return
    t = time.time()
    if ex.optimistic:
        for lab, f in [(l, f) for l, f in todo if l in li.unk]:
            ex.results.append((f"{what}: {lab}", "unknown", None, list(st.trace), 0)); st.assume(f)
        todo = [(l, f) for l, f in todo if l not in li.unk]
        if not todo: return
    if ex.check(st.pc + [z3.Not(z3.And(*[f for _, f in todo]))], 20000) == z3.unsat:
        dt = (time.time() - t) / len(todo)
        for lab, f in todo:
            ex.results.append((f"{what}: {lab}", "proved", None, None, dt)); st.assume(f)
        return
    for lab, f in todo: ex.oblige(st, f"{what}: {lab}", f)

def gen(ex, key, sn, li):
    out = []
    seen = set()
    for g in ex.cand_fns:
        for lab, f in g(sn):
            if lab in seen: continue
            seen.add(lab)
            out.append((lab, f))
    return out

def snapshot(st):
    return ({k: v for k, v in st.mem.items()}, dict(st.ghost))

def diff(ex, st, snap, li):
    mem0, gh0 = snap
    new = set()
    for oid, m in st.mem.items():
        o = ex.objs.get(oid)
        m0 = mem0.get(oid)
        if m is m0: continue
        if m0 is None:
            # first touched inside the loop
            if o is None or o.lazy is False: 
                continue
            m0 = OMem(m.mode)
            if m.mode == "bytes": m0.arr = z3.Array(o.name + "[]", z3.BitVecSort(64), z3.BitVecSort(8))
            elif m.mode == "words": m0.arr = z3.Array(o.name + "[]", z3.BitVecSort(64), z3.BitVecSort(8 * m.ew))
        nm = o.name
        if m.alive != m0.alive and ("alive", nm) not in li.mods: new.add(("alive", nm))
        if m.mode in ("bytes", "words") or m0.mode in ("bytes", "words"):
            if m.mode != m0.mode:
                if ("arr", nm) not in li.mods: new.add(("arr", nm))
            elif m.arr is not m0.arr and not m.arr.eq(m0.arr) and ("arr", nm) not in li.mods:
                if not ex.valid(st, m.arr == m0.arr, 2000): new.add(("arr", nm))
            continue
        for off in set(m.cells) | set(m0.cells):
            c, c0 = m.cells.get(off), m0.cells.get(off)
            if c is not None and c0 is not None and c[0] == c0[0]:
                k = ("cell", nm, off)
                if k in li.mods and not isinstance(c[1], Ptr) and not isinstance(c0[1], Ptr): continue
                if k in li.mods and isinstance(c[1], Ptr) and isinstance(c0[1], Ptr) and (c[1].o is c0[1].o or ("cellobj", nm, off) in li.mods): continue
                if not same(ex, st, c[1], c0[1]):
                    if k not in li.mods: new.add(k)
                    if isinstance(c[1], Ptr) or isinstance(c0[1], Ptr):
                        if not (isinstance(c[1], Ptr) and isinstance(c0[1], Ptr) and c[1].o is c0[1].o):
                            if ("cellobj", nm, off) not in li.mods: new.add(("cellobj", nm, off))
            elif c is not None and c0 is None:
                # materialised (lazy read) or written inside the loop
                k = ("cell", nm, off)
                if k in li.mods: continue
                if o.lazy:
                    iv = ex.lazymemo.get((oid, off, c[0], "p" if isinstance(c[1], (Ptr, VFn)) else "f" if isinstance(c[1], Fp) else "i"))
                    if iv is not None and same(ex, st, iv, c[1]): continue
                    # size/partial mismatch: treat as modified
                    new.add(k)
                else:
                    new.add(k)
            elif c is None and c0 is not None:
                if ("cell", nm, off) not in li.mods: new.add(("cell", nm, off))
    for k in set(st.ghost) | set(gh0):
        if ("ghost", k) in li.mods: continue
        a, b = st.ghost.get(k), gh0.get(k)
        if a is b: continue
        if a is None or b is None: new.add(("ghost", k)); continue
        if isinstance(a, (tuple, list, str, Ptr)) or isinstance(b, (tuple, list, str, Ptr)):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and eqval(a, b)) and a != b: new.add(("ghost", k))
            continue
        if z3.is_expr(a) and z3.is_expr(b) and z3.is_array(a):
            if not a.eq(b) and not ex.valid(st, a == b, 2000): new.add(("ghost", k))
            continue
        if not same(ex, st, a, b): new.add(("ghost", k))
    return new

def freshoff(ex, v, name):
    """an arbitrary offset; into an array of elements of a fixed size (opts
    'scale'): of a whole element (checked where the loop is entered and at its
    back edges)"""
    e = ex.opts.get("scale", {}).get(v.o.id)
    if e is None: return ex.fresh(name)
    whole(ex, v)
    i = ex.fresh(name.replace(".off@", ".index@")); return i * e

def whole(ex, v):
    from .lib import quot
    e = ex.opts.get("scale", {}).get(v.o.id) if isinstance(v, Ptr) and v.o is not None else None
    if e is not None and quot(simp(v.f), e) is None: raise Unsupported("pointer into the middle of an element: " + v.o.name)

def havoc(ex, st, fr, key, phis, li, entry):
    tag = key[1]
    for r, t in phis:
        v = fr.regs[r]
        if t.k == "int":
            fr.regs[r] = ex.freshb(f"{r}@{tag}") if t.w == 1 else ex.fresh(f"{r}@{tag}", t.w)
        elif t.k == "ptr":
            if ("phi", r) in li.phimulti or not isinstance(v, Ptr):
                no = Obj(f"loopptr:{r}@{tag}", None, "assume", None); no.nullc = ex.freshb("null")
                fr.regs[r] = Ptr(no, 0); ex.objs[no.id] = no
            elif v.o is None: fr.regs[r] = v
            else: fr.regs[r] = Ptr(v.o, freshoff(ex, v, f"{r}.off@{tag}"))
        elif t.k == "fp":
            ex.freshn += 1
            fr.regs[r] = Fp(z3.FP(f"{r}@{tag}!{ex.freshn}", fpsort(t.w)), t.w)
        else: raise Unsupported("aggregate phi at loop header")
    for k in sorted(li.mods, key=str):
        if k[0] == "cell":
            o = ex.byname(st, k[1])
            if o is None: continue
            m = st.mem.get(o.id)
            if m is None or m.mode != "cells": continue
            c = m.cells.get(k[2])
            m = ex.omw(st, o)
            if c is None: 
                # unknown before the loop: nothing known to forget
                if o.lazy:
                    # a later read must not see the *initial* value
                    m.cells.pop(k[2], None)
                    sz = li.__dict__.setdefault("sz", {}).get(k)
                    if sz: m.cells[k[2]] = (sz, ex.fresh(f"{k[1]}+{k[2]}@{tag}", 8 * sz))
                    else: raise Unsupported(f"loop writes {k} unseen before the loop")
                continue
            v = c[1]
            if isinstance(v, Ptr):
                if ("cellobj", k[1], k[2]) in li.mods or v.o is None:
                    h = ex.opts.get("havoc_ptr")
                    nv = h(ex, st, k, v) if h else None
                    if nv is None:
                        no = Obj(f"loopptr:{k[1]}+{k[2]}@{tag}", None, "assume", None); no.nullc = ex.freshb("null")
                        nv = Ptr(no, 0); ex.objs[no.id] = no
                    m.cells[k[2]] = (8, nv)
                else: m.cells[k[2]] = (8, Ptr(v.o, freshoff(ex, v, f"{k[1]}+{k[2]}.off@{tag}")))
            elif isinstance(v, Fp):
                ex.freshn += 1
                m.cells[k[2]] = (c[0], Fp(z3.FP(f"{k[1]}@{tag}!{ex.freshn}", fpsort(v.w)), v.w))
            elif isinstance(v, (FnPtr, VFn)): raise Unsupported("loop changes function pointer")
            else: m.cells[k[2]] = (c[0], ex.fresh(f"{k[1]}+{k[2]}@{tag}", 8 * c[0]))
        elif k[0] == "arr":
            o = ex.byname(st, k[1])
            if o is None: continue
            m = ex.omw(st, o)
            if m.mode == "cells": m = ex.to_array(st, o, 1)
            m.arr = ex.fresharr(f"{k[1]}[]@{tag}", 8 * m.ew)
        elif k[0] == "ghost":
            v = st.ghost.get(k[1])
            h = ex.opts.get("havoc_ghost")
            if h:
                r = h(ex, st, k[1], v)
                if r is not None: st.ghost[k[1]] = r; continue
            if v is None: continue
            if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): st.ghost[k[1]] = ex.freshb(k[1])
            elif is_c(v): st.ghost[k[1]] = ex.fresh(k[1], 64)
            elif z3.is_bv(v): st.ghost[k[1]] = ex.fresh(k[1], v.size())
            elif z3.is_array(v): 
                ex.freshn += 1
                st.ghost[k[1]] = z3.Const(f"{k[1]}!{ex.freshn}", v.sort())
            else: raise Unsupported("havoc of ghost " + k[1])
        elif k[0] == "alive":
            raise Unsupported("loop frees an object allocated before it: " + k[1])

def feasible_pc(ex, st):
    return ex.check(st.pc, 3000) != z3.unsat
sym.Exec.feasible_pc = feasible_pc

# ---- objects registry: every Obj made gets registered through om()
_om = sym.Exec.om
def om(s, st, o):
    s.objs[o.id] = o
    return _om(s, st, o)
sym.Exec.om = om
_init = sym.Exec.__init__
def init(s, *a, **k):
    s.objs = {}
    _init(s, *a, **k)
sym.Exec.__init__ = init
def new_obj(s, st, name, size=None, mode="cells", lazy=False, nullc=None):
    ctx = ""
    if st.frames:
        fr = st.frames[-1]; ctx = f"@{fr.ctx}/{short(dem(fr.fn.name))}.{fr.blk}.{fr.ip}"
    o = Obj(name + ctx, size, lazy, nullc, mode)
    s.objs[o.id] = o
    return o
sym.Exec.new_obj = new_obj

# ------------------------------------------------------------------ default candidates
def default_cands(sn):
    """generic templates over the locations the loop changes"""
    out = []
    I, P, E = sn.ints, sn.ptrs, sn.entry
    sc = sn.ex.opts.get("scale") or {}
    if sc:
        # elements by their index
        from .lib import quot
        def idx(p):
            e = sc.get(p.o.id) if isinstance(p, Ptr) and p.o is not None else None
            k = quot(simp(p.f), e) if e is not None else None
            return p if k is None else Ptr(p.o, k)
        P = {n: idx(p) for n, p in P.items()}; E = {n: idx(p) if isinstance(p, Ptr) else p for n, p in E.items()}
    for n, p in P.items():
        e = E.get(n)
        if p.o is None or not isinstance(e, Ptr): continue
        if p.o is not e.o: 
            continue
        if p.o.id in sc:
            k = quot(simp(p.o.size), sc[p.o.id]) if p.o.size is not None else None
            if k is not None: out.append((f"{n}<=end", z3.ULE(bv(p.f, 64), bv(k, 64))))
        elif p.o.size is not None:
            out.append((f"0<={n}<=end", z3.ULE(bv(p.f, 64), bv(p.o.size, 64))))
        out.append((f"{n}>=entry", sle(e.f, p.f)))
        out.append((f"{n}<=entry", sle(p.f, e.f)))
    for n, (v, w) in I.items():
        e = E.get(n)
        if e is None: continue
        if w == 1:
            out.append((f"{n}==entry", bo(asbool(v)) == bo(asbool(e)))); continue
        out.append((f"{n}>=entry", ule(bv(e, w), bv(v, w))))
        out.append((f"{n}<=entry", ule(bv(v, w), bv(e, w))))
        if w == 8:
            out.append((f"{n}<=1", ule(bv(v, 8), BV(1, 8))))
    # pairs
    names = sorted(P)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            pa, pb = P[a], P[b]
            if pa.o is None or pa.o is not pb.o: continue
            out.append((f"{a}<={b}", sle(pa.f, pb.f)))
            out.append((f"{b}<={a}", sle(pb.f, pa.f)))
    # lock step: difference to entry equal
    diffs = []
    for n, p in P.items():
        e = E.get(n)
        if isinstance(e, Ptr) and p.o is e.o and p.o is not None: diffs.append((n, sub(p.f, e.f), 64))
    for n, (v, w) in I.items():
        e = E.get(n)
        if w == 64 and e is not None: diffs.append((n, sub(v, e), 64))
    for i, (a, da, w) in enumerate(diffs):
        for b, db, w2 in diffs[i + 1:]:
            out.append((f"d({a})==d({b})", eq(da, db)))
            out.append((f"d({a})==-d({b})", eq(add(da, db), 0)))
            for sh in (2, 3):
                out.append((f"d({a})==d({b})<<{sh}", bv(da, 64) == (bv(db, 64) << sh)))
                out.append((f"d({b})==d({a})<<{sh}", bv(db, 64) == (bv(da, 64) << sh)))
    for k, bnd in (sn.ex.opts.get("bounds") or {}).items():
        t = bnd(sn) if callable(bnd) else bnd
        if t is None: continue
        for n, (v, w) in I.items():
            if w == 64:
                out.append((f"{n}<={k}", ule(v, t)))
                out.append((f"{n}=={k}", eq(v, t)))
        for n, p in P.items():
            if isinstance(E.get(n), Ptr) and E[n].o is p.o and p.o is not None:
                out.append((f"{n}<={k}", ule(p.f, t)))
    return out

# ------------------------------------------------------------------ driver
class Result:
    def __init__(s):
        s.status = None; s.obl = []; s.err = None; s.time = 0; s.paths = 0; s.passes = 0; s.covers = {}; s.ex = None; s.loops = {}
        s.solver_s = 0; s.nq = 0

def verify(*a, **k):
    """setup(ex, st) -> args; post(ex, st, outcome) -> yields (label, formula)
    status: proved / failed / undecided.  When an invariant candidate was
    given up only because the solver gave no answer, a failure is believed
    only if it remains with the candidate assumed."""
    R = attempt(*a, **k)
    if R.status != "failed" or not any(v.unk for v in R.ex.loops.values()): return R
    Q = attempt(*a, **k, optimistic=True)
    Q.time += R.time; Q.solver_s += R.solver_s; Q.nq += R.nq
    return Q

def attempt(name, unit, fn, setup, post, stubs, cands=(), opts=None, on_load=(), budget=300, covers=(), optimistic=False):
    R = Result(); R.name = name
    t0 = time.time()
    ex = sym.Exec(unit, stubs, dict(opts or {}))
    ex.optimistic = optimistic; ex.patience = 3 if optimistic else 1
    R.ex = ex
    ex.deadline = t0 + budget
    ex.cand_fns = [default_cands] + list(cands)
    ex.on_load = list(on_load)
    try:
        f = fn if not isinstance(fn, str) else unit.one(fn)
        R.fn = dem(f.name)
        npass = 0
        while True:
            npass += 1
            ex.changed = False; ex.mode = "infer"; ex.stats["paths"] = 0
            run_once(ex, f, setup, None)
            if not ex.changed: break
            if npass > 60: raise Unsupported("invariant inference does not converge")
        ex.mode = "final"; ex.stats["paths"] = 0; ex.results = []
        ends = []
        run_once(ex, f, setup, lambda st: final_end(ex, st, post, ends, R))
        R.passes = npass
        R.paths = ex.stats["paths"]
        R.obl = ex.results
        for k, v in ex.loops.items():
            R.loops[f"{k[0]}:{k[1]}"] = sorted(v.kept)
        bad = [o for o in ex.results if o[1] != "proved"]
        miss = [c for c in covers if not R.covers.get(c)]
        if any(o[1] == "failed" for o in bad): R.status = "failed"
        elif bad: R.status = "undecided"; R.err = "solver gave no answer for: " + bad[0][0]
        elif not ex.results: R.status = "undecided"; R.err = "no obligation generated"
        elif miss: R.status = "undecided"; R.err = "vacuity guard: not reachable: " + ", ".join(miss)
        else: R.status = "proved"
    except Unsupported as e:
        R.status = "undecided"; R.err = str(e)
    except RecursionError as e:
        R.status = "undecided"; R.err = "recursion"
    except z3.Z3Exception as e:
        R.status = "undecided"; R.err = "z3: " + str(e)[:300]; R.tb = traceback.format_exc()
    except Exception as e:
        R.status = "undecided"; R.err = f"internal: {type(e).__name__}: {e}"; R.tb = traceback.format_exc()
    R.time = time.time() - t0
    R.solver_s = ex.tcheck; R.nq = ex.nq
    return R

def run_once(ex, f, setup, end):
    st = State()
    ex.init_state = st
    args = setup(ex, st)
    if not isinstance(args, list): raise Unsupported("setup")
    ex.push(st, f, args, None)
    ex.run(st, (lambda s: end(s) if end and s.outcome != ("dead",) else None))

def final_end(ex, st, post, ends, R):
    out = st.outcome
    # vacuity: is this end reachable at all?
    def cover(label, cond=True):
        if R.covers.get(label): return
        c = bo(cond)
        if ex.check(st.pc + [c], 5000) == z3.sat: R.covers[label] = True
        else: R.covers.setdefault(label, False)
    ex.cover = cover
    for lab, fml in post(ex, st, out):
        ex.oblige_q(st, lab, fml)
    R.covers["end"] = R.covers.get("end", 0) or True

def oblige_q(s, st, label, f):
    """postcondition: prove, do not assume"""
    g = simp(bo(f)) if not isinstance(f, bool) else f
    if g is True:
        s.results.append((label, "proved", None, None, 0.0)); return
    t = time.time()
    neg = z3.BoolVal(True) if g is False else z3.Not(g)
    r = s.check(st.pc + [neg], s.opts.get("timeout", 20000))
    m = None
    if r == z3.unknown: r, m = s.second_opinion(st.pc + [neg])
    elif r == z3.sat: m = s.last.model()
    s.results.append((label, {"unsat": "proved", "sat": "failed"}.get(str(r), "unknown"), m, list(st.trace), time.time() - t))
sym.Exec.oblige_q = oblige_q
