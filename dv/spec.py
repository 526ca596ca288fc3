"""Helpers for writing contracts: folds over byte buffers (recursively defined
specification functions, unfolded at the indices the code reads) and templates
for loop invariants about them."""
import z3
from .sym import *
from .engine import verify

BV64 = z3.BitVecSort(64)

class Fold:
    """Recursive spec functions comp_k : index -> value, defined by
    comp_k(i+1) = step_k(comp(i), i, byte i).  The defining equation is
    instantiated at every index the verified code reads (and where asked)."""
    def __init__(s, name, comps, step):
        s.name, s.comps, s.step = name, comps, step
        s.fn = {c: z3.Function(f"{name}.{c}", BV64, so) for c, so in comps.items()}
        s.done = set(); s.first = None
    def at(s, i):
        i = bv(i, 64)
        return {c: f(i) for c, f in s.fn.items()}
    def unfold(s, arr, i, ex=None, st=None):
        """the defining equation at i"""
        i = bv(i, 64)
        cur = s.at(i); nxt = s.at(z3.simplify(i + 1))
        r = s.step(cur, i, z3.Select(arr, i))
        # the recursion runs upwards from the start; nothing is said below it
        d = z3.And(*[nxt[c] == r[c] for c in s.comps])
        g = i != BV((1 << 64) - 1, 64)
        if s.first is not None: g = z3.And(g, z3.UGE(i, s.first))
        if ex is not None and ex.valid(st, g, 3000): return d
        return z3.Implies(g, d)
    def start(s, i, **vals):
        s.first = bv(i, 64)
        cur = s.at(i)
        return z3.And(*[cur[c] == v for c, v in vals.items()])
    def hook(s, obj, arr):
        """load hook: unfold at the byte offsets read from obj"""
        def h(ex, st, o, off, n):
            if o is not obj and o.name != obj.name: return
            if not is_c(n) or n > 16: return
            for k in range(n):
                st.assume(s.unfold(arr, add(off, k), ex, st))
        return h

def impl_table(sn, term, dom, tag):
    """candidates  loc == j  ==>  term == k  for small integer/bool locations"""
    out = []
    for n, (v, w) in sn.ints.items():
        if w == 1:
            b = bo(asbool(v))
            for k in dom:
                out.append((f"{n} => {tag}=={k}", z3.Implies(b, term == k)))
                out.append((f"!{n} => {tag}=={k}", z3.Implies(z3.Not(b), term == k)))
        elif w in (8, 32):
            for j in range(6):
                for k in dom:
                    out.append((f"{n}=={j} => {tag}=={k}", z3.Implies(bv(v, w) == j, term == k)))
    return out

def cell(ex, st, o, off, ty):
    return ex.load(st, Ptr(o, off), ty, ex.unit.mods[0])
