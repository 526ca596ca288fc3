"""A third back end: exact bit-vector formulas relaxed to linear integer
arithmetic with uninterpreted functions.  Sums keep their wrap-around (an
integer multiple of 2^w is subtracted); whatever has no linear meaning becomes
an unconstrained value of its width.  The relaxation only ever adds models, so
only the answer 'unsat' is used."""
import z3

class Tr:
    def __init__(s):
        s.memo = {}; s.n = 0; s.lin = {}; s.deps = []; s.top = {}
        s.side = s.consts = None
    def fresh(s, w):
        s.n += 1
        v = z3.Int(f"lia!{s.n}")
        s.side += [v >= 0, v < (1 << w)]
        return v
    def linear(s, e, w, c, acc):
        """acc += c * e modulo 2^w over the atoms (by id)"""
        k = e.decl().kind()
        if z3.is_bv_value(e): acc[None] = acc.get(None, 0) + c * e.as_long(); return
        if k == z3.Z3_OP_BADD:
            for a in e.children(): s.linear(a, w, c, acc)
            return
        if k == z3.Z3_OP_BSUB:
            ch = e.children(); s.linear(ch[0], w, c, acc)
            for a in ch[1:]: s.linear(a, w, -c, acc)
            return
        if k == z3.Z3_OP_BNEG: s.linear(e.arg(0), w, -c, acc); return
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                if z3.is_bv_value(a): s.linear(b, w, c * a.as_long(), acc); return
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w:
            s.linear(e.arg(0), w, c << e.arg(1).as_long(), acc); return
        if k == z3.Z3_OP_BNOT:      # -1 - x
            acc[None] = acc.get(None, 0) - c; s.linear(e.arg(0), w, -c, acc); return
        i = e.get_id(); s.lin[i] = e; acc[i] = acc.get(i, 0) + c
    def bv(s, e):
        return s.node(e, s.bv_)
    def node(s, e, f):
        """translated once; its side conditions (and those of its parts) are
        remembered with it"""
        i = e.get_id(); r = s.memo.get(i)
        if r is None:
            old = s.side, s.consts, s.deps
            s.side, s.consts, s.deps = [], [], []
            v = f(e)
            r = s.memo[i] = (v, e, s.side, s.consts, s.deps)
            s.side, s.consts, s.deps = old
        s.deps.append(i)
        return r[0]
    def bv_(s, e):
        w = e.size()
        if z3.is_bv_value(e): return z3.IntVal(e.as_long())
        k = e.decl().kind()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL, z3.Z3_OP_BNOT):
            acc = {}; s.linear(e, w, 1, acc)
            M = 1 << w; lo = hi = 0; terms = []
            for i, c in acc.items():
                c %= M
                if c >= M >> 1: c -= M
                if not c: continue
                if i is None: lo += c; hi += c; terms.append(z3.IntVal(c)); continue
                x = s.lin[i]
                if x.get_id() == e.get_id(): return s.fresh(w)
                terms.append(c * s.bv(x) if c != 1 else s.bv(x)); b = c * (M - 1)
                if b > 0: hi += b
                else: lo += b
            if not terms: return z3.IntVal(0)
            t = terms[0] if len(terms) == 1 else z3.Sum(*terms)
            kl, kh = lo // M, hi // M
            if kl == kh == 0: return t
            q = z3.Int(f"q!{s.n}"); s.n += 1
            s.side += [q >= kl, q <= kh]
            v = s.fresh(w); s.side.append(v == t - M * q)
            return v
        if k == z3.Z3_OP_ITE: return z3.If(s.bool(e.arg(0)), s.bv(e.arg(1)), s.bv(e.arg(2)))
        if k == z3.Z3_OP_ZERO_EXT: return s.bv(e.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            x = s.bv(e.arg(0)); a = e.arg(0).size(); return z3.If(x >= (1 << (a - 1)), x + (1 << w) - (1 << a), x)
        if k == z3.Z3_OP_CONCAT:
            r = None
            for a in e.children():
                r = s.bv(a) if r is None else r * (1 << a.size()) + s.bv(a)
            return r
        if k == z3.Z3_OP_EXTRACT:
            h, l = e.params(); x = s.bv(e.arg(0)); n = e.arg(0).size()
            # x = top * 2^(h+1) + v * 2^l + low
            v = s.fresh(w); t = x - v * (1 << l)
            if h + 1 < n: t = t - s.fresh(n - h - 1) * (1 << (h + 1))
            if l: t = t - s.fresh(l)
            s.side.append(t == 0); return v
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)):
            c = e.arg(1).as_long()
            if c >= w: return z3.IntVal(0)
            x = s.bv(e.arg(0)); v = s.fresh(w - c); s.side += [x - v * (1 << c) >= 0, x - v * (1 << c) < (1 << c)]; return v
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(e.arg(1)):
            c = min(e.arg(1).as_long(), w - 1); x = s.sgn(e.arg(0)); q = z3.Int(f"q!{s.n}"); s.n += 1
            s.side += [x - q * (1 << c) >= 0, x - q * (1 << c) < (1 << c)]
            return z3.If(q >= 0, q, q + (1 << w))
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            c = e.arg(1).as_long(); x = s.bv(e.arg(0)); v = s.fresh(w); s.side += [x - v * c >= 0, x - v * c < c]; return v
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            c = e.arg(1).as_long(); x = s.bv(e.arg(0)); v = s.fresh(w); r = x - v * c; s.side += [r >= 0, r < c]; return r
        if k == z3.Z3_OP_SELECT and e.num_args() == 2: return s.select(e.arg(0), e.arg(1), w)
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                v = z3.Int("bv." + e.decl().name() + f".{w}"); s.consts.append((e, v)); s.side += [v >= 0, v < (1 << w)]; return v
            return s.app(e, w)
        return s.fresh(w)
    def app(s, e, w):
        d = e.decl(); args = []; so = []
        for a in e.children():
            if z3.is_bv(a): args.append(s.bv(a)); so.append(z3.IntSort())
            elif z3.is_bool(a): args.append(s.bool(a)); so.append(z3.BoolSort())
            elif a.sort().kind() == z3.Z3_INT_SORT or z3.is_array(a) or True:
                if z3.is_array(a): args.append(z3.IntVal(a.get_id())); so.append(z3.IntSort()); s.memo[("keep", a.get_id())] = a
                else: return s.fresh(w) if w else s.freshb()
        f = z3.Function("f." + d.name() + f".{w}", *so, z3.IntSort() if w else z3.BoolSort())
        v = f(*args)
        if w: s.side += [v >= 0, v < (1 << w)]
        return v
    def select(s, a, i, w):
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_STORE and a.num_args() == 3: return z3.If(s.bv(i) == s.bv(a.arg(1)), s.bv(a.arg(2)), s.select(a.arg(0), i, w))
        if k == z3.Z3_OP_ITE: return z3.If(s.bool(a.arg(0)), s.select(a.arg(1), i, w), s.select(a.arg(2), i, w))
        if k == z3.Z3_OP_CONST_ARRAY: return s.bv(a.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0 and z3.is_bv(i):
            f = z3.Function("a." + a.decl().name() + "." + a.sort().sexpr(), z3.IntSort(), z3.IntSort()); v = f(s.bv(i)); s.side += [v >= 0, v < (1 << w)]; return v
        return s.fresh(w)
    def freshb(s):
        s.n += 1
        return z3.Bool(f"lia?{s.n}")
    def sgn(s, e):
        x = s.bv(e); w = e.size()
        if z3.is_int_value(x):
            v = x.as_long(); return z3.IntVal(v - (1 << w) if v >> (w - 1) else v)
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)
    def bool(s, e):
        return s.node(e, s.bool_)
    def bool_(s, e):
        if z3.is_true(e) or z3.is_false(e): return e
        if not z3.is_app(e): return s.freshb()
        k = e.decl().kind(); c = e.children()
        if k == z3.Z3_OP_AND: return z3.And(*[s.bool(x) for x in c])
        if k == z3.Z3_OP_OR: return z3.Or(*[s.bool(x) for x in c])
        if k == z3.Z3_OP_NOT: return z3.Not(s.bool(c[0]))
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.bool(c[0]), s.bool(c[1]))
        if k == z3.Z3_OP_XOR: return z3.Xor(s.bool(c[0]), s.bool(c[1]))
        if k == z3.Z3_OP_ITE: return z3.If(s.bool(c[0]), s.bool(c[1]), s.bool(c[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(c) == 2:
            if z3.is_bool(c[0]): r = s.bool(c[0]) == s.bool(c[1])
            elif z3.is_bv(c[0]): r = s.bv(c[0]) == s.bv(c[1])
            else: return s.freshb()
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        if k == z3.Z3_OP_ULEQ: return s.bv(c[0]) <= s.bv(c[1])
        if k == z3.Z3_OP_ULT: return s.bv(c[0]) < s.bv(c[1])
        if k == z3.Z3_OP_UGEQ: return s.bv(c[0]) >= s.bv(c[1])
        if k == z3.Z3_OP_UGT: return s.bv(c[0]) > s.bv(c[1])
        if k == z3.Z3_OP_SLEQ: return s.sgn(c[0]) <= s.sgn(c[1])
        if k == z3.Z3_OP_SLT: return s.sgn(c[0]) < s.sgn(c[1])
        if k == z3.Z3_OP_SGEQ: return s.sgn(c[0]) >= s.sgn(c[1])
        if k == z3.Z3_OP_SGT: return s.sgn(c[0]) > s.sgn(c[1])
        if k == z3.Z3_OP_UNINTERPRETED:
            if not c: v = z3.Bool("b." + e.decl().name()); s.consts.append((e, v)); return v
            return s.app(e, 0)
        return s.freshb()

    def formula(s, f):
        """(translation, side conditions, constants) of a whole formula"""
        i = f.get_id(); r = s.top.get(i)
        if r is None:
            s.side, s.consts, s.deps = [], [], []
            v = s.bool(f); seen = set(); todo = list(s.deps); side = []; consts = {}
            while todo:
                k = todo.pop()
                if k in seen: continue
                seen.add(k); m = s.memo[k]; side += m[2]; todo += m[4]
                for e, x in m[3]: consts[e.get_id()] = (e, x)
            r = s.top[i] = (v, side, consts, f)
        return r

def check(fs, ms, t=None):
    """(unsat, None), (sat, solver with a genuine model) or (unknown, None)"""
    t = t or Tr()
    so = z3.SolverFor("QF_UFLIA"); so.set("timeout", ms); consts = {}; seen = set()
    for f in fs:
        v, side, cs, _ = t.formula(f); so.add(v); consts.update(cs)
        for x in side:
            if x.get_id() not in seen: seen.add(x.get_id()); so.add(x)
    c = so.check()
    if c == z3.unsat: return c, None
    if c != z3.sat: return z3.unknown, None
    # the values of a model of the relaxation, tried in the exact formula
    m = so.model(); sg = z3.Solver(); sg.set("timeout", 500); sg.add(*fs)
    for e, v in consts.values():
        x = m.eval(v, model_completion=True)
        if z3.is_bv(e):
            if z3.is_int_value(x): sg.add(e == z3.BitVecVal(x.as_long(), e.size()))
        else: sg.add(e == x)
    return (z3.sat, sg) if sg.check() == z3.sat else (z3.unknown, None)
