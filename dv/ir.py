"""Parser for the textual LLVM IR (opaque pointers, LLVM 18) that clang emits
for the real translation units of /repo.  It covers the subset that appears
there; anything else raises Unsupported when (and only when) it is executed."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "packed", "name")
    def __init__(s, k, w=0, n=0, el=None, fields=None, packed=False, name=None):
        s.k, s.w, s.n, s.el, s.fields, s.packed, s.name = k, w, n, el, fields, packed, name
    def __repr__(s):
        return f"<{s.k}{s.w or ''}{s.name or ''}>"

VOID, PTR, LABEL, META = Ty("void"), Ty("ptr"), Ty("label"), Ty("metadata")
INTS = {}
def IntTy(w):
    t = INTS.get(w)
    if t is None:
        t = INTS[w] = Ty("int", w)
    return t
FLOAT, DOUBLE, X87, HALF = Ty("fp", 32), Ty("fp", 64), Ty("fp", 80), Ty("fp", 16)

TOK = re.compile(r'''\s*(
  c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\.)*" |
  [%@$][-a-zA-Z$._0-9]+ | [%@$]"(?:[^"\\]|\\.)*" |
  ![-a-zA-Z$._0-9]* |
  \#[0-9]+ |
  "(?:[^"\\]|\\.)*" |
  0x[KLMHR]?[0-9A-Fa-f]+ |
  -?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)? |
  -?[0-9]+ |
  [-a-zA-Z$._][-a-zA-Z$._0-9]* |
  \.\.\. |
  [()\[\]{}<>,=*:;|]
)''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("tok: " + s[i:i+60])
        t = m.group(1)
        i = m.end()
        if t == ";":
            break
        out.append(t)
    return out

PARAM_ATTRS = {"noundef","nonnull","signext","zeroext","noalias","nocapture","readonly","writeonly",
  "readnone","returned","inreg","immarg","nofree","nest","swiftself","noreturn","writable","dead_on_unwind","allocalign","allocptr","swifterror"}
PARAM_ATTRS_ARG = {"align","dereferenceable","dereferenceable_or_null","sret","byval","byref","elementtype","range","preallocated","inalloca","nofpclass","initializes","captures"}
LINKAGE = {"private","internal","available_externally","linkonce","weak","common","appending","extern_weak",
  "linkonce_odr","weak_odr","external","dso_local","dso_preemptable","default","hidden","protected",
  "dllimport","dllexport","unnamed_addr","local_unnamed_addr","thread_local","externally_initialized"}
CCONV = {"ccc","fastcc","coldcc","tail","musttail","notail"}
FASTMATH = {"fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"}

# ---------------------------------------------------------------- operands
class Opd:
    """Constant or register operand: kind in
    reg,int,fp,null,undef,zero,global,gep,cast,agg,str,bin"""
    __slots__ = ("k", "ty", "v", "a")
    def __init__(s, k, ty, v=None, a=None):
        s.k, s.ty, s.v, s.a = k, ty, v, a
    def __repr__(s):
        return f"{s.k}:{s.v}"

class Inst:
    __slots__ = ("op", "res", "ty", "a", "x", "line", "dbg")
    def __init__(s, op, res=None, ty=None, a=None, x=None):
        s.op, s.res, s.ty, s.a, s.x = op, res, ty, a or [], x
        s.line = None
        s.dbg = None
    def __repr__(s):
        return f"{s.res}={s.op}"

class Func:
    def __init__(s):
        s.name = None; s.params = []; s.ret = None; s.blocks = {}; s.order = []
        s.entry = None; s.is_decl = False; s.param_attrs = []; s._text = None; s._loops = None
        s.linkage = ""; s.mod = None; s.vararg = False

class Global:
    def __init__(s):
        s.name = None; s.ty = None; s.init = None; s.const = False

class P:
    """token cursor"""
    def __init__(s, mod, toks):
        s.m = mod; s.t = toks; s.i = 0
    def peek(s, k=0):
        return s.t[s.i+k] if s.i+k < len(s.t) else None
    def next(s):
        t = s.t[s.i]; s.i += 1; return t
    def eat(s, x):
        if s.peek() == x:
            s.i += 1; return True
        return False
    def expect(s, x):
        if s.next() != x:
            raise Unsupported(f"expected {x} at {s.t[max(0,s.i-5):s.i+3]}")
    def type(s):
        t = s.next()
        if t == "void": ty = VOID
        elif t == "ptr":
            ty = PTR
            if s.peek() == "addrspace":
                s.next(); s.expect("("); s.next(); s.expect(")")
        elif t == "label": ty = LABEL
        elif t == "metadata": ty = META
        elif t == "token": ty = Ty("token")
        elif t == "float": ty = FLOAT
        elif t == "double": ty = DOUBLE
        elif t == "x86_fp80": ty = X87
        elif t == "half": ty = HALF
        elif re.fullmatch(r"i\d+", t): ty = IntTy(int(t[1:]))
        elif t == "[":
            n = int(s.next()); s.expect("x"); el = s.type(); s.expect("]")
            ty = Ty("array", n=n, el=el)
        elif t == "<":
            if s.peek() == "{":
                s.next(); f = s.tylist("}"); s.expect(">")
                ty = Ty("struct", fields=f, packed=True)
            else:
                n = int(s.next()); s.expect("x"); el = s.type(); s.expect(">")
                ty = Ty("vector", n=n, el=el)
        elif t == "{":
            ty = Ty("struct", fields=s.tylist("}"))
        elif t[0] == "%":
            ty = Ty("named", name=unq(t))
        else:
            raise Unsupported("type " + t)
        # function types  "ret (args)" are only used in call; handled there
        return ty
    def tylist(s, close):
        f = []
        if s.eat(close): return f
        while True:
            f.append(s.type())
            if s.eat(close): return f
            s.expect(",")
    def attrs(s):
        a = {}
        while True:
            t = s.peek()
            if t in PARAM_ATTRS:
                s.next(); a[t] = True
            elif t in PARAM_ATTRS_ARG:
                s.next()
                if s.peek() == "(":
                    s.next()
                    if t in ("sret", "byval", "byref", "elementtype", "preallocated", "inalloca"):
                        a[t] = s.type(); s.expect(")")
                    else:
                        v = []
                        d = 1
                        while d:
                            x = s.next()
                            if x == "(": d += 1
                            elif x == ")": d -= 1
                            if d: v.append(x)
                        a[t] = v
                else:
                    a[t] = s.next()
            elif t is not None and t[0] == '"':
                s.next()
                if s.eat("="): s.next()
            else:
                return a
    def value(s, ty):
        t = s.next()
        if t[0] == "%": return Opd("reg", ty, unq(t))
        if t[0] == "@": return Opd("global", PTR, unq(t))
        if t == "true": return Opd("int", ty, 1)
        if t == "false": return Opd("int", ty, 0)
        if t == "null": return Opd("null", ty)
        if t in ("undef", "poison"): return Opd("undef", ty)
        if t == "zeroinitializer": return Opd("zero", ty)
        if t == "none": return Opd("undef", ty)
        if t[0] == "c" and len(t) > 1 and t[1] == '"': return Opd("str", ty, cstr(t[2:-1]))
        if t == "getelementptr":
            x = {}
            while s.peek() in ("inbounds", "inrange", "nuw", "nusw"): s.next()
            s.expect("(")
            base = s.type(); s.expect(",")
            args = []
            while True:
                if s.peek() == "inrange": s.next()
                tt = s.type(); args.append(s.value(tt))
                if s.eat(")"): break
                s.expect(",")
            return Opd("gep", PTR, base, args)
        if t in ("ptrtoint","inttoptr","bitcast","trunc","zext","sext","addrspacecast"):
            s.expect("("); tt = s.type(); v = s.value(tt); s.expect("to"); ty2 = s.type(); s.expect(")")
            return Opd("cast", ty2, t, v)
        if t in ("add","sub","mul","and","or","xor","shl"):
            while s.peek() in ("nuw","nsw"): s.next()
            s.expect("("); t1=s.type(); a=s.value(t1); s.expect(","); t2=s.type(); b=s.value(t2); s.expect(")")
            return Opd("bin", t1, t, (a,b))
        if t == "icmp":
            pr = s.next(); s.expect("("); t1=s.type(); a=s.value(t1); s.expect(","); t2=s.type(); b=s.value(t2); s.expect(")")
            return Opd("icmpc", IntTy(1), pr, (a,b))
        if t in ("dso_local_equivalent", "no_cfi"):
            return s.value(ty)
        if t in ("{", "[", "<"):
            close = {"{": "}", "[": "]", "<": ">"}[t]
            el = []
            pk = False
            if t == "<" and s.peek() == "{":
                s.next(); close = "}"; pk = True
            if s.eat(close):
                if pk: s.expect(">")
                return Opd("agg", ty, None, el)
            while True:
                tt = s.type(); el.append(s.value(tt))
                if s.eat(close): break
                s.expect(",")
            if pk: s.expect(">")
            return Opd("agg", ty, None, el)
        if t.startswith("0x"):
            return Opd("fp", ty, t)
        if re.fullmatch(r"-?\d+", t):
            return Opd("int", ty, int(t))
        if re.fullmatch(r"-?\d+\.\d*(?:[eE][-+]?\d+)?", t):
            return Opd("fp", ty, t)
        if t == "blockaddress":
            raise Unsupported("blockaddress")
        if t[0] == "!" or t == "asm":
            raise Unsupported("value " + t)
        raise Unsupported("value " + t + " in " + " ".join(s.t[:12]))
    def tv(s):
        ty = s.type(); s.attrs()
        return s.value(ty)

def unq(t):
    t2 = t[1:]
    if t2 and t2[0] == '"':
        t2 = t2[1:-1]
        t2 = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), t2)
    return t2

def cstr(b):
    out = bytearray(); i = 0
    while i < len(b):
        if b[i] == "\\":
            if b[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(b[i+1:i+3], 16)); i += 3
        else:
            out.extend(b[i].encode("latin1", "replace")); i += 1
    return bytes(out)

class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.funcs = {}; s.aliases = {}; s._lay = {}; s.path = None

    # ----- layout
    def resolve(s, ty):
        while ty.k == "named":
            t = s.types.get(ty.name)
            if t is None: raise Unsupported("opaque type " + str(ty.name))
            ty = t
        return ty
    def size_align(s, ty):
        if ty.k == "named":
            r = s._lay.get(ty.name)
            if r is None:
                r = s._lay[ty.name] = s.size_align(s.resolve(ty))
            return r
        if ty.k == "int":
            n = (ty.w + 7) // 8
            p = 1
            while p < n: p *= 2
            return (p, min(p, 16))
        if ty.k == "ptr": return (8, 8)
        if ty.k == "fp":
            if ty.w == 80: return (16, 16)
            return (ty.w // 8, ty.w // 8)
        if ty.k == "array":
            sz, al = s.size_align(ty.el); return (sz * ty.n, al)
        if ty.k == "vector":
            sz, al = s.size_align(ty.el)
            n = sz * ty.n
            p = 1
            while p < n: p *= 2
            return (p, p)
        if ty.k == "struct":
            off = 0; mal = 1
            for f in ty.fields:
                sz, al = s.size_align(f)
                if ty.packed: al = 1
                off = (off + al - 1) // al * al
                off += sz
                mal = max(mal, al)
            return ((off + mal - 1) // mal * mal, mal)
        raise Unsupported("sizeof " + repr(ty))
    def sizeof(s, ty): return s.size_align(ty)[0]
    def field_off(s, ty, i):
        ty = s.resolve(ty); off = 0
        for j, f in enumerate(ty.fields):
            sz, al = s.size_align(f)
            if ty.packed: al = 1
            off = (off + al - 1) // al * al
            if j == i: return off, f
            off += sz
        raise Unsupported("field index")

    def func(s, name):
        f = s.funcs.get(name)
        if f is None:
            a = s.aliases.get(name)
            if a: return s.func(a)
            return None
        if f._text is not None:
            parse_body(s, f)
        return f

def parse_header(m, line):
    """define/declare line -> Func"""
    f = Func()
    toks = tokenize(line)
    p = P(m, toks)
    kw = p.next()
    f.is_decl = kw == "declare"
    while True:
        t = p.peek()
        if t in LINKAGE or t in CCONV:
            f.linkage += " " + t; p.next()
            if t == "thread_local" and p.peek() == "(":
                while p.next() != ")": pass
        elif t in PARAM_ATTRS or t in PARAM_ATTRS_ARG or (t and t[0] == '"'):
            p.attrs()
        else:
            break
    f.ret = p.type(); p.attrs()
    f.name = unq(p.next())
    p.expect("(")
    if not p.eat(")"):
        idx = 0
        while True:
            if p.eat("..."):
                f.vararg = True
                p.expect(")"); break
            ty = p.type(); at = p.attrs()
            if p.peek() and p.peek()[0] == "%":
                nm = unq(p.next())
            else:
                nm = str(idx)
            f.params.append((nm, ty)); f.param_attrs.append(at)
            idx += 1
            if p.eat(")"): break
            p.expect(",")
    f.mod = m
    return f

def parse_module(path):
    m = Module(); m.path = path
    lines = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("define"):
            f = parse_header(m, l)
            j = i + 1
            while lines[j] != "}": j += 1
            f._text = lines[i+1:j]
            m.funcs[f.name] = f
            i = j + 1
            continue
        if l.startswith("declare"):
            f = parse_header(m, l); m.funcs.setdefault(f.name, f)
        elif l.startswith("%"):
            mm = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', l)
            if mm:
                if mm.group(2).strip() != "opaque":
                    m.types[unq(mm.group(1))] = P(m, tokenize(mm.group(2))).type()
        elif l.startswith("@"):
            parse_global(m, l)
        i += 1
    return m

def parse_global(m, l):
    try:
        p = P(m, tokenize(l))
        g = Global(); g.name = unq(p.next()); p.expect("=")
        ext = False
        while p.peek() in LINKAGE or p.peek() == "(":
            t = p.next()
            if t in ("external", "extern_weak"): ext = True
            if t == "(":
                while p.next() != ")": pass
        if p.peek() == "alias":
            p.next(); p.type()
            if p.eat("("):
                while p.next() != ")": pass
            p.expect(","); o = p.tv()
            if o.k == "global": m.aliases[g.name] = o.v
            return
        t = p.next()
        if t not in ("constant", "global"): return
        g.const = t == "constant"
        g.ty = p.type()
        if not ext and p.peek() not in (None, ","):
            g.init = p.value(g.ty)
        m.globals[g.name] = g
    except (Unsupported, IndexError):
        mm = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', l)
        g = Global(); g.name = unq(mm.group(0)); m.globals.setdefault(g.name, g)

LABEL_RE = re.compile(r'^([-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"):')

def parse_body(m, f):
    text, f._text = f._text, None
    # join continuation lines
    joined = []
    depth = 0
    for l in text:
        if not l.strip(): continue
        if l[0] not in " \t":
            mm = LABEL_RE.match(l)
            if mm:
                joined.append(("L", mm.group(1).strip('"'))); continue
        ls = l.strip()
        if ls.startswith(("to label", "catch ", "cleanup", "filter ")) or depth > 0:
            joined[-1] = ("I", joined[-1][1] + " " + ls)
        else:
            joined.append(("I", ls))
        if depth == 0 and ls.startswith("switch ") and not ls.rstrip().endswith("]"):
            depth = 1
        elif depth and ls.startswith("]"):
            depth = 0
    cur = None
    for k, s in joined:
        if k == "L":
            cur = s; f.blocks[cur] = []; f.order.append(cur); continue
        if cur is None:
            cur = "entry" if True else None
            # unnamed entry block: number = count of params
            cur = str(len(f.params)); f.blocks[cur] = []; f.order.append(cur)
        f.blocks[cur].append(LazyInst(m, s))
    f.entry = f.order[0]

class LazyInst:
    __slots__ = ("m", "s", "inst")
    def __init__(s, m, t): s.m, s.s, s.inst = m, t, None
    def get(s):
        if s.inst is None:
            s.inst = parse_inst(s.m, s.s); s.inst.line = s.s
        return s.inst

DBG = re.compile(r",? !dbg !(\d+)")

def parse_inst(m, s):
    p = P(m, tokenize(s))
    res = None
    if p.peek(1) == "=" and p.peek()[0] == "%":
        res = unq(p.next()); p.next()
    op = p.next()
    I = lambda *a, **k: Inst(op, res, *a, **k)
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in ("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","fadd","fsub","fmul","fdiv","frem"):
        fl = []
        while p.peek() in ("nuw","nsw","exact","disjoint") or p.peek() in FASTMATH: fl.append(p.next())
        ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        return I(ty, [a, b], fl)
    if op == "fneg":
        while p.peek() in FASTMATH: p.next()
        ty = p.type(); return I(ty, [p.value(ty)])
    if op in ("icmp", "fcmp"):
        while p.peek() in FASTMATH or p.peek() == "samesign": p.next()
        pr = p.next(); ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        return I(ty, [a, b], pr)
    if op in ("trunc","zext","sext","fptrunc","fpext","fptoui","fptosi","uitofp","sitofp","ptrtoint","inttoptr","bitcast","addrspacecast"):
        while p.peek() in ("nneg","nuw","nsw"): p.next()
        a = p.tv(); p.expect("to"); ty = p.type()
        return I(ty, [a])
    if op == "alloca":
        p.eat("inalloca")
        ty = p.type(); cnt = None
        if p.eat(","):
            if p.peek() != "align": cnt = p.tv()
        return I(ty, [cnt])
    if op == "load":
        at = p.eat("atomic"); p.eat("volatile")
        ty = p.type(); p.expect(","); a = p.tv()
        return I(ty, [a])
    if op == "store":
        at = p.eat("atomic"); p.eat("volatile")
        v = p.tv(); p.expect(","); a = p.tv()
        return I(v.ty, [v, a])
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        ty = p.type(); a = []
        while p.eat(","):
            if p.peek() and p.peek()[0] == "!": break
            a.append(p.tv())
        return I(ty, a)
    if op == "br":
        if p.peek() == "label":
            p.next(); return I(None, [], [unq(p.next())])
        c = p.tv(); p.expect(","); p.expect("label"); a = unq(p.next()); p.expect(","); p.expect("label"); b = unq(p.next())
        return I(None, [c], [a, b])
    if op == "switch":
        v = p.tv(); p.expect(","); p.expect("label"); d = unq(p.next()); p.expect("[")
        cs = []
        while not p.eat("]"):
            c = p.tv(); p.expect(","); p.expect("label"); cs.append((c.v, unq(p.next())))
        return I(None, [v], (d, cs))
    if op == "ret":
        if p.peek() == "void": return I(VOID, [])
        return I(None, [p.tv()])
    if op == "unreachable": return I()
    if op == "phi":
        while p.peek() in FASTMATH: p.next()
        ty = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(ty); p.expect(","); b = unq(p.next()); p.expect("]")
            inc.append((v, b))
            if not p.eat(","): break
            if p.peek() and p.peek()[0] == "!": break
        return I(ty, [], inc)
    if op == "select":
        while p.peek() in FASTMATH: p.next()
        c = p.tv(); p.expect(","); a = p.tv(); p.expect(","); b = p.tv()
        return I(a.ty, [c, a, b])
    if op in ("call", "invoke"):
        while p.peek() in CCONV or p.peek() in FASTMATH: p.next()
        p.attrs()
        rty = p.type(); p.attrs()
        if p.peek() == "(" :   # full function type for varargs
            d = 0
            while True:
                t = p.next()
                if t == "(": d += 1
                if t == ")":
                    d -= 1
                    if d == 0: break
        if p.peek() == "asm": raise Unsupported("inline asm")
        callee = p.value(PTR)
        p.expect("("); args = []; aat = []
        if not p.eat(")"):
            while True:
                ty = p.type(); at = p.attrs()
                if ty.k == "metadata":
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        t = p.next()
                        if t in "([{": d += 1
                        if t in ")]}": d -= 1
                    args.append(Opd("undef", ty))
                else:
                    args.append(p.value(ty))
                aat.append(at)
                if p.eat(")"): break
                p.expect(",")
        nt = ut = None
        if op == "invoke":
            while p.peek() != "to": p.next()
            p.next(); p.expect("label"); nt = unq(p.next()); p.expect("unwind"); p.expect("label"); ut = unq(p.next())
        ins = Inst(op, res, rty, args, (callee, nt, ut)); ins.dbg = aat
        return ins
    if op == "landingpad":
        ty = p.type(); cl = []; cleanup = False
        while p.peek():
            if p.eat("cleanup"): cleanup = True
            elif p.eat("catch"): cl.append(p.tv())
            elif p.eat("filter"):
                tt = p.type(); cl.append(("filter", p.value(tt)))
            else: break
        return I(ty, [], (cleanup, cl))
    if op == "resume": return I(None, [p.tv()])
    if op == "extractvalue":
        a = p.tv(); idx = []
        while p.eat(","):
            if p.peek()[0] == "!": break
            idx.append(int(p.next()))
        return I(None, [a], idx)
    if op == "insertvalue":
        a = p.tv(); p.expect(","); b = p.tv(); idx = []
        while p.eat(","):
            if p.peek()[0] == "!": break
            idx.append(int(p.next()))
        return I(a.ty, [a, b], idx)
    if op in ("fence",): return I()
    if op == "atomicrmw":
        p.eat("volatile"); k = p.next(); a = p.tv(); p.expect(","); v = p.tv()
        return I(v.ty, [a, v], k)
    if op == "cmpxchg":
        p.eat("weak"); p.eat("volatile"); a = p.tv(); p.expect(","); c = p.tv(); p.expect(","); v = p.tv()
        return I(Ty("struct", fields=[c.ty, IntTy(1)]), [a, c, v])
    if op == "freeze":
        a = p.tv(); return I(a.ty, [a])
    if op == "unreachable": return I()
    return Inst("unsupported", res, None, [], s)

# ---------------------------------------------------------------- loops
def succs(inst):
    if inst.op == "br": return list(inst.x)
    if inst.op == "switch": return [inst.x[0]] + [b for _, b in inst.x[1]]
    if inst.op == "invoke": return [inst.x[1], inst.x[2]]
    return []

def loop_headers(f):
    """target blocks of retreating edges of a DFS (all natural-loop headers,
    and the entry points of irreducible ones)."""
    if f._loops is not None: return f._loops
    color = {}; heads = set()
    st = [(f.entry, iter(succs(f.blocks[f.entry][-1].get())))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        for c in it:
            if color.get(c, 0) == 0:
                color[c] = 1
                st.append((c, iter(succs(f.blocks[c][-1].get()))))
                break
            if color[c] == 1: heads.add(c)
        else:
            color[b] = 2; st.pop()
    f._loops = heads
    return heads
