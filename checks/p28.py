import re
from dv import ir, build
from dv.sym import *
from dv.spec import *
from dv.lib import *
from dv.build import field

SRCS = ["src/mlio/parallel_data_reader.cc", "src/mlio/csv_reader.cc", "src/mlio/image_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/text_line_reader.cc", "src/mlio/instance_readers/core_instance_reader.cc"]
U = lambda x: bv(x, 64)
TF = lambda b: z3.BoolVal(bool(b))
CLS = r"mlio::Parallel_data_reader::"
IDLE, RUNNING, STOPPED, FAULTED = range(4)
FAIL = "_ZTISt13runtime_error"
# errors of any kind
FAILS = [FAIL, "_ZTISt9bad_alloc", "_ZTISt16invalid_argument"]
def anyof(st, *obj): return [(st.copy(), ("throw", Thrown(t, *obj))) for t in FAILS]
CAP = z3.BitVec("num_prefetched_examples", 64)
STATE = z3.BitVec("state", 32)
DQ = r"std::deque<mlio::Intrusive_ptr<mlio::Example>, .*>::"
class Ring:
    """A parallel reader.  The examples that the pipeline pushes are numbered
    0, 1, ... in the order of their batches; a queue is a range of numbers
    [lo, hi).  What the lock protects (state_, fill_queue_ and whether the
    pipeline is told to stop) is arbitrary each time the lock is taken, within
    what the other side is allowed to do (role)."""
    def __init__(s, u, role):
        s.u, s.role, s.m = u, role, u.mods[0]; f = lambda n: field(u, "Parallel_data_reader", n); s.f = f
        s.this, s.graph, s.exs, s.src = Obj("this", f("__size__"), True), Obj("graph", field(u, "Graph_data", "__size__"), True), Obj("examples", None, True), Obj("source node", None, True)
        s.exc, s.batches, s.inst = Obj("exception", None, True), Obj("batch reader", None, True), Obj("instance reader", None, True); s.quiet = 0
        s.g = lambda n: field(u, "Graph_data", n)
    def init(s, ex, st, state=None):
        s.quiet += 1
        for o in (s.this, s.graph, s.exs, s.src, s.exc, s.batches, s.inst): ex.objs[o.id] = o
        vinit(ex, st, s.this, "Reader"); P = lambda n: Ptr(s.this, s.f(n))
        ex.store(st, P("graph_"), Ptr(s.graph, 0), PT, s.m); ex.store(st, P("batch_reader_"), Ptr(s.batches, 0), PT, s.m); ex.store(st, P("reader_"), Ptr(s.inst, 0), PT, s.m); ex.store(st, P("state_"), STATE, I32, s.m); st.assume(z3.ULE(STATE, 3))
        if state is not None: st.assume(STATE == state)
        ex.store(st, P("exception_ptr_"), NULL, PT, s.m); vinit(ex, st, s.inst, "Instances")
        g = st.ghost; RL, RH, FL, FH = (z3.BitVec(n, 64) for n in ("delivered", "taken", "taken'", "pushed")); ex.bounded(st, RL, RH, FL, FH, CAP); st.assume(z3.ULE(RL, RH), FL == RH, z3.ULE(FL, FH), CAP != 0, z3.ULE(FH - FL, CAP))
        # idle: no background work, both queues are empty
        st.assume(z3.Implies(STATE == IDLE, z3.And(RL == RH, FL == FH)))
        g.update(pre=z3.BoolVal(False), fl0=FL, fh0=FH, told0=z3.BoolVal(False), state0=STATE, alone0=z3.BoolVal(True)); g.update(rl=RL, rh=RH, fl=FL, fh=FH, held=z3.BoolVal(False), owe_fill=z3.BoolVal(False), owe_read=z3.BoolVal(False), told=z3.BoolVal(False), joined=z3.BoolVal(False), alone=(STATE == IDLE), took=BV(0, 8), cancelled=z3.BoolVal(False)); s.quiet -= 1
        return Ptr(s.this, 0)
    def state(s, ex, st): s.quiet += 1; r = bv(ex.load(st, Ptr(s.this, s.f("state_")), I32), 32); s.quiet -= 1; return r
    def q(s, p):
        """the queue at an address"""
        if isinstance(p, Ptr) and p.o is s.this:
            if eqc(simp(p.f), s.f("fill_queue_")): return "f"
            if eqc(simp(p.f), s.f("read_queue_")): return "r"
        raise ir.Unsupported("another queue")
    def cv(s, p):
        if isinstance(p, Ptr) and p.o is s.this:
            if eqc(simp(p.f), s.f("fill_condition_")): return "fill"
            if eqc(simp(p.f), s.f("read_condition_")): return "read"
        raise ir.Unsupported("another condition variable")
    def guarded(s, ex, st, what): ex.oblige(st, "monitor: " + what + " only with the lock held while there is background work", z3.Or(st.ghost["held"], st.ghost["alone"]))
    def touch(s, ex, st, o, off, n, write):
        if s.quiet or o is not s.this: return
        if eqc(simp(off), s.f("state_")): s.guarded(ex, st, "the state is accessed")
        if eqc(simp(off), s.f("read_queue_")) or eqc(simp(off), s.f("fill_queue_")): raise ir.Unsupported("the inside of a queue")
    def other(s, ex, st):
        """what the others may have done before the lock is ours (again)"""
        g = st.ghost; s.quiet += 1; v = s.state(ex, st)
        if s.role == "user":       # the pipeline may have pushed examples and may have ended
            n, m = ex.fresh("state'", 32), ex.fresh("pushed'"); ex.bounded(st, m); run = z3.And(v == RUNNING, z3.Not(g["alone"])); st.assume(z3.ULE(g["fh"], m), z3.ULE(n, 3), z3.If(run, z3.And(n != IDLE, z3.ULE(m - g["fl"], z3.If(z3.UGE(g["fh"] - g["fl"], CAP), g["fh"] - g["fl"], CAP))), z3.And(n == v, m == g["fh"])))
            g["fh"] = m; ex.store(st, Ptr(s.this, s.f("state_")), n, I32, s.m)
        elif s.role == "task":     # the user may have taken the examples, and may have told the pipeline to stop, which empties the queue
            told, took = ex.freshb("told to stop"), ex.freshb("taken"); g["told"] = z3.Or(g["told"], told); g["fl"] = simp(z3.If(z3.Or(g["told"], took), g["fh"], g["fl"]))
        else:                      # the thread of the pipeline: as for a task, none of which runs any more
            told = ex.freshb("told to stop"); g["told"] = z3.Or(g["told"], told); g["fl"] = simp(z3.If(z3.Or(g["told"], ex.freshb("taken")), g["fh"], g["fl"]))
        s.quiet -= 1
    def snap(s, ex, st):
        """what the lock protects, as it is found"""
        g = st.ghost; g.update(fl0=g["fl"], fh0=g["fh"], told0=g["told"], state0=s.state(ex, st), alone0=z3.Not(z3.Not(g["alone"])))
    def promise(s, ex, st):
        """what the others rely on: the change made since the lock was taken is one that they allow for (other)"""
        g = st.ghost; v = s.state(ex, st); same = z3.And(g["fl"] == g["fl0"], g["fh"] == g["fh0"]); taken = z3.And(g["fh"] == g["fh0"], z3.Or(g["fl"] == g["fl0"], g["fl"] == g["fh0"])); put = z3.And(g["fl"] == g["fl0"], z3.ULE(g["fh0"], g["fh"]), z3.Or(g["fh"] == g["fh0"], z3.ULE(g["fh"] - g["fl"], CAP)), g["told"] == g["told0"])
        if s.role == "user": ok = z3.And(v == g["state0"], z3.Implies(g["told"], g["fl"] == g["fh"]), z3.Implies(g["told0"], g["told"]), z3.Or(taken, z3.And(g["fl"] == g["fh"], g["fl0"] == g["fh0"])))
        elif s.role == "task": ok = z3.And(put, v == g["state0"])
        else: ok = z3.And(same, g["told"] == g["told0"], z3.Or(v == g["state0"], z3.And(g["state0"] == RUNNING, z3.Or(v == STOPPED, v == FAULTED))))
        ex.oblige(st, "monitor: the others find nothing changed but what they allow for", z3.Or(g["alone0"], ok))
    def lock(s, ex, st, a, i): ex.oblige(st, "monitor: the lock is not taken twice", z3.Not(st.ghost["held"])); st.ghost["held"] = z3.BoolVal(True); s.other(ex, st); s.snap(ex, st)
    def stubs(s):
        g = lambda st: st.ghost
        def mutex(ex, st, p): 
            if not (isinstance(p, Ptr) and p.o is s.this and eqc(simp(p.f), s.f("queue_mutex_"))): raise ir.Unsupported("another mutex")
        def ctor(ex, st, a, i): mutex(ex, st, a[1]); ex.store(st, a[0], a[1], PT, s.m); ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), 1, I8, s.m); s.lock(ex, st, a, i)
        def own(ex, st, a): return bo(asbool(ex.load(st, Ptr(a[0].o, add(a[0].f, 8)), I8)))
        def give(ex, st, a):
            s.promise(ex, st); st.ghost["held"] = z3.BoolVal(False); ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), 0, I8, s.m)
        def dtor(ex, st, a, i):
            o = simp(own(ex, st, a))
            if z3.is_true(o): give(ex, st, a); return
            if z3.is_false(o): return
            x, y = fork(st, o, z3.Not(o)); give(ex, x, a); return [(x, ("ret", None)), (y, ("ret", None))]
        def unlock(ex, st, a, i): ex.oblige(st, "requires: the lock is held", own(ex, st, a)); give(ex, st, a)
        def relock(ex, st, a, i): ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), 1, I8, s.m); s.lock(ex, st, a, i)
        def gctor(ex, st, a, i): mutex(ex, st, a[1]); ex.store(st, a[0], a[1], PT, s.m); s.lock(ex, st, a, i)
        def gdtor(ex, st, a, i): s.promise(ex, st); st.ghost["held"] = z3.BoolVal(False)
        def wait(ex, st, a, i):
            w = s.cv(a[0]); g = st.ghost; v = s.state(ex, st); ex.oblige(st, "monitor: waits with the lock held", g["held"])
            ex.oblige(st, "no deadlock: sleeps only for what the other side will bring about", z3.And(v == RUNNING, g["fl"] == g["fh"]) if w == "read" and s.role == "user" else z3.And(z3.UGE(g["fh"] - g["fl"], CAP), z3.Not(g["told"])) if w == "fill" and s.role == "task" else False)
            ex.oblige(st, "no deadlock: does not sleep before the other side is told", z3.Not(z3.Or(g["owe_fill"], g["owe_read"]))); s.promise(ex, st); s.other(ex, st); s.snap(ex, st)
        def notify(ex, st, a, i): st.ghost["owe_" + s.cv(a[0])] = z3.BoolVal(False)
        # queues
        def acc(ex, st, k):
            if k == "f": s.guarded(ex, st, "the queue is accessed")
            else: ex.oblige(st, "monitor: the examples taken are the user's", s.role == "user")
        def size(ex, st, a, i): k = s.q(a[0]); acc(ex, st, k); return simp(st.ghost[k + "h"] - st.ghost[k + "l"])
        def empty(ex, st, a, i): k = s.q(a[0]); acc(ex, st, k); return simp(z3.If(st.ghost[k + "h"] == st.ghost[k + "l"], BV(1, 8), BV(0, 8)))
        def took(st, k, some): 
            if k == "f": st.ghost["owe_fill"] = simp(z3.Or(st.ghost["owe_fill"], some))
        def clear(ex, st, a, i): k = s.q(a[0]); acc(ex, st, k); g = st.ghost; took(st, k, g[k + "l"] != g[k + "h"]); g[k + "l"] = g[k + "h"]; g["told"] = z3.Or(g["told"], g["pre"]) if k == "f" else g["told"]
        def swap(ex, st, a, i):
            x, y = s.q(a[0]), s.q(a[1]); acc(ex, st, x); acc(ex, st, y); g = st.ghost
            if x != y: take(ex, st); g["rl"], g["fl"], g["rh"], g["fh"] = g["fl"], g["rl"], g["fh"], g["rh"]; took(st, "f", z3.BoolVal(True)); empt(st)
        def empt(st):
            # an empty queue stands between what is taken and what is pushed
            g = st.ghost; e = g["fl"] == g["fh"]; g["fl"], g["fh"] = simp(z3.If(e, g["rh"], g["fl"])), simp(z3.If(e, g["rh"], g["fh"]))
        def take(ex, st): ex.oblige(st, "ensures: examples are taken only when all before them are delivered", st.ghost["rl"] == st.ghost["rh"])
        def move(ex, st, a, i):
            x, y = s.q(a[0]), s.q(a[1]); acc(ex, st, x); acc(ex, st, y); ex.oblige(st, "requires: from the pipeline to the user", x == "r" and y == "f"); take(ex, st); g = st.ghost; g["rl"], g["rh"] = g["fl"], g["fh"]; g["fl"] = g["fh"]; took(st, "f", z3.BoolVal(True)); return a[0]
        def front(ex, st, a, i):
            k = s.q(a[0]); acc(ex, st, k); g = st.ghost; ex.oblige(st, "safety: the queue is not empty", g[k + "l"] != g[k + "h"]); c = Obj("front of the queue", 8, True); ex.objs[c.id] = c; ex.store(st, Ptr(c, 0), Ptr(s.exs, g[k + "l"]), PT, s.m); return Ptr(c, 0)
        def pop(ex, st, a, i): k = s.q(a[0]); acc(ex, st, k); g = st.ghost; ex.oblige(st, "safety: the queue is not empty", g[k + "l"] != g[k + "h"]); took(st, k, z3.BoolVal(True)); g[k + "l"] = simp(g[k + "l"] + 1)
        def push(ex, st, a, i):
            k = s.q(a[0]); acc(ex, st, k); g = st.ghost; v = ex.load(st, a[1], PT); ex.oblige(st, "ensures: only the pipeline pushes, and only the message's example", TF(k == "f" and s.role == "task" and isinstance(v, Ptr) and v.o is s.exs)); ex.oblige(st, "ensures: no more examples than asked for are kept", z3.ULT(g["fh"] - g["fl"], CAP)); ex.oblige(st, "ensures: nothing is pushed once the pipeline is told to stop", z3.Not(g["told"]))
            g["took"] = bv(simp(z3.If(g["took"] == 0, BV(1, 8), BV(2, 8))), 8); g["fh"] = simp(g["fh"] + 1); g["owe_read"] = z3.BoolVal(True)
        # the thread, the graph and its exceptions
        def join(ex, st, a, i):
            g = st.ghost; ex.oblige(st, "no deadlock: the thread is waited for without the lock, once it is told to stop and woken", z3.And(z3.Not(g["held"]), g["told"], z3.Not(g["owe_fill"]))); ex.oblige(st, "requires: there is a thread to wait for", z3.And(z3.Not(g["joined"]), z3.Not(g["alone"]))); g["joined"] = z3.BoolVal(True); g["alone"] = z3.BoolVal(True)
            s.quiet += 1; v = s.state(ex, st); n = ex.fresh("state'", 32); st.assume(z3.Or(n == STOPPED, n == FAULTED), z3.Implies(v != RUNNING, n == v)); ex.store(st, Ptr(s.this, s.f("state_")), n, I32, s.m); s.quiet -= 1
        def ctx(ex, st, p): ex.oblige(st, "requires: the context of the graph", TF(isinstance(p, Ptr) and p.o is s.graph and eqc(simp(p.f), s.g("ctx"))))
        def cancel(ex, st, a, i): ctx(ex, st, a[0]); g = st.ghost; g["pre"] = z3.BoolVal(True); g["told"] = z3.Or(g["told"], g["held"]); return ex.fresh("cancelled", 8)
        def cancelled(ex, st, a, i):
            ctx(ex, st, a[0]); b = ex.freshb("cancelled"); st.assume(z3.Implies(st.ghost["told"], b)); st.ghost["cancelled"] = z3.Or(st.ghost["cancelled"], b); return simp(z3.If(b, BV(1, 8), BV(0, 8)))
        cur = lambda ex, st, a, i: (ex.store(st, a[0], Ptr(s.exc, 0), PT, s.m), None)[1]
        ecopy = lambda ex, st, a, i: (ex.store(st, a[0], ex.load(st, a[1], PT), PT, s.m), a[0])[1]
        def emove(ex, st, a, i):
            v = ex.load(st, a[1], PT); ex.store(st, a[1], NULL, PT, s.m); ex.store(st, a[0], v, PT, s.m); return a[0]
        def ebool(ex, st, a, i): v = ex.load(st, a[0], PT); return simp(z3.If(bo(ex.icmp(st, "ne", v, NULL, PT)), BV(1, 8), BV(0, 8)))
        def rethrow(ex, st, a, i): v = ex.load(st, a[0], PT) if isinstance(a[0], Ptr) and a[0].o is not s.exc else a[0]; ex.oblige(st, "requires: the exception of the pipeline", TF(isinstance(v, Ptr) and v.o is s.exc)); return [(st, ("throw", Thrown("failure of the pipeline", s.exc)))]
        E = r"std::__exception_ptr::exception_ptr::"
        return [R(r"std::unique_lock<std::mutex>::unique_lock\(std::mutex&\)$", ctor), R(r"std::unique_lock<std::mutex>::~unique_lock", dtor), R(r"std::unique_lock<std::mutex>::unlock\(", unlock), R(r"std::unique_lock<std::mutex>::lock\(", relock), R(r"std::(lock_guard<std::mutex>|scoped_lock<std::mutex>)::(lock_guard|scoped_lock)\(std::mutex&\)", gctor), R(r"std::(lock_guard<std::mutex>|scoped_lock<std::mutex>)::~", gdtor),
                R(r"std::condition_variable::wait\(std::unique_lock", wait), R(r"std::condition_variable::notify_(one|all)\(", notify), R(DQ + r"size\(", size), R(DQ + r"empty\(", empty), R(DQ + r"clear\(", clear), R(r"void std::swap<mlio::Intrusive_ptr<mlio::Example>, std::allocator.*std::deque<|" + DQ + r"swap\(", swap), R(DQ + r"operator=\(std::deque.*&&\)", move), R(DQ + r"front\(", front), R(DQ + r"pop_front\(", pop), R(r"(.* )?" + DQ + r"(push_back|emplace_back<.*>)\(", push),
                R(r"std::thread::join\(", join), R(r".*task_group_context::cancel_group_execution\(", cancel), R(r".*task_group_context::is_group_execution_cancelled\(", cancelled), R(r"std::current_exception\(", cur), R(E + r"exception_ptr\(std::__exception_ptr::exception_ptr const&\)", ecopy), R(E + r"(exception_ptr|operator=)\(std::__exception_ptr::exception_ptr&&\)", emove), R(E + r"operator=\(std::__exception_ptr::exception_ptr const&\)", ecopy), R(E + r"operator bool\(", ebool), R(E + r"~exception_ptr", nop), R(r"std::rethrow_exception\(", rethrow)] + REFS
    def opts(s, handlers=(), **k): return dict(virtual=dispatch({"Reader": vtable(s.u, "Text_line_reader"), "Instances": vtable(s.u, "Core_instance_reader")}, {"Reader": list(handlers), "Instances": list(handlers)}), touch=s.touch, **k)
    def cands(s, sn):
        """what holds whenever the lock is ours"""
        g = sn.st.ghost; v = s.state(sn.ex, sn.st); g0 = sn.entry.ghost if hasattr(sn.entry, "ghost") else {}
        return [("lock held", g["held"]), ("a valid state", z3.ULE(v, 3)), ("begun", v != IDLE), ("running", v == RUNNING), ("delivered", g["rl"] == z3.BitVec("delivered", 64)), ("taken", g["rh"] == z3.BitVec("taken", 64)), ("order of the queue", z3.ULE(g["fl"], g["fh"])), ("what is queued follows what is taken", g["fl"] == g["rh"]), ("bounded", z3.ULE(g["fh"] - g["fl"], CAP)), ("small", z3.ULT(g["fh"], BV(1 << 45, 64))), ("emptied when told to stop", z3.Implies(g["told"], g["fl"] == g["fh"])), ("nobody is owed", z3.Not(z3.Or(g["owe_fill"], g["owe_read"]))), ("pushed", g["took"] == 0), ("work", z3.Not(g["alone"])), ("as found", z3.And(g["fl0"] == g["fl"], g["fh0"] == g["fh"], g["told0"] == g["told"], g["state0"] == v)), ("all pushed", g["fh"] == z3.BitVec("pushed", 64))]
    def quietly(s, ex, st):
        """at the end: the lock is free and nobody is left waiting for a notification"""
        g = st.ghost; yield "ensures: the lock is free", z3.Not(g["held"]); yield "no deadlock: whoever waits for a change is notified of it", z3.Not(z3.Or(g["owe_fill"], g["owe_read"]))
def spec_read(u):
    X = Ring(u, "user"); fn = CLS + r"read_example_core\(\)$"; out = outobj("result", 8)
    def setup(ex, st):
        t = X.init(ex, st); ex.objs[out.id] = out; ex.store(st, t.__class__(X.this, X.f("exception_ptr_")), NULL, PT, X.m); st.ghost.update(schema=z3.BoolVal(False), rl0=st.ghost["rl"], begun=z3.BoolVal(False))
        return args_of(u, fn, {"agg.result": Ptr(out, 0), "this": t})
    def schema(ex, st, a, i):
        ok, no = st, st.copy(); ok.ghost["schema"] = z3.BoolVal(True); return [(ok, ("ret", None)), *anyof(no)]
    def begin(ex, st, a, i):
        ex.oblige(st, "requires: the schema is known and the lock is free", z3.And(st.ghost["schema"], z3.Not(st.ghost["held"]))); no = st.copy(); v = X.state(ex, st); no.assume(v == IDLE); X.quiet += 1; ex.store(st, Ptr(X.this, X.f("state_")), simp(z3.If(v == IDLE, BV(RUNNING, 32), v)), I32, X.m); X.quiet -= 1; st.ghost["alone"] = z3.BoolVal(False); return [(st, ("ret", None)), (no, ("throw", Thrown("_ZTISt12system_error")))]
    def exc(ex, st):
        # a fault is accompanied by the exception
        pass
    def ecopy(ex, st, a, i):
        if isinstance(a[1], Ptr) and a[1].o is X.this: ex.oblige(st, "monitor: the exception is read once the pipeline has failed", X.state(ex, st) == FAULTED); ex.store(st, a[0], Ptr(X.exc, 0), PT, X.m)
        else: ex.store(st, a[0], ex.load(st, a[1], PT), PT, X.m)
        return a[0]
    def post(ex, st, o):
        g = st.ghost; yield from X.quietly(ex, st); v = X.state(ex, st)
        if o[0] == "throw":
            ex.cover("failure of the pipeline", TF(o[1].ty == "failure of the pipeline")); yield "ensures: the failure of the pipeline only if it failed, and after all examples taken before", z3.Implies(TF(o[1].ty == "failure of the pipeline"), z3.And(v == FAULTED, g["rl"] == g["rh"])); yield "ensures: an error passes no example over", g["rl"] == g["rl0"]; yield "ensures: an error only for a reason", TF(o[1].ty in ("failure of the pipeline", *FAILS, "_ZTISt12system_error")); return
        p = cell(ex, st, out, 0, PT); n = bo(ex.icmp(st, "eq", p, NULL, PT)); ex.cover("example", z3.Not(n)); ex.cover("end", n)
        yield "ensures: the end only when the pipeline has stopped without a failure and everything is delivered", z3.Implies(n, z3.And(v == STOPPED, g["rl"] == g["rh"], g["fl"] == g["fh"], g["rl"] == g["rl0"]))
        for x, c in alts(p):
            if isinstance(x, Ptr) and x.o is X.exs: yield "ensures: the next example of the order", z3.Implies(c, z3.And(U(x.f) == g["rl0"], g["rl"] == g["rl0"] + 1))
            else: yield "ensures: an example of the pipeline or none", z3.Implies(c, n)
        yield "ensures: what is taken and what is still queued follow each other", z3.And(z3.ULE(g["rl"], g["rh"]), z3.Or(g["fl"] == g["fh"], g["fl"] == g["rh"]), g["schema"])
    return dict(name="Parallel_data_reader::read_example_core", fn=fn, setup=setup, post=post, covers=["example", "end", "failure of the pipeline"], stubs=[R(CLS + r"ensure_schema_inferred\(", schema), R(CLS + r"ensure_pipeline_running\(", begin), R(r"std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr const&\)", ecopy)] + X.stubs(), cands=[X.cands], opts=X.opts(), budget=90)
def alts(p):
    return [(p, z3.BoolVal(True))]
def lam(u, msg, ret=None, more=""):
    """the body of a node: by the message it takes and what it returns"""
    c = [(m, n) for m in u.mods[:1] for n, f in m.funcs.items() if not f.is_decl and re.match(r"(\w+ )?mlio::Parallel_data_reader::init_graph\(\)::(\$_\d+|\{lambda[^}]*\})::operator\(\)<" + msg + more + r">\((?!.*\{lambda)", dem(n)) and (ret is None or (f.ret.k == "void") == (ret == "void"))]
    if len(c) != 1: raise ir.Unsupported(f"the body of a node for {msg}: {len(c)} candidates")
    return "^" + re.escape(dem(c[0][1])) + "$", c[0][0].funcs[c[0][1]]
def spec_queue(u):
    X = Ring(u, "task"); fn, f = lam(u, "mlio::Example_msg", "void"); clo, msg = Obj("closure", None, True), Obj("message", 16, True); ISNULL = z3.Bool("decoding failed")
    def setup(ex, st):
        X.init(ex, st, RUNNING); st.assume(ISNULL == ISNULL)
        for o in (clo, msg): ex.objs[o.id] = o
        off = field(u, "Example_msg", "example"); ex.store(st, Ptr(clo, 0), Ptr(X.this, 0), PT, X.m); ex.store(st, Ptr(clo, 8), CAP, I64, X.m); g = st.ghost; g["fh0"] = g["fh"]; n = st.copy(); n.assume(ISNULL); st.assume(z3.Not(ISNULL))
        ex.store(st, Ptr(msg, off), Ptr(X.exs, g["fh"]), PT, X.m); return args_of(u, fn, {"this": Ptr(clo, 0), "msg": Ptr(msg, 0)})
    def post(ex, st, o):
        g = st.ghost; yield from X.quietly(ex, st); yield "ensures: no failure", TF(o[0] == "ret"); ex.cover("pushed", g["took"] == 1); ex.cover("dropped", g["took"] == 0)
        yield "ensures: pushed once, unless the pipeline is told to stop", z3.Or(g["took"] == 1, z3.And(g["took"] == 0, g["cancelled"]))
    return dict(name="the node that queues examples", fn=fn, setup=setup, post=post, covers=["pushed", "dropped"], stubs=X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_queue_none(u):
    X = Ring(u, "task"); fn, f = lam(u, "mlio::Example_msg", "void"); clo, msg = Obj("closure", None, True), Obj("message", 16, True)
    def setup(ex, st):
        X.init(ex, st, RUNNING)
        for o in (clo, msg): ex.objs[o.id] = o
        ex.store(st, Ptr(clo, 0), Ptr(X.this, 0), PT, X.m); ex.store(st, Ptr(clo, 8), CAP, I64, X.m); ex.store(st, Ptr(msg, field(u, "Example_msg", "example")), NULL, PT, X.m); return args_of(u, fn, {"this": Ptr(clo, 0), "msg": Ptr(msg, 0)})
    def post(ex, st, o): yield from X.quietly(ex, st); ex.cover("dropped"); yield "ensures: a batch without example is passed over", z3.And(TF(o[0] == "ret"), st.ghost["took"] == 0)
    return dict(name="the node that queues examples: none", fn=fn, setup=setup, post=post, covers=["dropped"], stubs=X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_order(u):
    X = Ring(u, "task"); fn, f = lam(u, "mlio::Example_msg", "value"); clo, msg = Obj("closure", None, True), Obj("message", 16, True); IDX = z3.BitVec("index of the batch", 64)
    def setup(ex, st):
        X.init(ex, st, RUNNING)
        for o in (clo, msg): ex.objs[o.id] = o
        ex.store(st, Ptr(msg, field(u, "Example_msg", "idx")), IDX, I64, X.m); return args_of(u, fn, {"this": Ptr(clo, 0), "msg": Ptr(msg, 0)})
    def post(ex, st, o): ex.cover("key"); yield "ensures: in the order of the batches", z3.And(TF(o[0] == "ret"), U(o[1]) == IDX)
    return dict(name="the node that orders examples", fn=fn, setup=setup, post=post, covers=["key"], stubs=X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_source(u):
    X = Ring(u, "task"); fn, f = lam(u, "mlio::Batch_msg"); clo, msg, bat, opt = Obj("closure", None, True), outobj("message", 16), Obj("batch", None, True), field(u, "Instance_batch", "__size__")
    def setup(ex, st):
        X.init(ex, st, RUNNING)
        for o in (clo, msg, bat): ex.objs[o.id] = o
        ex.store(st, Ptr(clo, 0), Ptr(X.this, 0), PT, X.m); ex.store(st, Ptr(msg, 0), NULL, PT, X.m); ex.store(st, Ptr(msg, 8), NULL, PT, X.m); st.ghost.update(read=BV(0, 8)); X.end = False; return args_of(u, fn, {"this": Ptr(clo, 0), "msg": Ptr(msg, 0)})
    def read(ex, st, a, i):
        ex.oblige(st, "requires: the next batch is read, once", z3.And(TF(a[1].o is X.batches), st.ghost["read"] == 0)); st.ghost["read"] = BV(1, 8); y, n, e = st, st.copy(), st.copy(); y.ghost["some"] = True; n.ghost["some"] = False; ex.store(y, Ptr(a[0].o, add(a[0].f, opt)), 1, I8, X.m); y.ghost["at"] = a[0]; ex.store(n, Ptr(a[0].o, add(a[0].f, opt)), 0, I8, X.m); return [(y, ("ret", None)), (n, ("ret", None)), *anyof(e)]
    def shared(ex, st, a, i):
        p, q = a[1], st.ghost.get("at"); ex.oblige(st, "ensures: the message carries the batch that was read", TF(q is not None and p.o is q.o and eqc(simp(U(p.f) - U(q.f)), 0))); ex.store(st, a[0], Ptr(bat, 0), PT, X.m); ex.store(st, Ptr(a[0].o, add(a[0].f, 8)), NULL, PT, X.m)
    def post(ex, st, o):
        g = st.ghost
        if o[0] == "throw": ex.cover("error"); yield "ensures: an error only if the batch cannot be read", TF(o[1].ty in FAILS and g["read"] is not None and "some" not in g); return
        ok = bo(asbool(o[1])); ex.cover("batch", ok); ex.cover("end", z3.Not(ok)); p = cell(ex, st, msg, 0, PT); yield "ensures: the pipeline goes on exactly as long as there are batches", ok == TF(g["some"]); yield "ensures: each batch goes down the pipeline", z3.Implies(ok, TF(isinstance(p, Ptr) and p.o is bat)); yield "ensures: read once", g["read"] == 1
    S = [R(r"mlio::detail::Instance_batch_reader::read_instance_batch\(", read), R(r"(std::shared_ptr<.* )?std::make_shared<mlio::Instance_batch, mlio::Instance_batch>\(", shared), R(r"std::optional<mlio::Instance_batch>::~optional", nop), R(r"std::__shared_count<.*>::~__shared_count", nop)]
    return dict(name="the node that reads batches", fn=fn, setup=setup, post=post, covers=["batch", "end", "error"], stubs=S + X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_decode(u):
    X = Ring(u, "task"); fn, f = lam(u, "mlio::Batch_msg", None, r", std::tuple<.*"); clo, msg, bat, ports = Obj("closure", None, True), Obj("message", 16, True), Obj("batch", field(u, "Instance_batch", "__size__"), True), Obj("ports", None, True); IDX, BYTES, SUM = z3.BitVec("index of the batch", 64), z3.BitVec("bytes of the batch", 64), z3.BitVec("bytes read", 64)
    def setup(ex, st):
        X.init(ex, st, RUNNING)
        for o in (clo, msg, bat, ports): ex.objs[o.id] = o
        ex.store(st, Ptr(clo, 0), Ptr(X.this, 0), PT, X.m); ex.store(st, Ptr(msg, field(u, "Batch_msg", "batch")), Ptr(bat, 0), PT, X.m); ex.store(st, Ptr(bat, field(u, "Instance_batch", "index_")), IDX, I64, X.m); ex.store(st, Ptr(X.this, X.f("num_bytes_read_")), SUM, I64, X.m); st.ghost.update(decoded=BV(0, 8), sent=BV(0, 8)); return args_of(u, fn, {"this": Ptr(clo, 0), "msg": Ptr(msg, 0), "ports": Ptr(ports, 0)})
    def decode(ex, st, a, i):
        ex.oblige(st, "requires: the batch of the message is decoded, once", z3.And(TF(a[2].o is bat and eqc(simp(a[2].f), 0)), st.ghost["decoded"] == 0)); st.ghost["decoded"] = BV(1, 8); y, n, e = st, st.copy(), st.copy(); y.ghost["some"] = True; n.ghost["some"] = False; ex.store(y, a[0], Ptr(X.exs, IDX), PT, X.m); ex.store(n, a[0], NULL, PT, X.m); return [(y, ("ret", None)), (n, ("ret", None)), *anyof(e)]
    def put(ex, st, a, i):
        p = a[1]; v = ex.load(st, Ptr(p.o, add(p.f, field(u, "Example_msg", "example"))), PT); k = ex.load(st, Ptr(p.o, add(p.f, field(u, "Example_msg", "idx"))), I64); s = st.ghost.get("some"); ex.oblige(st, "ensures: the message keeps the index of its batch", U(k) == IDX); ex.oblige(st, "ensures: the message carries the batch's example, or none", TF(isinstance(v, Ptr) and (v.o is X.exs if s else v.o is None))); st.ghost["sent"] = bv(simp(z3.If(st.ghost["sent"] == 0, BV(1, 8), BV(2, 8))), 8); return 1
    def post(ex, st, o):
        g = st.ghost; n = U(cell(ex, st, X.this, X.f("num_bytes_read_"), I64))
        if o[0] == "throw": ex.cover("error"); yield "ensures: an error only if the batch cannot be decoded", TF(o[1].ty in FAILS and "some" not in g); yield "ensures: nothing follows a failure", z3.And(g["sent"] == 0, n == SUM); return
        ex.cover("example", TF(g["some"])); ex.cover("none", TF(not g["some"])); yield "ensures: every batch is passed on, once, with or without example", g["sent"] == 1; yield "ensures: the bytes of the examples are counted", n == (SUM + BYTES if g["some"] else SUM)
    S = [R(r"(.* )?tbb::.*(multifunction_output|function_output|sender)<mlio::Example_msg>::try_put\(", put), R(r"mlio::Instance_batch::size_bytes\(", lambda ex, st, a, i: (ex.oblige(st, "requires: the batch", TF(a[0].o is bat)), BYTES)[1])]
    return dict(name="the node that decodes batches", fn=fn, setup=setup, post=post, covers=["example", "none", "error"], stubs=S + X.stubs(), cands=[X.cands], opts=X.opts([(r"::decode\(", decode)]), budget=60)
def spec_begin(u):
    X = Ring(u, "user"); fn = CLS + r"ensure_pipeline_running\("
    def setup(ex, st): t = X.init(ex, st); st.ghost["begun"] = BV(0, 8); return args_of(u, fn, {"this": t})
    def start(ex, st, a, i):
        f, t = ex.load(st, a[1], PT), ex.load(st, a[2], PT); ex.oblige(st, "requires: no pipeline is running", z3.And(st.ghost["begun"] == 0, st.ghost["alone"])); ex.oblige(st, "requires: the thread runs the pipeline of this reader", TF(isinstance(t, Ptr) and t.o is X.this and isinstance(f, (FnPtr, Ptr)) and "run_pipeline" in str(getattr(f, "name", "")) or "run_pipeline" in repr(f))); no = st.copy(); st.ghost["begun"] = BV(1, 8); ex.store(st, a[0], BV(7, 64), I64, X.m); return [(st, ("ret", None)), (no, ("throw", Thrown("_ZTISt12system_error")))]
    def assign(ex, st, a, i): ex.oblige(st, "requires: the reader keeps its thread", z3.And(TF(a[0].o is X.this and eqc(simp(a[0].f), X.f("thread_"))), st.ghost["begun"] == 1)); st.ghost["begun"] = BV(2, 8); st.ghost["alone"] = z3.BoolVal(False); return a[0]
    def post(ex, st, o):
        g = st.ghost; v = X.state(ex, st); yield from X.quietly(ex, st)
        if o[0] == "throw": ex.cover("error"); yield "ensures: an error leaves the reader without pipeline, so that nobody waits for it", z3.And(v == STATE, STATE == IDLE, g["begun"] == 0); return
        ex.cover("begun", g["begun"] == 2); ex.cover("running", STATE == RUNNING); yield "ensures: one pipeline", (g["begun"] == 2) == (STATE == IDLE); yield "ensures: nothing is begun by halves", z3.Or(g["begun"] == 0, g["begun"] == 2); yield "ensures: the reader knows that it is running", z3.If(STATE == IDLE, v == RUNNING, z3.Or(v == STATE, z3.And(STATE == RUNNING, v != IDLE)))
    return dict(name="Parallel_data_reader::ensure_pipeline_running", fn=fn, setup=setup, post=post, covers=["begun", "running", "error"], stubs=[R(r"(std::thread )?mlio::detail::start_thread<", start), R(r"std::thread::operator=\(std::thread&&\)", assign), R(r"std::thread::~thread\(", nop)] + X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_run(u):
    X = Ring(u, "thread"); fn = CLS + r"run_pipeline\(\)$"; NOGRAPH = z3.Bool("the graph is not made yet")
    def setup(ex, st):
        t = X.init(ex, st, RUNNING); st.ghost.update(made=z3.Not(NOGRAPH), active=z3.BoolVal(False), ran=BV(0, 8)); return args_of(u, fn, {"this": t})
    def src(ex, st, o, off, n, write): pass
    def load_src(ex, st):
        pass
    def init(ex, st, a, i): ex.oblige(st, "requires: the graph is made once", z3.Not(st.ghost["made"])); st.ghost["made"] = z3.BoolVal(True); ex.store(st, Ptr(X.graph, X.g("src_node")), Ptr(X.src, 0), PT, X.m)
    def act(ex, st, a, i): ex.oblige(st, "requires: the source of the graph", z3.And(st.ghost["made"], TF(isinstance(a[0], Ptr) and a[0].o is X.src))); st.ghost["active"] = z3.BoolVal(True)
    def wait(ex, st, a, i):
        ex.oblige(st, "requires: the source is active and the lock is free", z3.And(st.ghost["active"], z3.Not(st.ghost["held"]), st.ghost["ran"] == 0, TF(a[0].o is X.graph and eqc(simp(a[0].f), X.g("obj"))))); e = st.copy(); st.ghost["ran"] = BV(1, 8); e.ghost["ran"] = BV(2, 8); return [(st, ("ret", None)), *anyof(e, X.exc)]
    def post(ex, st, o):
        g = st.ghost; v = X.state(ex, st); yield from X.quietly(ex, st); yield "ensures: no failure leaves the thread", TF(o[0] == "ret"); ex.cover("stopped", v == STOPPED); ex.cover("faulted", v == FAULTED)
        p = cell(ex, st, X.this, X.f("exception_ptr_"), PT); yield "ensures: a failure is kept for the reader", z3.If(g["ran"] == 2, z3.And(v == FAULTED, TF(isinstance(p, Ptr) and p.o is X.exc)), z3.And(v == STOPPED, g["ran"] == 1, TF(isinstance(p, Ptr) and p.o is None)))
    def mk(made):
        def setup2(ex, st):
            r = setup(ex, st); st.assume(NOGRAPH == (not made)); ex.store(st, Ptr(X.graph, X.g("src_node")), Ptr(X.src, 0) if made else NULL, PT, X.m); return r
        # the end of the pipeline is a change of the state
        def touch(ex, st, o, off, n, write):
            X.touch(ex, st, o, off, n, write)
            if write and not X.quiet and o is X.this and eqc(simp(off), X.f("state_")): st.ghost["owe_read"] = z3.BoolVal(True); ex.oblige(st, "requires: the pipeline has ended", st.ghost["ran"] != 0)
        op = X.opts(); op["touch"] = touch
        return dict(name="Parallel_data_reader::run_pipeline" + ("" if made else ": first epoch"), fn=fn, setup=setup2, post=post, covers=["stopped", "faulted"], stubs=[R(CLS + r"init_graph\(", init), R(r"tbb::.*(input_node|source_node)<mlio::Batch_msg>::activate\(", act), R(r"tbb::.*graph::wait_for_all\(", wait)] + X.stubs(), cands=[X.cands], opts=op, budget=60)
    return [mk(True), mk(False)]
def spec_stop(u):
    X = Ring(u, "user"); fn = CLS + r"stop\(\)$"
    def setup(ex, st): return args_of(u, fn, {"this": X.init(ex, st)})
    def post(ex, st, o):
        g = st.ghost; yield from X.quietly(ex, st); yield "ensures: no failure", TF(o[0] == "ret"); ex.cover("stopped", STATE == RUNNING); ex.cover("idle", STATE == IDLE); yield "ensures: all background work has ended", g["joined"] == (STATE != IDLE); yield "ensures: no example is left", z3.And(g["rl"] == g["rh"], g["fl"] == g["fh"])
    return dict(name="Parallel_data_reader::stop", fn=fn, setup=setup, post=post, covers=["stopped", "idle"], stubs=X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_reset(u):
    X = Ring(u, "user"); fn = CLS + r"reset\("; peek = field(u, "Data_reader_base", "peeked_example_")
    def setup(ex, st): t = X.init(ex, st); ex.store(st, Ptr(X.this, X.f("exception_ptr_")), Ptr(X.exc, 0), PT, X.m); st.ghost.update(stopped=BV(0, 8), batches=BV(0, 8), ctx=BV(0, 8), graph=BV(0, 8), base=BV(0, 8)); return args_of(u, fn, {"this": t})
    def stop(ex, st, a, i): st.ghost.update(stopped=BV(1, 8), alone=z3.BoolVal(True)); g = st.ghost; g["rl"], g["fl"] = g["rh"], g["fh"]
    def again(k, ok):
        def h(ex, st, a, i):
            ex.oblige(st, "requires: " + k + " is reset after all background work has ended", z3.And(st.ghost["stopped"] == 1, TF(ok(a)))); st.ghost[k] = BV(1, 8)
        return h
    def post(ex, st, o):
        g = st.ghost; yield from X.quietly(ex, st); yield "ensures: no failure", TF(o[0] == "ret"); ex.cover("reset"); p = cell(ex, st, X.this, X.f("exception_ptr_"), PT)
        yield "ensures: the next epoch starts from the beginning", z3.And(X.state(ex, st) == IDLE, *[g[k] == 1 for k in ("stopped", "batches", "graph", "base")]); yield "ensures: no failure of the last epoch is left", TF(isinstance(p, Ptr) and p.o is None); yield "ensures: no bytes are counted yet", U(cell(ex, st, X.this, X.f("num_bytes_read_"), I64)) == 0; yield "ensures: no example of the last epoch is left", z3.And(g["rl"] == g["rh"], g["fl"] == g["fh"])
    S = [R(CLS + r"stop\(", stop), R(r"mlio::detail::Instance_batch_reader::reset\(", again("batches", lambda a: a[0].o is X.batches)), R(r"tbb::.*task_group_context::reset\(", again("ctx", lambda a: a[0].o is X.graph and eqc(simp(a[0].f), X.g("ctx")))), R(r"tbb::.*graph::reset\(", again("graph", lambda a: a[0].o is X.graph and eqc(simp(a[0].f), X.g("obj")))), R(r"mlio::Data_reader_base::reset\(", again("base", lambda a: a[0].o is X.this))]
    return dict(name="Parallel_data_reader::reset", fn=fn, setup=setup, post=post, covers=["reset"], stubs=S + X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
def spec_schema(u):
    X = Ring(u, "user"); sch, opt = Obj("schema", None, True), field(u, "Instance", "__size__"); r = []
    for known in (False, True):
        fn = CLS + r"ensure_schema_inferred\("
        def setup(ex, st, known=known):
            t = X.init(ex, st); ex.objs[sch.id] = sch; ex.store(st, Ptr(X.this, X.f("schema_")), Ptr(sch, 8) if known else NULL, PT, X.m); st.ghost.update(peeked=BV(0, 8), inferred=BV(0, 8)); return args_of(u, fn, {"this": t})
        inst = Obj("first instance", None, True)
        def peek(ex, st, a, i):
            ex.objs[inst.id] = inst; ex.oblige(st, "requires: the reader's instances", TF(a[1].o is X.inst)); st.ghost["peeked"] = BV(1, 8); e = st.copy(); X.first = a[0]; ex.store(st, Ptr(a[0].o, add(a[0].f, opt)), 0, I8, X.m); return [(st, ("ret", None)), *anyof(e)]
        def infer(ex, st, a, i): ex.oblige(st, "requires: the first instance", z3.And(TF(a[2].o is X.first.o and eqc(simp(a[2].f), simp(X.first.f))), st.ghost["peeked"] == 1)); st.ghost["inferred"] = BV(1, 8); e = st.copy(); ex.store(st, a[0], Ptr(sch, 0), PT, X.m); return [(st, ("ret", None)), *anyof(e)]
        def post(ex, st, o, known=known):
            p = cell(ex, st, X.this, X.f("schema_"), PT); ex.cover("known", TF(o[0] == "ret"))
            if known: yield "ensures: the schema is inferred once", z3.And(st.ghost["peeked"] == 0, st.ghost["inferred"] == 0, TF(isinstance(p, Ptr) and p.o is sch and eqc(simp(p.f), 8)))
            elif o[0] == "ret": yield "ensures: the schema of the first instance", z3.And(st.ghost["inferred"] == 1, TF(isinstance(p, Ptr) and p.o is sch and eqc(simp(p.f), 0)))
            else: yield "ensures: without schema after an error", TF(isinstance(p, Ptr) and p.o is None and o[1].ty in FAILS)
        r.append(dict(name="Parallel_data_reader::ensure_schema_inferred" + (": known" if known else ""), fn=fn, setup=setup, post=post, covers=["known"], stubs=X.stubs(), opts=X.opts([(r"::infer_schema\(", infer), (r"::peek_instance\(", peek)]), budget=60))
    return r
def spec_dtor(u, cls):
    fn = r"mlio::%s::~%s\(" % (cls, cls)
    def setup(ex, st):
        o = Obj("this", None, True); ex.objs[o.id] = o; st.ghost["stopped"] = BV(0, 8); return args_of(u, fn, {"this": Ptr(o, 0)})
    def stop(ex, st, a, i): st.ghost["stopped"] = bv(simp(st.ghost["stopped"] + 1), 8)
    def member(ex, st, a, i): ex.oblige(st, "requires: nothing the background work uses is destroyed before it has ended", st.ghost["stopped"] != 0); return None
    def post(ex, st, o): ex.cover("destroyed"); yield "ensures: all background work is stopped", z3.And(TF(o[0] == "ret"), st.ghost["stopped"] != 0)
    return dict(name=cls + "::~" + cls, fn=fn, setup=setup, post=post, covers=["destroyed"], stubs=[R(CLS + r"stop\(", stop), R(r".*::~\w+\(", member)], budget=30, opts={})
NODES = {"source_node": "source", "limiter_node": "limiter", "multifunction_node": "decode", "sequencer_node": "order", "function_node": "queue"}
EDGES = [("source", "limiter"), ("limiter", "decode"), ("decode", "order"), ("order", "queue"), ("queue", "decrementer")]
def spec_graph(u):
    X = Ring(u, "thread"); fn = CLS + r"init_graph\(\)$"; nodes = {k: Obj(k + " node", None, True) for k in list(NODES.values()) + ["decrementer"]}; PRE, PAR = z3.BitVec("params.num_prefetched_examples", 64), z3.BitVec("params.num_parallel_reads", 64); CPU = z3.BitVec("processor cores", 32)
    par = lambda n: field(u, "Data_reader_base", "params_") + field(u, "Data_reader_params", n)
    cap = z3.If(PRE == 0, z3.ZeroExt(32, CPU), PRE); lim = z3.If(z3.Or(PAR == 0, z3.UGT(PAR, cap)), cap, PAR)
    def setup(ex, st):
        t = X.init(ex, st, RUNNING); st.assume(CPU > 0); ex.bounded(st, PRE, PAR)
        for o in nodes.values(): ex.objs[o.id] = o
        ex.store(st, Ptr(X.this, par("num_prefetched_examples")), PRE, I64, X.m); ex.store(st, Ptr(X.this, par("num_parallel_reads")), PAR, I64, X.m); ex.store(st, Ptr(X.graph, X.g("src_node")), NULL, PT, X.m); st.ghost.update(made=frozenset(), edges=frozenset(), owned=frozenset()); return args_of(u, fn, {"this": t})
    def make(kind):
        def h(ex, st, a, i):
            g = st.ghost; ex.oblige(st, "requires: one node of the graph of each kind", TF(kind not in g["made"] and a[1].o is X.graph and eqc(simp(a[1].f), X.g("obj")))); g["made"] |= {kind}; rest = a[2:]
            if kind == "source": ex.oblige(st, "requires: the source waits until it is activated", bv(ex.load(st, rest[1], I8), 8) == 0)
            if kind == "limiter": ex.oblige(st, "ensures: as many batches at a time as asked for, at least one", U(ex.load(st, rest[0], I64)) == lim)
            if kind == "queue":
                ex.oblige(st, "ensures: one example is queued at a time", bv(ex.load(st, rest[0], I32), 32) == 1)
                c = rest[1]; ex.oblige(st, "ensures: as many examples are kept as asked for, at least one", U(ex.load(st, Ptr(c.o, add(c.f, 8)), I64)) == cap)
            if kind in ("source", "decode", "queue"): c = rest[0] if kind == "source" else rest[1]; v = ex.load(st, c, PT); ex.oblige(st, "requires: the nodes work for this reader", TF(isinstance(v, Ptr) and v.o is X.this))
            ex.store(st, a[0], Ptr(nodes[kind], 0), PT, X.m)
        return h
    who = lambda p: next((k for k, o in nodes.items() if isinstance(p, Ptr) and p.o is o), None)
    def edge(ex, st, a, i):
        e = (who(a[0]), who(a[1])); ex.oblige(st, "ensures: batches go from the source through the limiter to be decoded, ordered and queued, and make way for the next", TF(e in EDGES and e not in st.ghost["edges"])); st.ghost["edges"] |= {e}
    def own(ex, st, a, i):
        v = ex.load(st, a[1], PT); k = who(v); ex.oblige(st, "requires: the nodes live as long as their graph", TF(k is not None and k not in st.ghost["owned"] and a[0].o is X.graph)); st.ghost["owned"] |= {k}; ex.store(st, a[1], NULL, PT, X.m); return a[0]
    def post(ex, st, o):
        g = st.ghost; ex.cover("made"); yield "ensures: no failure", TF(o[0] == "ret"); yield "ensures: the whole pipeline is connected", TF(g["edges"] == frozenset(EDGES)); yield "ensures: the nodes live as long as their graph", TF(g["owned"] == frozenset(NODES.values())); p = cell(ex, st, X.graph, X.g("src_node"), PT); yield "ensures: the source is known", TF(who(p) == "source")
    def gone(ex, st, a, i): ex.oblige(st, "requires: no node of the pipeline is destroyed", TF(who(a[1]) is None)); return None
    S = [R(r".*std::make_unique<tbb::.*\b" + k + "<", make(v)) for k, v in NODES.items()] + [R(r"(void )?tbb::.*make_edge<", edge), R(r".*output_port<0ul?,", lambda ex, st, a, i: a[0]), R(r"tbb::.*limiter_node<.*>::decrementer\(", lambda ex, st, a, i: Ptr(nodes["decrementer"], 0)), R(r".*std::vector<std::unique_ptr<tbb::.*graph_node.*emplace_back<", own), R(r"std::default_delete<tbb::.*>::operator\(\)", gone), R(r"tbb::task_scheduler_init::default_num_threads\(|tbb::.*default_concurrency\(", lambda ex, st, a, i: CPU)]
    return dict(name="Parallel_data_reader::init_graph", fn=fn, setup=setup, post=post, covers=["made"], stubs=S + X.stubs(), cands=[X.cands], opts=X.opts(), budget=60)
spec_run_again, spec_run_first = (lambda u: spec_run(u)[0]), (lambda u: spec_run(u)[1])
spec_schema_new, spec_schema_known = (lambda u: spec_schema(u)[0]), (lambda u: spec_schema(u)[1])
def dtor(c): return lambda u: spec_dtor(u, c)
def specs(u):
    return [spec_read, spec_queue, spec_queue_none, spec_order, spec_source, spec_decode, spec_begin, spec_run_again, spec_run_first, spec_stop, spec_reset, spec_schema_new, spec_schema_known, spec_graph] + [dtor(c) for c in ("Csv_reader", "Image_reader", "Recordio_protobuf_reader", "Text_line_reader")]
HARNESS = dict(file="P28.cc", srcs=lambda: build.readers(), secs=8)
NOTE = "every function of the pipeline is proved against a monitor: whatever is found under the lock (any state, any queue that the other side may leave) the shared state is touched only with the lock held, each side leaves only changes that the other side's proof allows for, the read and the fill queue are always consecutive pieces of the order of the batches, read_example delivers the next one, the end only when the pipeline stopped without a failure and both queues are empty, and a failure only of the pipeline and after what was taken before; a thread sleeps only for something the other side will bring about, nobody sleeps or leaves while owing a notification, and the thread is joined without the lock, told and woken; the bodies of the nodes pass each batch on exactly once with its own index (also without example), the graph connects source, limiter, decoding, ordering and queueing with the limits asked for; a thread that cannot be started leaves the reader as it was; reset and the destructors of the four readers end all background work first"
ASSUME = ["TBB: an input node calls its body until it returns false and passes every message on, a limiter lets through its threshold of messages less those it is told have been dealt with, a sequencer passes messages on in the order of the indices 0, 1, ..., a serial node runs one body at a time, cancelling a group or an exception of a body starts no further bodies, wait_for_all returns when no body runs and rethrows the exception, reset makes a graph (with its context) as new", "std::mutex, std::condition_variable (spurious wakeups included), std::thread::join, std::deque and std::exception_ptr keep their contracts; the argument from the contracts of each side to all interleavings is that of monitors (rely and guarantee), each side's guarantee being checked here", "one thread at a time reads, resets or destroys a reader; the reader's own exceptions derive from std::exception; a lock is always granted in the end", "at most 2^44 examples; Intrusive_ptr (P15), instance batches (P12) and the reader base (P13) keep their contracts"]
TRUSTED = ["oneTBB flow graph (and /opt/vp/compat's source_node)", "libstdc++ threads"]
