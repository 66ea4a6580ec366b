"""Server and bookkeeper: contracts of BlockBookkeeper, the message handlers, the event loop and run_blockwise.

State: the counts of all tasks, which blocks the scheduler has handed out (proc), which blocks the bookkeeper knows (sent,
and to which stream), which tasks were announced, the delayed requests. The scheduler, the worker pools, the streams and the
TCP server are replaced by their contracts (layers B to D); BlockBookkeeper, TaskState, ServerObservee and the messages are
the real classes. Callers of _check_all_tasks_completed and _recruit_workers use the contracts of these methods.
"""
import contextlib, types
from .harness import *
from . import fol, dset, finite, layer_c
from .fol import NSet, SymNode, Node, TaskS, forall, exists, FALSE, TRUE, SymTask, Loc
from .layer_c import (St, SymBid, tkey, bkey, TaskView, TaskDict, Tk, IsTask, I, A, O, N, Int, Bool)
from .layer_d import T, ensure, patched
from .sym import zi

install()
Closed = z3.Function("Closed", Int, Bool)
Address = z3.Function("Address", Int, Int)
AddressPart = z3.Function("AddressPart", Int, Int, Int)
COUNTS = ("ready_count", "processing_count", "completed_count", "failed_count", "orphaned_count")


class SymAddress(Sym):
    """the address of a peer"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return SymAddress(z3.substitute(self.t, *m) if m else self.t)

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, SymAddress) else False

    def __ne__(self, o):
        return sym.not_(self == o)

    def __getitem__(self, i):
        if not isinstance(i, int) or i not in (0, 1):
            raise Unsupported("part of an address")
        return SymAddress(AddressPart(self.t, i))

    __hash__ = Sym.__hash__


class SymStream(Sym):
    """a connection to a worker"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return SymStream(z3.substitute(self.t, *m) if m else self.t)

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, SymStream) else False

    def __ne__(self, o):
        return sym.not_(self == o)

    def dv_is(self, a, b):
        return self == (b if a is self else a)

    def closed(self):
        return SymBool(Closed(self.t))

    # connections may come from the same address
    address = property(lambda s: SymAddress(Address(s.t)))

    def send_message(self, m):
        from daisy.tcp.exceptions import StreamClosedError

        T.note("send", self.t, m)
        if E.choose(2, "send fails"):
            raise StreamClosedError("host", 7)

    __hash__ = Sym.__hash__


class LogView(Sym):
    """an entry of sent_blocks"""

    def __init__(self, x):
        self.x = x

    def sub(self, m):
        return LogView(z3.substitute(self.x, *m) if m else self.x)

    @property
    def block(self):
        return SymNode(self.x)

    stream = property(lambda s: SymStream(SE.strm.at(s.x)))
    time_sent = property(lambda s: SymInt(SE.time.at(s.x)))


class SentDict(Sym):
    """blocks by their identities"""

    def dv_contains(self, k):
        return SymBool(SE.sent.at(bkey(k)))

    def __getitem__(self, k):
        if not bool(self.dv_contains(k)):
            raise KeyError(k)
        return LogView(bkey(k))

    def get(self, k, d=None):
        return LogView(bkey(k)) if bool(self.dv_contains(k)) else d

    def __setitem__(self, k, v):
        x = bkey(k)
        b, s = getattr(v, "block", None), getattr(v, "stream", None)
        if not isinstance(b, SymNode) or not isinstance(s, SymStream):
            raise Unsupported("entry of sent_blocks")
        E.prove(f"{SE.prop}/sent_blocks: blocks are stored under their own identity", b.t == x)
        E.assume(b.t == x)
        SE.sent.store([x], TRUE)
        SE.strm.store([x], s.t)
        SE.time.store([x], zi(v.time_sent))

    def __delitem__(self, k):
        if not bool(self.dv_contains(k)):
            raise KeyError(k)
        SE.sent.store([bkey(k)], FALSE)

    def pop(self, k, *d):
        if not bool(self.dv_contains(k)):
            if d:
                return d[0]
            raise KeyError(k)
        v = Frozen(bkey(k))
        SE.sent.store([bkey(k)], FALSE)
        return v

    def _coll(self, f):
        x = E.const("sent", Node)
        return Coll([Case([x], [SE.sent.at(x)], f(x))], unique=True)

    def items(self):
        return self._coll(lambda x: (SymBid(x), LogView(x)))

    def keys(self):
        return self._coll(SymBid)

    def values(self):
        return self._coll(LogView)

    def dv_segments(self):
        return [("coll", self.keys())]

    def sub(self, m):
        return self


class Frozen(LogView):
    pass


class PendQ(Sym):
    def __init__(self, t):
        self.q = t

    def sub(self, m):
        return PendQ(z3.substitute(self.q, *m) if m else self.q)

    def empty(self):
        return SymBool(SE.qlen.at(self.q) <= 0)

    def qsize(self):
        return SymInt(SE.qlen.at(self.q))

    def put(self, m, *a, **k):
        T.note("kept", self.q, m)
        SE.qlen.store([self.q], SE.qlen.at(self.q) + 1)

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not bool(SymBool(SE.qlen.at(self.q) > 0)):
            if block and timeout is None:
                E.fail(f"{SE.prop}/server: never waits for a delayed request", "get from an empty queue")
                raise Infeasible()
            import queue

            raise queue.Empty()
        SE.qlen.store([self.q], SE.qlen.at(self.q) - 1)
        m = Delayed(self.q)
        T.note("taken", self.q, m)
        return m

    def get_nowait(self):
        return self.get(False)


class Delayed:
    def __init__(self, t):
        self.task = t


class Sched:
    """contract of Scheduler"""

    def __init__(self, *a, **k):
        pass

    @property
    def task_states(self):
        return TaskDict(lambda t: St.TSView(t), lambda t: IsTask(t))

    def havoc(self):
        d0 = done_of(lambda k, c={k: l.val for k, l in St.c.items()}: c[k])
        for l in St.c.values():
            l.put(l.fresh_val())
        E.assume(counts_ok())
        E.assume(forall([TaskS], lambda t: I(d0(t), done(t))))  # decided blocks stay decided

    def acquire_block(self, tid):
        t = tkey(tid)
        d = done(t)
        self.havoc()
        if E.choose(2, "acquired"):
            E.assume(A(St.c["ready_count"].at(t) == 0))
            T.note("acquired", t, None)
            return None
        b = E.fresh("b", Node)
        E.assume(A(Tk(b) == t, N(SE.proc.at(b)), N(d)))
        SE.proc.store([b], TRUE)
        E.assume(counts_ok())
        T.note("acquired", t, b)
        n = SymNode(b)
        from daisy.block import BlockStatus as BS

        # a block that is retried is the same object as before
        n.__dict__["status"] = (BS.CREATED, BS.FAILED)[E.choose(2, "retried")] if SE.retried else BS.PROCESSING
        return n

    def release_block(self, blk):
        from daisy.block import BlockStatus as BS

        if not isinstance(blk, SymNode):
            raise Unsupported("argument of release_block")
        b = blk.t
        s = blk.__dict__.get("status")
        need("13", "only blocks that are outstanding are returned to the scheduler", SE.proc.at(b))
        E.assume(SE.proc.at(b))
        SE.proc.store([b], FALSE)
        SE.rel.store([b], SE.rel.at(b) + 1)
        SE.relst.store([b], z3.IntVal(code(s)))
        self.havoc()
        T.note("released", b, s)

    def get_ready_tasks(self):
        t = E.const("ready", TaskS)
        return Coll([Case([t], [A(IsTask(t), St.c["ready_count"].at(t) > 0)], SrvTask(t))], unique=True)


class SrvTask(TaskView):
    def sub(self, m):
        return SrvTask(z3.substitute(self.tt, *m) if m else self.tt)

    @property
    def init_callback_fn(self):
        def f(ctx):
            SE.ninit.store([self.tt], SE.ninit.at(self.tt) + 1)
            if SE.callbacks_raise and E.choose(2, "init callback raises"):
                raise UserError()

        return f


    @property
    def process_function(self):
        return ProcFn(self.tt)


class ProcFn(Sym):
    """process function of a task"""

    def __init__(self, t):
        self.__dict__["tt"] = t

    def sub(self, m):
        return ProcFn(z3.substitute(self.tt, *m) if m else self.tt)

    def __call__(self, blk):
        from daisy.block import BlockStatus as BS

        if not isinstance(blk, SymNode):
            raise Unsupported("argument of the process function")
        b = blk.t
        need("20", "blocks are processed by the function of their own task", Tk(b) == self.tt)
        need("20", "only blocks that were acquired and not released are processed", SE.proc.at(b))
        k = E.choose(4, "status set")
        if k:
            blk.dv_setattr("status", (BS.FAILED, BS.SUCCESS, BS.CREATED)[k - 1])
        SE.ncalls.store([b], SE.ncalls.at(b) + 1)
        T.note("processed", b, k)


KINDS = (SrvTask, ProcFn)


class UserError(Exception):
    pass


def code(s):
    from daisy.block import BlockStatus as BS

    return {BS.SUCCESS: 1, BS.FAILED: 2}.get(s, 0)


class Pools:
    """contract of TaskWorkerPools"""

    def __init__(self, *a, **k):
        T.note("pools")

    def recruit_workers(self, tasks):
        SE.recruited.put(lambda t, p=keys_of(tasks): p(t))
        T.note("recruited")

    def check_worker_health(self):
        T.note("health")
        if SE.health_raises and E.choose(2, "a worker raised"):
            raise UserError()

    def stop(self):
        T.note("workers stopped")


def keys_of(d):
    if isinstance(d, TaskDict):
        return d.keys_
    if isinstance(d, KeyMap):
        return d.val
    return fol.membership(d, TaskS)


class KeyMap(Loc):
    """local dictionary from task ids to their tasks (or something that belongs to them)"""

    def __init__(self, val=None, kind=None):
        super().__init__("dict", [TaskS], Bool, val or (lambda t: FALSE))
        self.kind = kind

    def view(self, t):
        if self.kind is None:
            raise Unsupported("values of a dictionary")
        return self.kind(t)

    def __delitem__(self, k):
        if not bool(self.dv_contains(k)):
            raise KeyError(k)
        self.store([tkey(k)], FALSE)

    def pop(self, k, *d):
        if not bool(self.dv_contains(k)):
            if d:
                return d[0]
            raise KeyError(k)
        self.store([tkey(k)], FALSE)
        return self.view(tkey(k))

    def dv_len(self):
        return coll.CollLen(self.keys())

    def __bool__(self):
        return bool(SymBool(exists([TaskS], lambda t: self.at(t))))

    def sub(self, m):
        return self

    def __getitem__(self, k):
        if not bool(self.dv_contains(k)):
            raise KeyError(k)
        return self.view(tkey(k))

    def get(self, k, d=None):
        return self.view(tkey(k)) if bool(self.dv_contains(k)) else d

    def __setitem__(self, k, v):
        t = tkey(k)
        if type(v) not in KINDS or not v.tt.eq(t) or self.kind not in (None, type(v)):
            raise Unsupported("dictionary of tasks")
        self.kind = type(v)
        self.store([t], TRUE)

    def dv_contains(self, k):
        return SymBool(self.at(tkey(k)))

    def _coll(self, f):
        t = E.const("task", TaskS)
        return Coll([Case([t], [self.at(t)], f(t))], unique=True)

    def items(self):
        return self._coll(lambda t: (SymTask(t), self.view(t)))

    def keys(self):
        return self._coll(SymTask)

    def values(self):
        return self._coll(self.view)

    def dv_segments(self):
        return [("coll", self.keys())]


def mkdict_rule(x):
    if isinstance(x, (tuple, list, dict)) and not x:
        return KeyMap()
    if isinstance(x, Coll) or isinstance(x, DList):
        cs = cases_of(x)
        if cs and all(isinstance(c.value, tuple) and len(c.value) == 2 and isinstance(c.value[0], SymTask) and type(
                c.value[1]) in KINDS and type(c.value[1]) is type(cs[0].value[1]) and c.value[0].t.eq(
                    c.value[1].tt) for c in cs):
            p = fol.membership(Coll([Case(c.binders, c.entries, c.value[0]) for c in cs]), TaskS)
            return KeyMap(lambda t: p(t), type(cs[0].value[1]))
    return NotImplemented


class Observer:
    def on_task_start(self, tid, state):
        t = tkey(tid)
        SE.nstart.store([t], SE.nstart.at(t) + 1)
        self.state_of(t, state)

    def on_task_done(self, tid, state):
        t = tkey(tid)
        need("15", "a task is announced as done only if it is", done(t))
        SE.ndone.store([t], SE.ndone.at(t) + 1)
        self.state_of(t, state)

    def state_of(self, t, state):
        if not isinstance(state, St.TSView):
            if not (type(state).__name__ == "TaskState" and St.c.keys() <= state.__dict__.keys()):
                raise Unsupported("state passed to an observer")
            # a copy of the state
            now = St.TSView(t)
            for k in St.c:
                a, b = getattr(now, k), state.__dict__[k]
                need("15", "observers get the state of the task", (sym.zb(a) == sym.zb(b)) if isinstance(
                    a, SymBool) else (zi(a) == zi(b)))
            return
        need("15", "observers get the state of the task", state._dv_t == t)

    def on_acquire_block(self, tid, state):
        T.note("on_acquire", tkey(tid))

    def on_release_block(self, tid, state):
        pass

    def on_block_failure(self, block, exception, context):
        T.note("on_failure", block, exception, context)

    def on_server_exit(self):
        T.note("on_exit")


class StopEvent:
    def is_set(self):
        return SymBool(SE.stop.at())

    def set(self):
        SE.stop.put(lambda: TRUE)
        T.note("stop")

    def clear(self):
        SE.stop.put(lambda: FALSE)

    def wait(self, timeout=None):
        raise Unsupported("wait for the stop event")


class Clock:
    @staticmethod
    def time():
        return SymInt(z3.Const("now", Int))


class SEState:
    callbacks_raise = health_raises = retried = False

    def make(self):
        St.make()
        self.proc = Loc("outstanding", [Node], Bool)
        self.sent = Loc("sent", [Node], Bool)
        self.strm = Loc("stream", [Node], Int)
        self.time = Loc("time", [Node], Int)
        self.rel = Loc("returned", [Node], Int)
        self.relst = Loc("returned as", [Node], Int)
        self.qlen = Loc("delayed", [TaskS], Int)
        self.nstart = Loc("announced start", [TaskS], Int)
        self.ninit = Loc("init callbacks", [TaskS], Int)
        self.ndone = Loc("announced done", [TaskS], Int)
        self.started = NSet("started", None, TaskS, SymTask)
        self.finished = NSet("finished", None, TaskS, SymTask)
        self.stop = Loc("stop", [], Bool)
        self.all_done = Loc("all_done", [], Bool)
        self.ncalls = Loc("calls", [Node], Int)
        self.recruited = Loc("recruited", [TaskS], Bool, lambda t: FALSE)
        E.locs = list(St.c.values()) + [self.proc, self.sent, self.strm, self.time, self.rel, self.relst, self.qlen,
                                        self.nstart, self.ninit, self.ndone, self.started, self.finished, self.stop,
                                        self.all_done, self.recruited, self.ncalls]
        E.assume(forall([Node], lambda x: IsTask(Tk(x))))
        E.assume(exists([TaskS], lambda t: IsTask(t)))


SE = SEState()


class Snap:
    """the values of all locations"""

    def __init__(self):
        self.d = {id(l): l.val for l in E.locs}

    def __getitem__(self, l):
        return self.d[id(l)]


def mine(tags):
    return SE.prop[1:] in tags.split()


def need(tags, name, cond):
    """obligation of the properties in tags"""
    if mine(tags):
        if isinstance(cond, bool):
            return ensure(f"{SE.prop}/{SE.where}: {name}", cond)
        return E.prove(f"{SE.prop}/{SE.where}: {name}", cond)
    return True


def pend(t, c=None):
    c = c or (lambda k: St.c[k].at)
    return c("total_block_count")(t) - sum((c(k)(t) for k in COUNTS[1:]), c(COUNTS[0])(t))


def done_of(c):
    return lambda t: A(c("ready_count")(t) == 0, c("processing_count")(t) == 0, pend(t, c) == 0)


def done(t):
    """all blocks of the task are completed, failed or orphaned"""
    return done_of(lambda k: St.c[k].at)(t)


def all_done():
    return forall([TaskS], lambda t: I(IsTask(t), done(t)))


def counts_ok(v=None):
    """contract of the scheduler (layer C): the counts"""
    at = (lambda l: l.val) if v is None else v
    c = lambda k: at(St.c[k])
    return A(forall([TaskS], lambda t: A(*[c(k)(t) >= 0 for k in COUNTS], pend(t, c) >= 0)),
             forall([Node], lambda x: I(at(SE.proc)(x), c("processing_count")(Tk(x)) > 0)))


def clauses(v):
    return [
        ("13", "the bookkeeper knows exactly the outstanding blocks", forall([Node], lambda x: v(SE.sent)(x) == v(SE.proc)(x))),
        ("15", "finished tasks are those announced as done, once each", forall([TaskS], lambda t: v(SE.ndone)(t) == z3.If(
            v(SE.finished)(t), z3.IntVal(1), z3.IntVal(0)))),
        ("15", "started tasks are those announced as started, once each", forall([TaskS], lambda t: v(SE.nstart)(t) == z3.If(
            v(SE.started)(t), z3.IntVal(1), z3.IntVal(0)))),
        ("", "counts", counts_ok(v)),
    ]


def templates(lp, v0, sets, svars):
    out = []
    for i, c in enumerate(clauses(lambda l: v0[l])):
        out.append((c[1], lambda v, i=i: clauses(lambda l: v[l])[i][2]))
    d = lambda v, t: A(v[St.c["ready_count"]](t) == 0, v[St.c["processing_count"]](t) == 0, pend(t, lambda k: v[St.c[k]]) == 0)
    if lp.case is not None and lp.case.binders[0].sort() == TaskS:
        bs = [l for l in lp.hv_locs if l.sorts == () and l.rng == Bool] + [n for n in lp.hv_vars if isinstance(
            v0.get(n), z3.ExprRef) and v0.get(n).sort() == Bool]
        for b in bs:
            e = v0[b]() if isinstance(b, Loc) else v0.get(b)
            w = lambda v, b=b: v[b]() if isinstance(b, Loc) else v[b]
            nm = b.name if isinstance(b, Loc) else b
            out.append((f"{nm}: all visited tasks are done", lambda v, w=w, e=e: w(v) == A(e, forall([TaskS], lambda t: I(
                v.done(t), d(v, t))))))
            out.append((f"{nm}: some visited task is not done", lambda v, w=w, e=e: w(v) == O(e, exists([TaskS], lambda t: A(
                v.done(t), N(d(v, t)))))))
        out.append(("visited tasks are announced", lambda v: forall([TaskS], lambda t: I(A(v.done(t), d(v, t)), v[
            SE.finished](t)))))
        n0, s0_ = v0[SE.ninit], v0[SE.nstart]
        out.append(("init callbacks of started tasks", lambda v: forall([TaskS], lambda t: v[SE.ninit](t) - n0(t) == v[
            SE.nstart](t) - s0_(t))))
        out.append(("visited tasks are started", lambda v: forall([TaskS], lambda t: I(v.done(t), v[SE.started](t)))))
    if lp.case is not None and lp.case.binders[0].sort() == Node:
        out.append(("visited blocks are returned as failed", lambda v: forall([Node], lambda x: I(v.done(x), v[SE.relst](
            x) == 2))))
    s0 = v0[SE.stop]()
    out.append(("stops only if all tasks are done", lambda v: I(N(s0), I(v[SE.stop](), forall([TaskS], lambda t: I(IsTask(
        t), d(v, t)))))))
    return out


def server():
    import daisy.server as sm
    import daisy.block_bookkeeper as bm

    class SrvView(sm.Server):
        all_done = property(lambda s: SymBool(SE.all_done.at()))

        def dv_setattr(s, k, v):
            if k != "all_done":
                raise Unsupported(f"field {k} of Server")
            z = sym.zb(v) if not isinstance(v, bool) else z3.BoolVal(v)
            SE.all_done.put(lambda: z)

    s = object.__new__(SrvView)
    if "time" in bm.__dict__:
        bm.__dict__["time"] = Clock
    bk = bm.BlockBookkeeper()
    if {k for k in bk.__dict__ if not k.startswith("_dv_")} != {"sent_blocks", "processing_timeout"} or \
            bk.processing_timeout is not None:
        raise Unsupported("fields of BlockBookkeeper")
    bk.__dict__["sent_blocks"] = SentDict()
    s.__dict__.update(observers=[Observer()], stop_event=StopEvent(), tcp_server=Tcp(), hostname="host", port=7,
                      scheduler=Sched(), worker_pools=Pools(), block_bookkeeper=bk, started_tasks=SE.started,
                      finished_tasks=SE.finished, pending_requests=TaskDict(PendQ, lambda t: IsTask(t)))
    s.__dict__["_dv_stamp"] = 0
    return s, sm


class Tcp:
    address = ("host", 7)

    def __init__(self, *a, **k):
        pass

    def get_message(self, timeout=None):
        from daisy.tcp.exceptions import StreamClosedError

        k = E.choose(3, "message")
        if k == 0:
            return None
        if k == 1:
            T.note("connection error")
            raise StreamClosedError("host", 7)
        m = Delayed(None)
        T.note("received", m)
        return m

    def disconnect(self):
        T.note("disconnected")


def enable(prop):
    fol.enable(lambda: NSet("set", lambda x: FALSE, TaskS, SymTask))
    E.mkdict_rule = mkdict_rule
    E.standard = lambda nodes, tasks: []
    E.timeout_ms = 20000
    E.feas_ms = 150
    E.templates = [templates]
    E.own_templates = False
    E.one_by_one = True
    SE.prop = prop
    SE.callbacks_raise = SE.health_raises = SE.retried = False
    SymNode.attrs = dict(block_id=lambda n: SymBid(n.t), task_id=lambda n: SymTask(Tk(n.t)))


def setup():
    T.clear()
    SE.make()
    for tags, nm, f in clauses(lambda l: l.val):
        E.assume(f)
    E.assume(forall([TaskS], lambda t: SE.qlen.at(t) >= 0))
    return Snap()


def prove_inv():
    for tags, nm, f in clauses(lambda l: l.val):
        need(tags, nm, f)


def same(pre, l):
    return forall(l.sorts, lambda *a: l.at(*a) == pre[l](*a))


@contextlib.contextmanager
def callees(s, *names):
    """replaces methods of the server by their contracts (proved by other units)"""
    cls = type(s)
    old = {}
    for n in names:
        if not hasattr(cls, n):
            raise Unsupported(f"Server has no method {n}")
        old[n] = cls.__dict__.get(n)
        setattr(cls, n, CONTRACTS[n])
    try:
        yield
    finally:
        for n, f in old.items():
            if f is None:
                delattr(cls, n)
            else:
                setattr(cls, n, f)


def c_completed(self):
    """contract of _check_all_tasks_completed"""
    T.note("checked")
    s0 = SE.stop.at()
    for l in (SE.finished, SE.ndone, SE.all_done):
        l.put(l.fresh_val())
    a = all_done()
    SE.stop.put(lambda: O(s0, a))
    E.assume(forall([TaskS], lambda t: SE.ndone.at(t) == z3.If(SE.finished.at(t), z3.IntVal(1), z3.IntVal(0))))


def c_recruit(self):
    """contract of _recruit_workers"""
    T.note("recruit")
    for l in (SE.started, SE.nstart, SE.ninit, SE.recruited):
        l.put(l.fresh_val())
    E.assume(forall([TaskS], lambda t: SE.nstart.at(t) == z3.If(SE.started.at(t), z3.IntVal(1), z3.IntVal(0))))


CONTRACTS = dict(_check_all_tasks_completed=c_completed, _recruit_workers=c_recruit)
SUB = ("_check_all_tasks_completed", "_recruit_workers")


# -------------------------------------------------------------------- bookkeeper
def book(prop):
    """BlockBookkeeper on its own, with and without a processing timeout"""
    enable(prop)
    import daisy.block_bookkeeper as bm

    nm = f"{prop}/BlockBookkeeper"

    def path():
        setup()
        SE.where = "BlockBookkeeper"
        timeout = E.choose(2, "timeout")
        lim = z3.Const("limit", Int)
        bk = bm.BlockBookkeeper(SymInt(lim)) if timeout else bm.BlockBookkeeper()
        bk.__dict__["sent_blocks"] = SentDict()
        x, s = z3.Const("x", Node), z3.Const("s", Int)
        blk, st = SymNode(x), SymStream(s)
        pre = Snap()
        with patched(bm, time=Clock):
            k = E.choose(4, "operation")
            if k == 0:
                with no_raise(f"{nm}.is_valid_return: never raises"):
                    r = bk.is_valid_return(blk, st)
                E.prove(f"{nm}.is_valid_return: exactly for outstanding blocks of this stream", sym.zb(r) == A(
                    SE.sent.at(x), SE.strm.at(x) == s))
                E.prove(f"{nm}.is_valid_return: changes nothing", A(same(pre, SE.sent), same(pre, SE.strm)))
                E.cover("asked")
            elif k == 1:
                E.assume(N(SE.sent.at(x)))
                with no_raise(f"{nm}.notify_block_sent: accepts blocks that are not outstanding"):
                    bk.notify_block_sent(blk, st)
                E.prove(f"{nm}.notify_block_sent: records the block and its stream, and nothing else", A(
                    forall([Node], lambda y: SE.sent.at(y) == O(pre[SE.sent](y), y == x)),
                    forall([Node], lambda y: SE.strm.at(y) == z3.If(y == x, s, pre[SE.strm](y)))))
                E.cover("sent")
            elif k == 2:
                E.assume(A(SE.sent.at(x), SE.strm.at(x) == s))
                with no_raise(f"{nm}.notify_block_returned: accepts outstanding blocks"):
                    bk.notify_block_returned(blk, st)
                E.prove(f"{nm}.notify_block_returned: forgets the block, and nothing else", A(forall(
                    [Node], lambda y: SE.sent.at(y) == A(pre[SE.sent](y), y != x)), forall([Node], lambda y: I(
                        SE.sent.at(y), SE.strm.at(y) == pre[SE.strm](y)))))
                E.cover("returned")
            else:
                with no_raise(f"{nm}.get_lost_blocks: never raises"):
                    r = bk.get_lost_blocks()
                lost = lambda y: A(pre[SE.sent](y), O(Closed(pre[SE.strm](y)), A(z3.BoolVal(timeout == 1), z3.Const(
                    "now", Int) - pre[SE.time](y) > lim)))
                p = fol.membership(r, Node)
                E.prove(f"{nm}.get_lost_blocks: returns exactly the outstanding blocks whose stream is closed (or that "
                        "timed out)", forall([Node], lambda y: p(y) == lost(y)))
                E.prove(f"{nm}.get_lost_blocks: lost blocks are no longer outstanding, the others are", A(forall(
                    [Node], lambda y: SE.sent.at(y) == A(pre[SE.sent](y), N(lost(y)))), forall([Node], lambda y: I(
                        SE.sent.at(y), SE.strm.at(y) == pre[SE.strm](y)))))
                unique(f"{nm}.get_lost_blocks: no block is returned twice", r)
                E.cover("lost")

    E.explore(path)


def unique(name, r):
    """no element occurs twice in a result"""
    cs = cases_of(r)
    for i, c in enumerate(cs):
        for j, d in enumerate(cs):
            if j < i:
                continue
            with E.scope():
                t1, e1, v1 = c.fresh(lambda nm, s: E.fresh(nm, s))
                t2, e2, v2 = d.fresh(lambda nm, s: E.fresh(nm, s))
                E.assume_all(e1)
                E.assume_all(e2)
                if i == j:
                    E.prove(name, I(v1.t == v2.t, A(*[a == b for a, b in zip(t1, t2)])))
                else:
                    E.prove(name, v1.t != v2.t)


# ---------------------------------------------------------------------- handlers
def handlers(prop):
    enable(prop)
    from daisy.messages import (AcquireBlock, ReleaseBlock, BlockFailed, ClientException, Message, SendBlock,
                                RequestShutdown, UnexpectedMessage)
    from daisy.block import BlockStatus as BS

    def path():
        pre = setup()
        s, sm = server()
        SE.where = "_handle_client_message"
        if not hasattr(sm.Server, "_handle_client_message"):
            raise Unsupported("Server has no method _handle_client_message")
        t, x, w = z3.Const("t", TaskS), z3.Const("x", Node), z3.Const("s", Int)
        E.assume(IsTask(t))
        k = E.choose(5, "message")
        blk = SymNode(x)
        err = None
        exc = UserError("user")
        ctx = dict(worker_id="3", task_id=SymTask(Tk(x)))
        if k == 0:
            m = AcquireBlock(SymTask(t))
        elif k == 1:
            m = ReleaseBlock(blk)
            blk.__dict__["status"] = (BS.SUCCESS, BS.FAILED)[E.choose(2, "status")]
        elif k == 2:
            m = BlockFailed(exc, blk, ctx)
            blk.__dict__["status"] = BS.FAILED
        elif k == 3:
            m = ClientException(exc, ctx)
        else:
            m = Message()
        m.__dict__["stream"] = SymStream(w)
        m.__dict__["_dv_stamp"] = 0
        kind = ("AcquireBlock", "ReleaseBlock", "BlockFailed", "ClientException", "unknown message")[k]
        SE.where = f"_handle_client_message ({kind})"
        with callees(s, *SUB):
            try:
                s._handle_client_message(m)
            except Control:
                raise
            except Exception as e:
                check_engine_error(e)
                err = e
        if k < 3:
            ok = err is None
            need("13 14", "never raises", ok) if ok else E.fail(f"{prop}/{SE.where}: never raises", f"{err!r}")
            if not ok:
                return
        sends, kept, acq = T.of("send"), T.of("kept"), T.of("acquired")
        rel = T.of("released")
        if k == 0:
            need("14", "the scheduler is asked once, for the requested task", len(acq) == 1 and SymBool(acq[0][1] == t))
            if len(acq) != 1:
                return
            b = acq[0][2]
            sb = [e for e in sends if isinstance(e[2], SendBlock)]
            sh = [e for e in sends if isinstance(e[2], RequestShutdown)]
            need("14", "a request is answered or kept, exactly once", len(sends) + len(kept) == 1)
            need("14", "answers go to the worker that asked", A(TRUE, *[e[1] == w for e in sends]))
            if b is not None:
                need("14", "an acquired block is sent", len(sb) == 1 and isinstance(sb[0][2].block, SymNode))
                if len(sb) == 1 and isinstance(sb[0][2].block, SymNode):
                    need("14", "the block that is sent is the acquired one", sb[0][2].block.t == b)
                need("13", "the receiver of a block is recorded", A(SE.sent.at(b), SE.strm.at(b) == w))
                need("13", "other blocks stay as they were recorded", forall([Node], lambda y: I(y != b, A(SE.sent.at(
                    y) == pre[SE.sent](y), I(SE.sent.at(y), SE.strm.at(y) == pre[SE.strm](y))))))
                E.cover("block sent")
            else:
                need("14", "no block is sent without acquiring it", not sb)
                if sh:
                    need("14", "workers are shut down only if no block of the task is ready or pending", A(
                        St.c["ready_count"].at(t) == 0, pend(t) == 0))
                    E.cover("shutdown")
                else:
                    need("14", "delayed requests are kept for their task", len(kept) == 1 and kept[0][
                        2] is m and SymBool(kept[0][1] == t))
                    need("14", "requests are delayed only while blocks are pending", pend(t) > 0)
                    E.cover("delayed")
                need("13", "recorded blocks stay recorded", A(same(pre, SE.sent), same(pre, SE.strm)))
            need("13 14", "nothing is returned to the scheduler", not rel)
        elif k in (1, 2):
            valid = A(pre[SE.sent](x), pre[SE.strm](x) == w)
            st = BS.FAILED if k == 2 else blk.__dict__["status"]
            need("13 14", "returned to the scheduler exactly once if outstanding for this worker, else not at all",
                 forall([Node], lambda y: SE.rel.at(y) == pre[SE.rel](y) + z3.If(A(y == x, valid), 1, 0)))
            need("13 14", "returned with its status", all(e[2] is st for e in rel))
            need("13", "no longer outstanding, the others are not touched", A(forall([Node], lambda y: SE.sent.at(
                y) == A(pre[SE.sent](y), N(A(y == x, valid)))), forall([Node], lambda y: I(SE.sent.at(y), SE.strm.at(
                    y) == pre[SE.strm](y)))))
            need("13", "returns that are not valid change nothing", I(N(valid), A(*[same(pre, l) for l in (
                SE.proc, *St.c.values())])))
            need("13 14", "nothing is sent", not sends and not kept and not acq)
            if k == 2:
                f = T.of("on_failure")
                need("14", "failures are announced once", len(f) == 1 and f[0][1] is blk and f[0][2] is exc and f[0][3] is ctx)
            with E.scope():
                E.assume(valid)
                E.cover("valid return")
            with E.scope():
                E.assume(N(valid))
                E.cover("invalid return")
        else:
            need("14", "unknown messages are rejected" if k == 4 else "exceptions of clients are raised", isinstance(
                err, UnexpectedMessage) if k == 4 else err is exc)
            need("13 14", "nothing changes", A(same(pre, SE.rel), same(pre, SE.proc), same(pre, SE.sent), same(pre, SE.qlen)))
            E.cover(kind)
            return
        prove_inv()
        need("15", "stops only if all tasks are done", I(A(N(pre[SE.stop]()), SE.stop.at()), all_done()))

    E.explore(path)


# ------------------------------------------------------------------- lost blocks
def lost(prop):
    enable(prop)

    def path():
        pre = setup()
        s, sm = server()
        SE.where = "_check_for_lost_blocks"
        if not hasattr(sm.Server, "_check_for_lost_blocks"):
            raise Unsupported("Server has no method _check_for_lost_blocks")
        with callees(s, *SUB):
            with no_raise(f"{prop}/{SE.where}: never raises"):
                s._check_for_lost_blocks()
        gone = lambda y: A(pre[SE.sent](y), Closed(pre[SE.strm](y)))
        need("13", "blocks whose worker is gone are returned to the scheduler exactly once, and no others", forall(
            [Node], lambda y: SE.rel.at(y) == pre[SE.rel](y) + z3.If(gone(y), 1, 0)))
        need("13", "lost blocks are returned as failed", forall([Node], lambda y: I(gone(y), SE.relst.at(y) == 2)))
        need("13", "blocks of living workers stay recorded", forall([Node], lambda y: A(SE.sent.at(y) == A(pre[SE.sent](
            y), N(gone(y))), I(SE.sent.at(y), SE.strm.at(y) == pre[SE.strm](y)))))
        prove_inv()
        need("15", "stops only if all tasks are done", I(A(N(pre[SE.stop]()), SE.stop.at()), all_done()))
        E.cover("checked")

    E.explore(path)


# --------------------------------------------------------------------- completed
def completed(prop):
    enable(prop)

    def path():
        pre = setup()
        s, sm = server()
        SE.where = "_check_all_tasks_completed"
        if not hasattr(sm.Server, SE.where):
            raise Unsupported(f"Server has no method {SE.where}")
        with no_raise(f"{prop}/{SE.where}: never raises"):
            s._check_all_tasks_completed()
        need("15", "stops exactly if all tasks are done", SE.stop.at() == O(pre[SE.stop](), all_done()))
        need("15", "finished tasks stay finished", forall([TaskS], lambda t: I(pre[SE.finished](t), SE.finished.at(t))))
        need("15", "when the server stops, every task has been announced as done", I(all_done(), forall(
            [TaskS], lambda t: I(IsTask(t), SE.finished.at(t)))))
        need("15", "nothing else changes", A(*[same(pre, l) for l in (
            SE.proc, SE.sent, SE.rel, SE.started, SE.nstart, SE.qlen, *St.c.values())]))
        prove_inv()
        E.cover("checked")
        with E.scope():
            E.assume(A(SE.stop.at(), N(pre[SE.stop]())))
            E.cover("stops")

    E.explore(path)


def recruit(prop):
    enable(prop)

    def path():
        pre = setup()
        s, sm = server()
        SE.where = "_recruit_workers"
        if not hasattr(sm.Server, SE.where):
            raise Unsupported(f"Server has no method {SE.where}")
        with no_raise(f"{prop}/{SE.where}: never raises"):
            s._recruit_workers()
        rd = lambda t: A(IsTask(t), pre[St.c["ready_count"]](t) > 0)
        need("14 15", "workers are recruited for every task with available blocks", forall([TaskS], lambda t: I(rd(
            t), SE.recruited.at(t))))
        need("15", "every task with available blocks is announced as started", forall([TaskS], lambda t: I(rd(
            t), SE.started.at(t))))
        need("15", "started tasks stay started", forall([TaskS], lambda t: I(pre[SE.started](t), SE.started.at(t))))
        need("15", "the init callback is called once for every task that is started", forall([TaskS], lambda t: SE.ninit.at(
            t) == pre[SE.ninit](t) + SE.nstart.at(t) - pre[SE.nstart](t)))
        need("14 15", "nothing else changes", A(*[same(pre, l) for l in (
            SE.proc, SE.sent, SE.rel, SE.finished, SE.ndone, SE.stop, SE.qlen, *St.c.values())]))
        prove_inv()
        E.cover("recruited")

    E.explore(path)


def get_msg(prop):
    """_get_client_message: nothing is dropped, and requests that can be answered are not kept waiting"""
    enable(prop)

    def path():
        pre = setup()
        s, sm = server()
        SE.where = "_get_client_message"
        if not hasattr(sm.Server, SE.where):
            raise Unsupported(f"Server has no method {SE.where}")
        with no_raise(f"{prop}/{SE.where}: never raises"):
            r = s._get_client_message()
        got, taken = T.of("received"), T.of("taken")
        q0 = pre[SE.qlen]
        answerable = lambda t: A(IsTask(t), q0(t) > 0, O(pre[St.c["ready_count"]](t) > 0, pend(t) == 0))
        need("14", "at most one message is taken", len(got) + len(taken) <= 1)
        need("14", "no request is put back", not T.of("kept"))
        if got:
            need("14", "a received message is returned", r is got[0][1] and not taken)
            need("14", "delayed requests are kept", same(pre, SE.qlen))
            E.cover("received")
        elif taken:
            t = taken[0][1]
            need("14", "a request taken from the queue is returned", r is taken[0][2])
            need("14", "the other requests are kept", forall([TaskS], lambda u: SE.qlen.at(u) == q0(u) - z3.If(u == t, 1, 0)))
            need("14", "requests that can be answered are preferred", I(exists([TaskS], answerable), answerable(t)))
            E.cover("delayed request")
        else:
            need("14", "nothing is returned without a message", r is None)
            need("14", "delayed requests are kept", same(pre, SE.qlen))
            if not T.of("connection error"):
                need("14", "requests that can be answered do not wait", N(exists([TaskS], answerable)))
            E.cover("no message")
        need("14", "nothing else changes", A(*[same(pre, l) for l in (SE.proc, SE.sent, SE.rel, SE.stop)]))

    E.explore(path)


# -------------------------------------------------------------------- event loop
def loop(prop):
    """_event_loop: goes on exactly until the stop event is set; every iteration handles messages, lost blocks and the
    health of the workers; at the latest when a second has passed, it checks whether all tasks are done. Iterations start
    in the same state except for the clock, so three iterations at increasing times stand for all."""
    enable(prop)
    E.fol_while = None

    def path():
        T.clear()
        s, sm = plain_server()
        if not hasattr(sm.Server, "_event_loop"):
            raise Unsupported("Server has no method _event_loop")
        SE.where = "_event_loop"
        now = [0.0]
        step = (0.0, 0.4, 1000.0)[E.choose(3, "speed")]
        st = dict(it=0, stop=E.choose(2, "stopped before") == 1, ext=E.choose(4, "stop request"))
        ends = 4

        class Ev:
            def is_set(self):
                if st["stop"] or st["ext"] == st["it"] + 1 or st["it"] >= ends:
                    T.note("seen stop")
                    return True
                st["it"] += 1
                T.note("iteration")
                now[0] += step
                return False

            def set(self):
                st["stop"] = True

        s.__dict__["stop_event"] = Ev()

        def note(n):
            return lambda *a, **k: T.note(n)

        cls = type(s)
        err = None
        boom = UserError()
        k = E.choose(3, "exception")

        def work(n, raises):
            def f(*a):
                T.note(n)
                if raises:
                    raise boom

            return f

        for n in ("_handle_client_messages", "_check_for_lost_blocks", "_check_all_tasks_completed"):
            if not hasattr(sm.Server, n):
                raise Unsupported(f"Server has no method {n}")
        cls._handle_client_messages = work("messages", k == 1)
        cls._check_for_lost_blocks = work("lost", False)
        cls._check_all_tasks_completed = work("checked", False)
        s.worker_pools.check_worker_health = work("health", k == 2)
        if "time" not in sm.__dict__:
            raise Unsupported("clock")
        clock = lambda: now[0]
        if isinstance(sm.__dict__["time"], types.ModuleType) or not callable(sm.__dict__["time"]):
            clock = types.SimpleNamespace(time=lambda: now[0], sleep=lambda t: None, monotonic=lambda: now[0])
        with patched(sm, time=clock):
            try:
                s._event_loop()
            except Control:
                raise
            except Exception as e:
                check_engine_error(e)
                err = e
        its = len(T.of("iteration"))
        if err is not None:
            need("15", "raises only what messages or workers raise", err is boom)
            E.cover("raises")
            return
        need("15", "ends only when the stop event is set", bool(T.of("seen stop")))
        need("14 15", "every iteration handles messages", len(T.of("messages")) >= its)
        if step == 1000.0:
            need("13 15", "lost blocks and dead workers are looked for regularly", all(len(T.of(n)) >= its for n in (
                "lost", "health")))
            need("15", "completion is checked at the latest when a second has passed", len(T.of("checked")) >= its)
        if its:
            E.cover("iterations")
        E.cover("ends")

    E.explore(path)


def plain_server():
    import daisy.server as sm

    class SrvView(sm.Server):
        pass

    s = object.__new__(SrvView)
    s.__dict__.update(observers=[Observer()], tcp_server=Tcp(), hostname="host", port=7, worker_pools=types.SimpleNamespace())
    s.__dict__["_dv_stamp"] = 0
    return s, sm


# --------------------------------------------------------------------- run_blockwise
def run(prop):
    """run_blockwise: on every exit the workers are stopped and the connections closed; returns the states of the run"""
    enable(prop)
    import daisy.server as sm

    def path():
        T.clear()
        SE.where = "run_blockwise"
        states = object()

        class Sch:
            def __init__(self, tasks, *a, **k):
                T.note("scheduler", tasks)
                self.__dict__["task_states"] = states

        class View(sm.Server):
            def __init__(s):
                pass

            def _recruit_workers(s):
                T.note("recruit")
                fail("recruit")

            def _event_loop(s):
                T.note("loop")
                fail("loop")

        exc = [None]

        def fail(w):
            k = E.choose(3, w)
            if k:
                exc[0] = (UserError(), KeyboardInterrupt())[k - 1]
                raise exc[0]

        for n in ("_recruit_workers", "_event_loop"):
            if not hasattr(sm.Server, n):
                raise Unsupported(f"Server has no method {n}")

        class Book:
            pass

        s = object.__new__(View)
        s.__dict__.update(observers=[Observer()], stop_event=None, tcp_server=Tcp(), hostname="host", port=7, _dv_stamp=0)
        a, b = Named("a"), Named("b")
        tasks = DList([a, b])
        given = E.choose(2, "scheduler given")
        err = r = None
        with patched(sm, Scheduler=Sch, TaskWorkerPools=Pools):
            try:
                r = s.run_blockwise(tasks, Sch(tasks)) if given else s.run_blockwise(tasks)
            except Control:
                raise
            except BaseException as e:
                check_engine_error(e)
                err = e
        need("15", "exceptions are passed on, and nothing else raises", err is exc[0])
        need("15", "workers are stopped on every exit", len(T.of("workers stopped")) >= 1)
        need("15", "connections are closed on every exit", len(T.of("disconnected")) >= 1)
        need("15", "observers are told on every exit", len(T.of("on_exit")) == 1)
        names = [e[0] for e in T.ev]
        need("15", "workers are stopped after everything else", not ({"recruit", "loop"} & set(names[names.index(
            "workers stopped"):])) if "workers stopped" in names else False)
        need("15", "one scheduler, one set of pools", len(T.of("scheduler")) == 1 and T.of("scheduler")[0][
            1] is tasks and len(T.of("pools")) == 1)
        if err is None:
            need("15", "the states of the scheduler are returned", r is states)
            need("15", "the event loop runs once", len(T.of("loop")) == 1 and len(T.of("recruit")) >= 1)
            E.cover("returns")
        else:
            E.cover("raises")
        need("14", "every task has its own queue for delayed requests, initially empty", queues_ok(s, (a, b)))
        need("13", "the bookkeeper starts without outstanding blocks", book_ok(s))
        need("15", "no task is announced initially", all(not nonempty(s.__dict__.get(k)) for k in (
            "started_tasks", "finished_tasks")))

    E.explore(path)


class Named:
    def __init__(self, n):
        self.__dict__.update(task_id=n, init_callback_fn=None)


def queues_ok(s, tasks):
    d = s.__dict__.get("pending_requests")
    try:
        qs = [d[t.task_id] for t in tasks]
        return all(q.empty() for q in qs) and qs[0] is not qs[1]
    except (KeyError, TypeError):
        return False


def book_ok(s):
    b = s.__dict__.get("block_bookkeeper")
    if not hasattr(b, "sent_blocks"):
        raise Unsupported("fields of BlockBookkeeper")
    return not nonempty(b.sent_blocks)


def nonempty(x):
    if isinstance(x, NSet):
        return not z3.is_false(z3.simplify(x.val(z3.Const("any", x.sorts[0]))))
    if isinstance(x, KeyMap):
        return not z3.is_false(z3.simplify(x.val(z3.Const("any", x.sorts[0]))))
    if x is None:
        raise Unsupported("field of Server")
    return len(x) > 0


# ------------------------------------------------------------------- convenience
def truth(prop):
    """_run_blockwise: true exactly if every block of every task completed"""
    enable(prop)
    cm = convenience()

    def path():
        setup()
        SE.where = "_run_blockwise"
        if "_run_blockwise" not in cm.__dict__:
            raise Unsupported("no function _run_blockwise")

        class Srv:
            def __init__(self, stop_event=None, host=None):
                T.note("server", stop_event)

            def run_blockwise(self, tasks, scheduler=None):
                T.note("run", tasks)
                return TaskDict(lambda t: St.TSView(t), lambda t: IsTask(t))

            def register_observer(self, o):
                pass

        ev, tasks = object(), DList([])
        with patched(cm, Server=Srv, CLMonitor=lambda s: None):
            with no_raise(f"{prop}/{SE.where}: never raises"):
                r = cm._run_blockwise(tasks, ev)
        c = lambda k, t: St.c[k].at(t)
        need("15", "runs the given tasks once with the given stop event", [e[0] for e in T.ev] == ["server", "run"] and T.ev[
            0][1] is ev and T.ev[1][1] is tasks)
        need("15", "success exactly if every block of every task completed", sym.zb(r) == forall([TaskS], lambda t: I(
            IsTask(t), c("completed_count", t) == c("total_block_count", t))))
        E.cover("reported")

    E.explore(path)


def convenience():
    import sys, daisy

    m = types.ModuleType("daisy.cl_monitor")
    m.CLMonitor = lambda s: None  # the progress bar
    sys.modules["daisy.cl_monitor"] = m
    import daisy.convenience as cm

    return cm


Given, Req = layer_c.Given, layer_c.Req


def collect(prop):
    """run_blockwise: runs the given tasks and everything they require; an interrupt stops the run and waits for it"""
    enable(prop)
    cm = convenience()
    E.empty_bag = lambda n: fol.NBag(n, None, TaskS, TaskView)
    E.own_templates = False

    def tm(lp, v0, sets, svars):
        out = []
        vs = [n for n in lp.hv_vars if callable(v0.get(n))] + [l for l in lp.hv_locs if isinstance(
            l, NSet) and l.sorts == (TaskS,) and not any(l is x for x in E.locs)]
        for a in vs:
            for b in vs:
                if a is b:
                    continue
                out.append((f"{a} = {b}", lambda v, a=a, b=b: forall([TaskS], lambda t: v[a](t) == v[b](t))))
                out.append((f"required by {a}: in {a} or {b}", lambda v, a=a, b=b: forall([TaskS, TaskS], lambda t, u: I(A(v[
                    a](t), Req(t, u)), O(v[a](u), v[b](u))))))
                out.append((f"given: in {a} or {b}", lambda v, a=a, b=b: forall([TaskS], lambda t: I(Given(t), O(v[a](t), v[
                    b](t))))))
            out.append((f"{a}: tasks of the run", lambda v, a=a: forall([TaskS], lambda t: I(v[a](t), IsTask(t)))))
        return out

    E.templates = [tm]

    def path():
        setup()
        SE.where = "convenience.run_blockwise"
        E.assume(forall([TaskS], lambda t: I(Given(t), IsTask(t))))
        E.assume(forall([TaskS, TaskS], lambda t, u: I(A(IsTask(t), Req(t, u)), IsTask(u))))
        g = E.const("given", TaskS)
        tasks = DList()
        tasks.segs = [("coll", Coll([Case([g], [Given(g)], TaskView(g))], unique=True))]
        multi = E.choose(2, "multiprocessing") == 0
        token, ev = object(), {}

        class Ev:
            def set(self):
                T.note("stop")

        class Res:
            def __init__(s, f, args):
                s.__dict__.update(f=f, args=args)

            def get(s, *a):
                if not T.of("interrupt") and E.choose(2, "interrupt"):
                    T.note("interrupt")
                    raise KeyboardInterrupt()
                return s.f(*s.args)

        class Pool:
            def __init__(s, *a, **k):
                pass

            def __enter__(s):
                return s

            def __exit__(s, *a):
                T.note("left")

            def apply_async(s, f, args=(), kwds=None):
                return Res(f, tuple(args))

        class Loo:
            @staticmethod
            def clear():
                T.note("cleared")

        def real(ts, stop):
            T.note("run", ts, stop)
            return token

        class Ser:
            def __init__(s):
                pass

            def run_blockwise(s, ts, scheduler=None):
                T.note("run", ts, None)
                return token

        kw = dict(_run_blockwise=real, ThreadPool=Pool, Event=Ev, IOLooper=Loo, SerialServer=Ser, CLMonitor=lambda s: None)
        with patched(cm, **kw):
            with no_raise(f"{prop}/{SE.where}: never raises"):
                r = cm.run_blockwise(tasks, multi) if E.choose(2, "default") == 0 or not multi else cm.run_blockwise(tasks)
        runs = T.of("run")
        need("15 20", "the tasks are run once", len(runs) == 1)
        need("15 20", "the result of the run is returned", r is token)
        if len(runs) != 1:
            return
        need("15", "serial execution exactly if asked for", (runs[0][2] is None) == (not multi))
        if multi:
            need("15", "the stop event is set exactly on interrupts, and the run is waited for", len(T.of("stop")) == len(
                T.of("interrupt")) and [e[0] for e in T.ev].index("run") < [e[0] for e in T.ev].index("left") and isinstance(
                    runs[0][2], Ev))
        p = fol.membership(runs[0][1], TaskS)
        closed = forall([TaskS, TaskS], lambda t, u: I(A(p(t), Req(t, u)), p(u)))
        need("15 20", "all given tasks are run", forall([TaskS], lambda t: I(Given(t), p(t))))
        need("15 20", "all tasks required by the tasks are run", closed)
        need("15 20", "no other tasks are run", forall([TaskS], lambda t: I(p(t), IsTask(t))))
        E.cover("run")
        if T.of("interrupt"):
            E.cover("interrupted")

    E.explore(path)


# ----------------------------------------------------------------- serial execution
def serial(prop):
    enable(prop)
    import daisy.serial_server as ss

    SE.retried = True
    E.own_templates = False

    def tm(lp, v0, sets, svars):
        dn = lambda v: done_of(lambda k: v[St.c[k]])
        out = [("counts", lambda v: counts_ok(lambda l: v[l])),
               ("no block is outstanding", lambda v: forall([Node], lambda x: N(v[SE.proc](x)))),
               ("every call is followed by one release", lambda v: forall([Node], lambda x: v[SE.ncalls](x) == v[SE.rel](x)))]
        d0 = dn(v0)
        out.append(("done tasks stay done", lambda v: forall([TaskS], lambda t: I(d0(t), dn(v)(t)))))
        vs = [n for n in lp.hv_vars if callable(v0.get(n))] + [l for l in lp.hv_locs if l.sorts == (
            TaskS,) and l.rng == Bool and not any(l is x for x in E.locs)]
        rd = lambda v, t: v[St.c["ready_count"]](t) > 0
        for a in vs:
            out.append(("all done", lambda v, a=a: forall([TaskS], lambda t: I(v[a](t), dn(v)(t)))))
            out.append(("tasks", lambda v, a=a: forall([TaskS], lambda t: I(v[a](t), IsTask(t)))))
            out.append(("unfinished", lambda v, a=a: forall([TaskS], lambda t: I(A(IsTask(t), N(dn(v)(t))), v[a](t)))))
            for b in vs:
                if a is not b:
                    out.append(("complement", lambda v, a=a, b=b: forall([TaskS], lambda t: v[a](t) == A(IsTask(t), N(v[b](
                        t))))))
                    out.append(("disjoint", lambda v, a=a, b=b: forall([TaskS], lambda t: N(A(v[a](t), v[b](t))))))
        return out

    E.templates = [tm]

    def path():
        pre = setup_serial()
        SE.where = "SerialServer.run_blockwise"
        s = object.__new__(ss.SerialServer)
        s.__dict__.update(observers=[Observer()], _dv_stamp=0)
        g = E.const("given", TaskS)
        tasks = DList()
        tasks.segs = [("coll", Coll([Case([g], [IsTask(g)], SrvTask(g))], unique=True))]

        made = []

        class Sch(Sched):
            def __init__(self, ts, *a, **k):
                made.append(ts)

            task_states = property(lambda s: STATES)

            def release_block(self, blk):
                ev = [e for e in T.ev if e[0] in ("acquired", "processed", "released") and e[-1] is not None]
                ok = len(ev) >= 2 and ev[-1][0] == "processed" and ev[-2][0] == "acquired"
                need("20", "every acquired block is processed once and then released", ok)
                if ok:
                    b = blk.t
                    need("20", "the released block is the processed one", A(b == ev[-1][1], b == ev[-2][2]))
                    want = code(failed()) if ev[-1][2] == 1 else 1
                    need("20", "released as failed exactly if the process function said so in this attempt", code(
                        blk.__dict__.get("status")) == want)
                Sched.release_block(self, blk)

        def failed():
            from daisy.block import BlockStatus

            return BlockStatus.FAILED

        STATES = TaskDict(lambda t: St.TSView(t), lambda t: IsTask(t))
        with patched(ss, Scheduler=Sch):
            with no_raise(f"{prop}/{SE.where}: never raises"):
                r = s.run_blockwise(tasks)
        need("20", "the scheduler gets all tasks", len(made) == 1 and made[0] is tasks)
        need("20", "the run ends only when no block is ready", forall([TaskS], lambda t: I(IsTask(t), St.c["ready_count"].at(
            t) == 0)))
        need("20", "no block is left unreleased", forall([Node], lambda x: N(SE.proc.at(x))))
        need("20", "every call of a process function is followed by one release", forall([Node], lambda x: SE.ncalls.at(
            x) - pre[SE.ncalls](x) == SE.rel.at(x) - pre[SE.rel](x)))
        need("20", "the states of all tasks are returned", r is STATES)
        need("20", "observers are told about the end once", len(T.of("on_exit")) == 1)
        E.cover("ends")

    E.explore(path)


def setup_serial():
    T.clear()
    SE.make()
    E.assume(counts_ok())
    E.assume(forall([Node], lambda x: A(N(SE.proc.at(x)), SE.ncalls.at(x) == SE.rel.at(x))))
    return Snap()
