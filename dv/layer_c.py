"""Scheduler: contracts of __init__, acquire_block, release_block, get_ready_tasks and TaskState.

State: the fields of the task states and processing queues are locations indexed by task (and block); the real classes
are used, with the fields redirected to the locations. Ghost state: the status St(x) of every block, the number N_s(t) of
blocks of task t with status s, and how often a block was handed out. The scheduler invariant relates both.

Callees by contract: DependencyGraph (layer A), ReadySurface (layer B); acquire_block is verified against the contract
of release_block.
"""
import contextlib
from .harness import *
from . import fol, dset
from .fol import NSet, SymNode, Node, TaskS, forall, exists, FALSE, TRUE, SymTask, Loc
from .layer_b import Up, Reach, Rank, graph_facts, reach_induction, up, down

install()
I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
PENDING, READY, PROC, COMP, FAIL, ORPH = range(6)
STATUS = ("pending", "ready", "processing", "completed", "failed", "orphaned")
Tk = z3.Function("TaskOf", Node, TaskS)
Max = z3.Function("MaxRetries", TaskS, z3.IntSort())
HasCheck = z3.Function("HasCheck", TaskS, z3.BoolSort())
Total = z3.Function("NumBlocks", TaskS, z3.IntSort())
IsTask = z3.Function("IsTask", TaskS, z3.BoolSort())  # tasks of the run
Req = z3.Function("Requires", TaskS, TaskS, z3.BoolSort())
Given = z3.Function("Given", TaskS, z3.BoolSort())
Int, Bool = z3.IntSort(), z3.BoolSort()


class SymBid(Sym):
    """identity of a block"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return SymBid(z3.substitute(self.t, *m) if m else self.t)

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, SymBid) else False

    def __ne__(self, o):
        return sym.not_(self == o)

    def __getitem__(self, i):
        if i == 0:
            return SymTask(Tk(self.t))
        raise Unsupported("number of a block")

    __hash__ = Sym.__hash__


def tkey(t):
    if isinstance(t, TaskView):
        raise Unsupported("task used as a key")
    if not isinstance(t, SymTask):
        raise Unsupported(f"key {t!r} for a task id")
    return t.t


def bkey(b):
    if not isinstance(b, SymBid):
        raise Unsupported(f"key {b!r} for a block id")
    return b.t


# -------------------------------------------------------------------- views
class TaskView(Sym):
    """a task of the run"""

    def __init__(self, t):
        self.__dict__["tt"] = t

    t = property(lambda s: s.tt)

    def sub(self, m):
        return TaskView(z3.substitute(self.tt, *m) if m else self.tt)

    task_id = property(lambda s: SymTask(s.tt))
    max_retries = property(lambda s: SymInt(Max(s.tt)))

    @property
    def check_function(self):
        return CheckFn(self.tt) if bool(SymBool(HasCheck(self.tt))) else None

    def requires(self):
        u = E.const("rq", TaskS)
        return Coll([Case([u], [Req(self.tt, u)], TaskView(u))], unique=True)

    upstream_tasks = property(requires)

    def __eq__(self, o):
        return SymBool(self.tt == o.tt) if isinstance(o, TaskView) else False

    def __ne__(self, o):
        return sym.not_(self == o)

    __hash__ = Sym.__hash__


class CheckFn:
    def __init__(self, t):
        self.t = t

    def __call__(self, block):
        if not isinstance(block, SymNode):
            raise Unsupported("check of something else than a block")
        k = E.choose(3, "check")
        St.note("check", (block.t, self.t, k))
        if k == 2:
            raise CheckError()
        # true and false in the sense of Python: also values that are not booleans
        return Truthy() if k else None


class Truthy:
    """a true value that is not a bool (numpy.bool_, a non-empty list, ...)"""

    def __bool__(self):
        return True

    def __eq__(self, o):
        raise Unsupported("comparison of the result of a check function")

    __hash__ = None


class CheckError(Exception):
    pass


class State:
    """all locations"""

    def __init__(self):
        self.events = []

    def note(self, k, v):
        self.events.append((k, v))
        E.effect("local", None, None, lambda: self.events.remove((k, v)))

    def make(self, init=False):
        from daisy.task_state import TaskState
        from daisy.processing_queue import ProcessingQueue

        self.events = []
        ts = TaskState()
        self.fields = {k: v for k, v in ts.__dict__.items() if not k.startswith("_dv_")}
        known = {"started", "total_block_count", "ready_count", "processing_count", "completed_count", "skipped_count",
                 "failed_count", "orphaned_count"}
        if not known <= set(self.fields):
            raise Unsupported("fields of TaskState")
        self.c = {}
        for k, v in self.fields.items():
            if isinstance(v, bool):
                self.c[k] = Loc(k, [TaskS], Bool, (lambda t, v=v: z3.BoolVal(v)) if init else None)
            elif isinstance(v, int):
                self.c[k] = Loc(k, [TaskS], Int, (lambda t, v=v: z3.IntVal(v)) if init else None)
            else:
                raise Unsupported(f"field {k} of TaskState")
        q = ProcessingQueue()
        if {k for k in q.__dict__ if not k.startswith("_dv_")} != {"ready_queue", "processing_blocks", "block_retries",
                                                                "ready_roots", "root_generator"}:
            raise Unsupported("fields of ProcessingQueue")
        zero = (lambda *a: z3.IntVal(0)) if init else None
        no = (lambda *a: FALSE) if init else None
        self.qc = Loc("queued", [TaskS, Node], Int, zero)
        self.ql = Loc("queue length", [TaskS], Int, zero)
        self.pb = Loc("processing_blocks", [TaskS, Node], Bool, no)
        self.rt = Loc("retries", [TaskS, Node], Int, zero)
        self.rr = Loc("ready_roots", [TaskS], Int, zero)
        self.gen = Loc("roots left", [Node], Bool, no)  # blocks the root generators still yield
        self.gl = Loc("number of roots left", [TaskS], Int, zero)
        self.has_gen = Loc("root_generator", [TaskS], Bool, no)
        self.map = Loc("task_map", [TaskS], Bool, no)
        # the ready surface
        self.succ = Loc("surface: successful", [Node], Bool, no)
        self.bnd = Loc("surface: boundary", [Node], Bool, no)
        # ghost state
        self.st = Loc("status", [Node], Int)
        self.n = [Loc(f"number {s}", [TaskS], Int) for s in STATUS]
        self.skip = Loc("number skipped", [TaskS], Int)
        self.handed = Loc("handed out", [Node], Int)
        self.gr = Loc("retried", [Node], Int)
        E.locs = list(self.c.values()) + [self.qc, self.ql, self.pb, self.rt, self.rr, self.gen, self.gl, self.has_gen,
                                          self.map, self.succ, self.bnd, self.st, self.skip, self.handed,
                                          self.gr] + self.n
        E.counts = []
        E.task_of = lambda x: Tk(x)

        class TSView(TaskState):
            def __init__(s, t):
                s.__dict__["_dv_t"] = t

            def __str__(s):
                return "<task state>"

            def dv_setattr(s, k, v):
                if k not in self.c:
                    raise Unsupported(f"field {k} of TaskState")
                l = self.c[k]
                l.store([s._dv_t], sym.zb(v) if l.rng == Bool else zi(v))

            def dv_sub(s, m):
                return TSView(z3.substitute(s._dv_t, *m) if m else s._dv_t)

            def dv_shallow(s):
                """a copy: does not change with the state"""
                if E.gens:
                    raise Unsupported("copy of a task state in a loop")
                n = object.__new__(TaskState)
                n.__dict__.update({k: getattr(s, k) for k in self.c})
                E.stamp += 1
                n.__dict__["_dv_stamp"] = E.stamp
                return n

            dv_copy = dv_shallow

        for k, l in self.c.items():
            w = SymBool if l.rng == Bool else SymInt
            setattr(TSView, k, property(lambda s, l=l, w=w: w(z3.simplify(l.at(s._dv_t)))))

        class PQView(ProcessingQueue):
            def __init__(s, t):
                s.__dict__["_dv_t"] = t

            ready_queue = property(lambda s: Queue(s._dv_t))
            processing_blocks = property(lambda s: BidSet(s._dv_t))
            block_retries = property(lambda s: Retries(s._dv_t))
            ready_roots = property(lambda s: SymInt(St.rr.at(s._dv_t)))

            @property
            def root_generator(s):
                return RootGen(s._dv_t) if bool(SymBool(St.has_gen.at(s._dv_t))) else None

            def dv_setattr(s, k, v):
                if k == "ready_roots":
                    St.rr.store([s._dv_t], zi(v))
                else:
                    raise Unsupported(f"field {k} of ProcessingQueue is replaced")

            def dv_sub(s, m):
                return PQView(z3.substitute(s._dv_t, *m) if m else s._dv_t)

        self.TSView, self.PQView = TSView, PQView

    def __getitem__(self, l):
        return l.val


from .sym import zi

St = State()


class TaskDict(Sym):
    """dictionary from task ids to something; keys: predicate"""

    def __init__(self, view, keys):
        self.view, self.keys_ = view, keys

    def __getitem__(self, k):
        t = tkey(k)
        return self.view(t)

    def get(self, k, d=None):
        if bool(self.dv_contains(k)):
            return self.view(tkey(k))
        return d

    def __setitem__(self, k, v):
        raise Unsupported("entry of a dictionary is replaced")

    def dv_contains(self, k):
        return SymBool(self.keys_(tkey(k)))

    def _coll(self, f):
        t = E.const("task", TaskS)
        return Coll([Case([t], [self.keys_(t)], f(t))], unique=True)

    def items(self):
        return self._coll(lambda t: (SymTask(t), self.view(t)))

    def keys(self):
        return self._coll(SymTask)

    def values(self):
        return self._coll(self.view)

    def dv_segments(self):
        return [("coll", self.keys())]


class StatesDict(TaskDict):
    def __init__(self):
        super().__init__(lambda t: St.TSView(t), lambda t: IsTask(t))


class QueueDict(TaskDict):
    def __init__(self):
        super().__init__(lambda t: St.PQView(t), lambda t: IsTask(t))

    def __setitem__(self, k, v):
        from daisy.processing_queue import ProcessingQueue

        t = tkey(k)
        if type(v) is not ProcessingQueue:
            raise Unsupported("entry of task_queues")
        d = v.__dict__
        if not (isinstance(d["ready_queue"], (DList, NSet)) and not segments(d["ready_queue"])):
            raise Unsupported("new queue that is not empty")
        St.qc.put(fix2(St.qc.val, t, z3.IntVal(0)))
        St.ql.store([t], z3.IntVal(0))
        St.pb.put(fix2(St.pb.val, t, FALSE))
        St.rt.put(fix2(St.rt.val, t, z3.IntVal(0)))
        St.rr.store([t], zi(d["ready_roots"]))
        g = d["root_generator"]
        if g is None:
            St.has_gen.store([t], FALSE)
        elif isinstance(g, RootGen):
            if not bool(SymBool(g.t == t)):
                St.note("foreign generator", (t, g.t))
            St.has_gen.store([t], TRUE)
        else:
            raise Unsupported("root generator")


def fix2(old, t, v):
    return lambda a, x: z3.If(a == t, v, old(a, x))


class MapDict(TaskDict):
    def __init__(self):
        super().__init__(TaskView, lambda t: St.map.at(t))

    def __getitem__(self, k):
        if not bool(self.dv_contains(k)):
            raise KeyError(k)
        return TaskView(tkey(k))

    def __setitem__(self, k, v):
        t = tkey(k)
        if not isinstance(v, TaskView):
            raise Unsupported("entry of task_map")
        if not bool(SymBool(v.t == t)):
            St.note("wrong task in task_map", (t, v.t))
        St.map.store([t], TRUE)


class Queue(Sym):
    """the queue of ready blocks of task t (its order is not tracked)"""

    def __init__(self, t):
        self.q = t

    def size_fact(self):
        q = self.q
        E.assume(A(St.ql.at(q) >= 0, (St.ql.at(q) > 0) == exists([Node], lambda x: St.qc.at(q, x) > 0)))

    def append(self, b):
        if not isinstance(b, SymNode):
            raise Unsupported("element of a queue")
        St.qc.store([self.q, b.t], St.qc.at(self.q, b.t) + 1)
        St.ql.store([self.q], St.ql.at(self.q) + 1)

    appendleft = append

    def insert(self, i, b):
        self.append(b)

    def extend(self, bs):
        from .coll import forloop

        forloop(bs, lambda b: self.append(b), (), (), lambda: (), lambda: None, "extend")

    def pop(self, *a):
        if not bool(SymBool(St.ql.at(self.q) > 0)):
            raise IndexError("pop from an empty deque")
        x = E.fresh("blk", Node)
        E.assume(St.qc.at(self.q, x) > 0)
        St.qc.store([self.q, x], St.qc.at(self.q, x) - 1)
        St.ql.store([self.q], St.ql.at(self.q) - 1)
        self.size_fact()
        b = SymNode(x)
        return b

    popleft = pop

    def dv_len(self):
        return SymInt(St.ql.at(self.q))

    def __bool__(self):
        return bool(SymBool(St.ql.at(self.q) > 0))

    def dv_contains(self, b):
        return SymBool(St.qc.at(self.q, b.t) > 0)

    def sub(self, m):
        return Queue(z3.substitute(self.q, *m) if m else self.q)


class BidSet(Sym):
    def __init__(self, t):
        self.q = t

    def add(self, b):
        St.pb.store([self.q, bkey(b)], TRUE)

    def discard(self, b):
        St.pb.store([self.q, bkey(b)], FALSE)

    def remove(self, b):
        if not bool(self.dv_contains(b)):
            raise KeyError(b)
        self.discard(b)

    def dv_contains(self, b):
        return SymBool(St.pb.at(self.q, bkey(b)))

    def sub(self, m):
        return BidSet(z3.substitute(self.q, *m) if m else self.q)


class Retries(Sym):
    def __init__(self, t):
        self.q = t

    def __getitem__(self, b):
        return SymInt(St.rt.at(self.q, bkey(b)))

    def get(self, b, d=None):
        if isinstance(d, int) and d == 0:
            return self[b]
        raise Unsupported("default number of retries")

    def __setitem__(self, b, v):
        St.rt.store([self.q, bkey(b)], zi(v))

    def dv_contains(self, b):
        raise Unsupported("keys of block_retries")

    def pop(self, b, *d):
        v = self[b]
        self[b] = 0
        return v

    def sub(self, m):
        return Retries(z3.substitute(self.q, *m) if m else self.q)


class RootGen(Sym):
    """yields every root block of a task once"""

    def __init__(self, t):
        self.t = t

    def dv_next(self, *d):
        if not bool(SymBool(St.gl.at(self.t) > 0)):
            if d:
                return d[0]
            raise StopIteration
        x = E.fresh("root", Node)
        E.assume(A(St.gen.at(x), Tk(x) == self.t))
        St.gen.store([x], FALSE)
        St.gl.store([self.t], St.gl.at(self.t) - 1)
        gl_fact(self.t)
        return SymNode(x)

    def sub(self, m):
        return RootGen(z3.substitute(self.t, *m) if m else self.t)


def gl_fact(t):
    E.assume(A(St.gl.at(t) >= 0, (St.gl.at(t) > 0) == exists([Node], lambda x: A(St.gen.at(x), Tk(x) == t))))


class TMap(Loc):
    """a local dictionary with task ids as keys"""

    def __init__(self, val=None):
        super().__init__("dict", [TaskS], Bool, val or (lambda t: FALSE))

    def __setitem__(self, k, v):
        self.store([tkey(k)], TRUE)

    def __getitem__(self, k):
        if not bool(self.dv_contains(k)):
            raise KeyError(k)
        return rt.AnyOf()

    def dv_contains(self, k):
        return SymBool(self.at(tkey(k)))

    def setdefault(self, k, v=None):
        self[k] = v
        return rt.AnyOf()


def mkdict_rule(x):
    if isinstance(x, (tuple, list)) and not x:
        return TMap()
    if isinstance(x, dict) and not x:
        return TMap()
    if isinstance(x, tuple) and all(isinstance(k, SymTask) for k, _ in x):
        m = TMap()
        for k, v in x:
            m[k] = v
        return m
    return NotImplemented


# ------------------------------------------------------------- callee contracts
class Surface:
    """contract of ReadySurface"""

    def __init__(self, get_downstream_nodes, get_upstream_nodes):
        self.__dict__["fns"] = (get_downstream_nodes, get_upstream_nodes)

    def _pre(self, node, nm):
        if not isinstance(node, SymNode):
            raise Unsupported("argument of the ready surface")
        x = node.t
        ok = E.prove(f"{St.prop}/{nm} is only called for blocks whose upstream blocks succeeded and which are not decided", A(
            N(St.succ.at(x)), N(St.bnd.at(x)), forall([Node], lambda u: I(Up(x, u), St.succ.at(u)))))
        if not ok:
            raise Infeasible()
        return x

    def mark_success(self, node):
        x = self._pre(node, "mark_success")
        St.succ.store([x], TRUE)
        s = St.succ.val
        n = E.const("nb", Node)
        u = E.const("u", Node)
        r = A(Up(n, x), z3.ForAll([u], I(Up(n, u), s(u))))
        return result([n], r, NSet)

    def mark_failure(self, node, count_all_orphans=False):
        x = self._pre(node, "mark_failure")
        b0 = St.bnd.val
        n = E.const("orph", Node)
        r = A(Reach(x, n), N(b0(n)))
        St.bnd.put(lambda y: O(b0(y), y == x, Reach(x, y)))
        return result([n], r, NSet)


def result(bs, r, kind):
    n = bs[0]
    E.counter += 1
    cnt = z3.Function(f"size!{E.counter}", TaskS, Int)
    E.counts.append(((lambda y: z3.substitute(r, (n, y))), Node, lambda t: cnt(t)))
    E.assume(forall([TaskS], lambda t: A(cnt(t) >= 0, (cnt(t) > 0) == exists([Node], lambda y: A(
        z3.substitute(r, (n, y)), Tk(y) == t)))))
    St.last = (lambda y: z3.substitute(r, (n, y)), lambda t: cnt(t))
    return Coll([Case([n], [r], SymNode(n))], unique=True)


class Graph:
    """contract of DependencyGraph"""

    def __init__(self, tasks):
        pass

    def upstream(self, b):
        return up(b)

    def downstream(self, b):
        return down(b)

    def num_blocks(self, t):
        return SymInt(Total(tkey(t)))

    task_ids = property(lambda s: TaskDict(TaskView, lambda t: IsTask(t)).keys())

    def roots(self):
        # tasks that are not reported have no roots
        has = z3.Function("RootsReported", TaskS, Bool)
        E.assume(forall([TaskS], lambda t: I(has(t), IsTask(t))))
        E.assume(forall([TaskS], lambda t: I(N(has(t)), St.gl.at(t) == 0)))
        return TaskDict(lambda t: (SymInt(St.gl.at(t)), RootGen(t)), has)


def modules():
    """daisy.scheduler with its collaborators replaced by their contracts"""
    import daisy.dependency_graph as dg, daisy.ready_surface as rs

    dg.DependencyGraph, rs.ReadySurface = Graph, Surface
    import daisy.scheduler as sc

    return sc


# --------------------------------------------------------------------- invariant
def clauses(v):
    """(tags, name, formula); v: location -> value"""
    st, n, c = v(St.st), [v(x) for x in St.n], {k: v(l) for k, l in St.c.items()}
    qc, ql, pb, rt_, rr, gen, gl = v(St.qc), v(St.ql), v(St.pb), v(St.rt), v(St.rr), v(St.gen), v(St.gl)
    succ, bnd, hd, gr = v(St.succ), v(St.bnd), v(St.handed), v(St.gr)
    X = [Node]
    out = [
        ("", "every block has one status", forall(X, lambda x: A(st(x) >= 0, st(x) <= 5))),
        ("08 12", "no block gets ready, processed or decided before all its upstream blocks succeeded",
         forall([Node, Node], lambda x, u: I(A(Up(x, u), st(x) != PENDING, st(x) != ORPH), st(u) == COMP))),
        ("08 12", "a block is pending only as long as an upstream block did not succeed",
         forall(X, lambda x: I(st(x) == PENDING, exists(X, lambda u: A(Up(x, u), st(u) != COMP))))),
        ("11", "all blocks downstream of failed or orphaned blocks are orphaned",
         forall([Node, Node], lambda x, u: I(A(Up(x, u), O(st(u) == FAIL, st(u) == ORPH)), st(x) == ORPH))),
        ("11", "only blocks downstream of failed or orphaned blocks are orphaned",
         forall(X, lambda x: I(st(x) == ORPH, exists(X, lambda u: A(Up(x, u), O(st(u) == FAIL, st(u) == ORPH)))))),
        ("", "the ready surface knows the successful blocks", forall(X, lambda x: succ(x) == (st(x) == COMP))),
        ("", "the ready surface knows the failed and orphaned blocks",
         forall(X, lambda x: bnd(x) == O(st(x) == FAIL, st(x) == ORPH))),
        ("08 09 11 12 21", "exactly the ready blocks are queued, each once, in the queue of its task",
         forall([TaskS, Node], lambda t, x: qc(t, x) + z3.If(A(gen(x), Tk(x) == t), 1, 0) == z3.If(
             A(st(x) == READY, Tk(x) == t), 1, 0))),
        ("", "queues hold nothing a negative number of times", forall([TaskS, Node], lambda t, x: qc(t, x) >= 0)),
        ("", "lengths of the queues", forall([TaskS], lambda t: A(ql(t) >= 0, (ql(t) > 0) == exists(
            X, lambda x: qc(t, x) > 0)))),
        ("", "number of roots left", forall([TaskS], lambda t: A(gl(t) >= 0, (gl(t) > 0) == exists(X, lambda x: A(
            gen(x), Tk(x) == t))))),
        ("", "remaining roots are counted", forall([TaskS], lambda t: rr(t) == gl(t))),
        ("", "tasks with remaining roots have a generator", forall([TaskS], lambda t: I(gl(t) > 0, v(St.has_gen)(t)))),
        ("12 10", "ready_count is the number of available blocks", forall([TaskS], lambda t: c["ready_count"](t) == rr(
            t) + ql(t))),
        ("", "sizes of the queues", forall([TaskS], lambda t: rr(t) + ql(t) == n[READY](t))),
        ("09", "exactly the blocks that were handed out and not returned are processing_blocks",
         forall([TaskS, Node], lambda t, x: pb(t, x) == A(st(x) == PROC, Tk(x) == t))),
        ("09", "retries are counted", forall(X, lambda x: A(rt_(Tk(x), x) == gr(x), gr(x) >= 0, O(
            gr(x) <= Max(Tk(x)), gr(x) == 0)))),
        ("09", "hand-outs are bounded", forall(X, lambda x: A(
            I(O(st(x) == READY, st(x) == PENDING, st(x) == ORPH), hd(x) == gr(x)),
            I(O(st(x) == PROC, st(x) == FAIL), hd(x) == gr(x) + 1),
            I(st(x) == COMP, O(hd(x) == gr(x) + 1, hd(x) == gr(x))),
            I(O(st(x) == PENDING, st(x) == ORPH), gr(x) == 0)))),
        ("09", "blocks fail for good exactly after all retries", forall(X, lambda x: I(st(x) == FAIL, gr(x) >= Max(Tk(x))))),
        ("", "tasks are known", forall([TaskS], lambda t: v(St.map)(t) == IsTask(t))),
    ]
    for k, s in (("processing_count", PROC), ("completed_count", COMP), ("failed_count", FAIL), ("orphaned_count", ORPH)):
        extra = " 21" if s == COMP else " 11" if s == ORPH else ""
        out.append(("10" + extra, f"{k} is the number of {STATUS[s]} blocks", forall([TaskS], lambda t, k=k, s=s: c[k](
            t) == n[s](t))))
    out.append(("10 21", SKIPPED, forall([TaskS], lambda t: c["skipped_count"](
        t) == v(St.skip)(t))))
    out.append(("10", "all blocks are accounted for", forall([TaskS], lambda t: c["total_block_count"](t) == sum(
        (n[s](t) for s in range(1, 6)), n[0](t)))))
    out.append(("", "cardinalities", forall([TaskS], lambda t: A(*[A(n[s](t) >= 0, (n[s](t) > 0) == exists(
        X, lambda x, s=s: A(st(x) == s, Tk(x) == t))) for s in range(6)]))))
    return out


# length and members of the same container; both are only changed together (by Queue and RootGen)
SKIPPED = "skipped_count is the number of skipped blocks"
REP = ("lengths of the queues", "number of roots left")


def facts():
    graph_facts()
    E.assume(forall([Node], lambda x: IsTask(Tk(x))))


def assume_inv(skip=()):
    for _, nm, f in clauses(lambda l: l.val):
        if nm not in skip:
            E.assume(f)


def prove_inv(what, skip=()):
    """the invariant holds again; clauses that belong to other properties only support this one"""
    prop = St.prop
    cs = clauses(lambda l: l.val)
    for tags, nm, f in cs:
        if nm in REP:
            E.assume(f)
    for tags, nm, f in cs:
        if nm in skip or nm in REP:
            continue
        mine = prop[1:] in tags.split()
        with E.soften():
            if not mine:
                E.soft = True
            E.prove(f"{prop}/{what}: {nm}" + ("" if mine else " (support)"), f)


def move(pred, to, sizes=None, single=None):
    """ghost: the blocks that satisfy pred change their status. single: (block, its old status), otherwise all have the
    status PENDING before and sizes(t) is their number"""
    s0 = St.st.val
    St.st.put(lambda x: z3.If(pred(x), z3.IntVal(to), s0(x)))
    if single is not None:
        b, old = single
        t = Tk(b)
        St.n[old].store([t], St.n[old].at(t) - 1)
        St.n[to].store([t], St.n[to].at(t) + 1)
    else:
        for s, sg in ((PENDING, -1), (to, 1)):
            l = St.n[s]
            v0 = l.val
            l.put(lambda t, v0=v0, sg=sg: v0(t) + sg * sizes(t))


def card_facts():
    """cardinalities of the status sets after the ghost update (finite sets)"""
    for s in range(6):
        E.assume(forall([TaskS], lambda t: A(St.n[s].at(t) >= 0, (St.n[s].at(t) > 0) == exists(
            [Node], lambda x: A(St.st.at(x) == s, Tk(x) == t)))))


def scheduler():
    sc = modules()
    if getattr(St, "keys", None) is None:
        # which fields does a scheduler have?
        s = None

        def path():
            St.make(True)
            E.assume(forall([TaskS], lambda t: N(IsTask(t))))
            with contexts():
                x = sc.Scheduler(DList([]))
            return x

        with fol.muted():
            outs = E.explore(path)
        ks = None
        for o in outs:
            if o.kind != "ok":
                raise Unsupported(f"Scheduler([]) fails: {o.value!r}")
            ks = {k for k in o.value.__dict__ if not k.startswith("_dv_")}
        if ks != {"dependency_graph", "ready_surface", "task_map", "task_states", "task_queues", "count_all_orphans"}:
            raise Unsupported(f"fields of Scheduler: {ks}")
        St.keys = ks
    x = object.__new__(sc.Scheduler)
    g = Graph(None)
    x.__dict__.update(dependency_graph=g, ready_surface=Surface(g.downstream, g.upstream), task_map=MapDict(),
                      task_states=StatesDict(), task_queues=QueueDict(), count_all_orphans=SymBool(
                          E.fresh("count_all", Bool)))
    x.__dict__["_dv_stamp"] = 0
    return x, sc


@contextlib.contextmanager
def contexts():
    """empty dictionaries of the constructor"""
    old = E.mkdict_rule, E.ddict_rule
    from daisy.task_state import TaskState
    from daisy.processing_queue import ProcessingQueue

    made = {}

    def dd(factory):
        if factory is TaskState or factory is ProcessingQueue:
            if factory in made:
                raise Unsupported("several such dictionaries")
            made[factory] = 1
            return StatesDict() if factory is TaskState else QueueDict()
        return NotImplemented

    def md(x):
        if isinstance(x, (tuple, dict)) and not x:
            if "map" in made:
                raise Unsupported("several such dictionaries")
            made["map"] = 1
            return MapDict()
        return NotImplemented

    E.mkdict_rule, E.ddict_rule = md, dd
    try:
        yield
    finally:
        E.mkdict_rule, E.ddict_rule = old


def standard(nodes, tasks):
    """intended models: counts are cardinalities"""
    from .finite import count
    from . import layer_b

    out = layer_b.standard(nodes, tasks)
    for t in tasks:
        for P, srt, cnt in E.counts:
            if srt == Node:
                out.append(cnt(t) == count(lambda x: A(P(x), Tk(x) == t), nodes))
        if St.pre is not None:
            st = St.pre[St.st]
            for s in range(6):
                out.append(St.pre[St.n[s]](t) == count(lambda x: A(st(x) == s, Tk(x) == t), nodes))
            out.append(St.pre[St.ql](t) == z3.Sum(*[St.pre[St.qc](t, x) for x in nodes], z3.IntVal(0)))
            out.append(St.pre[St.gl](t) == count(lambda x: A(St.pre[St.gen](x), Tk(x) == t), nodes))
        out.append(Max(t) <= 3)
    return out


def enable(prop):
    E.standard = standard
    fol.enable(lambda: NSet("set", lambda x: FALSE))
    E.mkdict_rule = mkdict_rule
    E.timeout_ms = 20000
    St.prop = prop
    St.pre = None
    SymNode.attrs = dict(block_id=lambda n: SymBid(n.t), task_id=lambda n: SymTask(Tk(n.t)))
    E.templates = [loop_templates]
    E.own_templates = True
    E.one_by_one = True
    E.feas_ms = 150


def loop_templates(lp, v0, sets, svars):
    out = []
    if lp.case is None:
        for i, (tags, nm, f) in enumerate(clauses(lambda l: v0[l])):
            out.append((nm, lambda v, i=i: clauses(lambda l: v[l])[i][2]))
        st0, hd0, gr0 = v0[St.st], v0[St.handed], v0[St.gr]
        out.append(("decided and processing blocks keep their status", lambda v: forall([Node], lambda x: I(
            O(*[st0(x) == s for s in (PROC, COMP, FAIL, ORPH)]), v[St.st](x) == st0(x)))))
        out.append(("nothing is handed out", lambda v: forall([Node], lambda x: A(v[St.handed](x) == hd0(x), v[St.gr](
            x) == gr0(x)))))
    return out


# ------------------------------------------------------------------- release_block
def released(b, status, retries, sizes_new, what):
    """ghost transition of release_block"""


def setup():
    St.make()
    facts()
    t = z3.Const("t", TaskS)
    E.assume(IsTask(t))
    E.pc.append(BASE)
    E.pc.append(MARK)
    assume_inv()
    St.pre = {l: l.val for l in E.locs}
    return t


def release(prop):
    enable(prop)

    def path():
        s, sc = scheduler()
        setup()
        from daisy.block import BlockStatus

        b = z3.Const("b", Node)
        E.assume(St.st.at(b) == PROC)
        k = E.choose(2, "status")
        blk = SymNode(b)
        blk.__dict__["status"] = BlockStatus.SUCCESS if k == 0 else BlockStatus.FAILED
        St.last = None
        pre = {l: l.val for l in E.locs}
        nm = f"{prop}/release_block"
        with no_raise(f"{nm}: never raises for a block that is being processed"):
            s.release_block(blk)
        # what happened, from the point of view of the contract
        release_effect(b, k == 0, pre)
        card_facts()
        prove_inv("release_block (" + ("success" if k == 0 else "failure") + ")", skip=("cardinalities",))
        E.prove(f"{nm}: does not change skipped_count", forall([TaskS], lambda t: St.c["skipped_count"].at(t) == pre[
            St.c["skipped_count"]](t)))
        E.prove(f"{nm}: the set of tasks does not change", forall([TaskS], lambda t: A(St.c["total_block_count"].at(
            t) == pre[St.c["total_block_count"]](t))))
        E.cover("released " + ("success" if k == 0 else "failure"))
        if k == 1:
            with E.scope():
                E.assume(St.st.at(b) == FAIL)
                E.cover("failed for good")
            with E.scope():
                E.assume(St.st.at(b) == READY)
                E.cover("to be retried")

    E.explore(path)


def release_effect(b, success, pre, prove=True):
    """the transition of the ghost state that releasing block b must have"""
    g0 = pre[St.gr](b)
    if success:
        succ0 = pre[St.succ]
        R = lambda x: A(Up(x, b), forall([Node], lambda u: I(Up(x, u), O(succ0(u), u == b))))
        with E.soften():
            E.soft = St.prop not in ("C08", "C12")
            if prove:
                E.prove(f"{St.prop}/release_block: blocks that become available were pending", forall([Node], lambda x: I(
                    R(x), pre[St.st](x) == PENDING)))
        size = the_size(R)
        move(lambda x: x == b, COMP, single=(b, PROC))
        move(R, READY, sizes=size)
        return
    if bool(SymBool(g0 >= Max(Tk(b)))):
        b0 = pre[St.bnd]
        R = lambda x: A(Reach(b, x), N(b0(x)))
        st0 = pre[St.st]
        E.assume(reach_induction(b, lambda y: A(st0(y) != COMP, exists([Node], lambda u: A(Up(y, u), st0(u) != COMP)))))
        E.assume(reach_induction(b, lambda y: exists([Node], lambda u: A(Up(y, u), O(u == b, Reach(b, u))))))
        with E.soften():
            E.soft = St.prop != "C11"
            E.prove(f"{St.prop}/release_block: orphaned blocks were pending", forall([Node], lambda x: I(R(x), st0(
                x) == PENDING)))
        size = the_size(R)
        move(lambda x: x == b, FAIL, single=(b, PROC))
        move(R, ORPH, sizes=size)
    else:
        move(lambda x: x == b, READY, single=(b, PROC))
        St.gr.store([b], g0 + 1)


def the_size(R):
    """number of elements of R per task: the same for every loop over R"""
    x = E.const("x", Node)
    for P, srt, cnt in E.counts:
        if srt == Node and fol.valid(E.pc, forall([Node], lambda y: P(y) == R(y)), 3000):
            return cnt
    E.counter += 1
    cnt = z3.Function(f"size!{E.counter}", TaskS, Int)
    E.assume(forall([TaskS], lambda t: A(cnt(t) >= 0, (cnt(t) > 0) == exists([Node], lambda y: A(R(y), Tk(y) == t)))))
    return lambda t: cnt(t)


# ------------------------------------------------------------------- acquire_block
def acquire(prop):
    enable(prop)
    nm = f"{prop}/acquire_block"
    tags = prop[1:]

    def path():
        s, sc = scheduler()
        t = setup()
        from daisy.block import BlockStatus

        def contract(self, blk):
            """release_block, called for a block that is skipped"""
            if not isinstance(blk, SymNode):
                raise Unsupported("argument of release_block")
            b = blk.t
            E.prove(f"{nm}: only available blocks of the task are skipped", A(St.st.at(b) == READY, Tk(b) == t))
            ev = [e for e in St.events if e[0] == "check"]
            ok = bool(ev) and ev[-1][1][2] == 1
            if ok:
                E.prove(f"{nm}: blocks are skipped only if their check returned true", A(ev[-1][1][0] == b, ev[-1][1][
                    1] == Tk(b)))
            else:
                E.fail(f"{nm}: blocks are skipped only if their check returned true", "released without such a check")
            status = blk.__dict__.get("status")
            if status is not BlockStatus.SUCCESS:
                E.fail(f"{nm}: a skipped block is released as successful", f"status {status}")
            else:
                E.ok(f"{nm}: a skipped block is released as successful")
            move(lambda x: x == b, PROC, single=(b, READY))
            St.skip.store([t], St.skip.at(t) + 1)
            h = St.handed.at(b)
            St.handed.store([b], h + 1)
            card_facts()
            prove_inv("acquire_block, before skipping", skip=("cardinalities", SKIPPED))
            # contract: arbitrary state that satisfies the invariant after the transition
            pre = {l: l.val for l in E.locs}
            for l in E.locs:
                if l not in (St.st, St.handed, St.gr, St.skip, *St.n, St.gen, St.gl, St.map, St.has_gen, St.c["skipped_count"]):
                    l.put(l.fresh_val())
            E.assume(forall([TaskS], lambda u: St.c["total_block_count"].at(u) == pre[St.c["total_block_count"]](u)))
            release_effect(b, True, pre, False)
            St.handed.store([b], h)
            E.pc.append(MARK)
            assume_inv(skip=(SKIPPED,))
            return rt.AnyOf()

        sc.Scheduler.release_block = contract
        pre = {l: l.val for l in E.locs}
        try:
            with no_raise(f"{nm}: never raises"):
                r = s.acquire_block(SymTask(t))
        finally:
            sc.Scheduler.release_block = REAL
        if r is None:
            with E.soften():
                E.soft = prop not in ("C12",)
                E.prove(f"{nm}: None is returned only if no block of the task is available", forall([Node], lambda x: N(A(
                    St.st.at(x) == READY, Tk(x) == t))))
            prove_inv("acquire_block (nothing)")
            E.cover("nothing available")
            return
        if not isinstance(r, SymNode):
            raise Unsupported("result of acquire_block")
        b = r.t
        E.prove(f"{nm}: the block belongs to the task", Tk(b) == t)
        E.prove(f"{nm}: the block was available (all upstream blocks succeeded, not handed out, not decided)",
                St.st.at(b) == READY)
        E.prove(f"{nm}: every upstream block was released as successful", forall([Node], lambda u: I(Up(b, u), St.succ.at(
            u))))
        ev = [e[1] for e in St.events if e[0] == "check"]
        if ev and ev[-1][2] == 1:
            E.fail(f"{nm}: no block whose check returned true is handed out", "handed out although the check returned true")
        elif ev:
            E.prove(f"{nm}: the check of the task is called for the block before it is handed out", A(ev[-1][0] == b, ev[
                -1][1] == t))
        else:
            E.prove(f"{nm}: the check of the task is called for the block before it is handed out", N(HasCheck(t)))
        move(lambda x: x == b, PROC, single=(b, READY))
        St.handed.store([b], St.handed.at(b) + 1)
        card_facts()
        prove_inv("acquire_block (block)", skip=("cardinalities",))
        E.prove(f"{nm}: a block is handed out at most 1+max_retries times", O(St.handed.at(b) <= 1 + Max(
            t), St.handed.at(b) <= 1))
        E.cover("handed out")

    sc = modules()
    REAL = sc.Scheduler.release_block
    E.while_variants = [("v", variant)]
    E.explore(path)


def variant(lp, head, v):
    with E.soften():
        E.soft = True
        E.prove(f"{St.prop}/acquire_block: every further iteration completes a block", A(
            forall([Node], lambda x: I(head[St.st](x) == COMP, v[St.st](x) == COMP)),
            exists([Node], lambda x: A(v[St.st](x) == COMP, head[St.st](x) != COMP))))


# ------------------------------------------------------------------------ queries
def ready(prop):
    enable(prop)
    nm = f"{prop}/get_ready_tasks"

    def path():
        s, sc = scheduler()
        setup()
        with no_raise(f"{nm}: never raises"):
            r = s.get_ready_tasks()
        x = E.fresh("t", TaskS)
        E.assume(IsTask(x))
        p = membership(r, x)
        E.prove(f"{nm}: exactly the tasks with available blocks are returned", p == exists([Node], lambda b: A(
            St.st.at(b) == READY, Tk(b) == x)))
        E.cover("queried")

    E.explore(path)


def membership(r, x):
    return fol.membership(r, TaskS)(x)


def done(prop):
    enable(prop)

    def path():
        scheduler()
        setup()
        t = z3.Const("t", TaskS)
        v = St.TSView(t)
        with no_raise(f"{prop}/TaskState: queries never raise"):
            d, p = v.is_done(), v.pending_count
        und = exists([Node], lambda x: A(Tk(x) == t, O(*[St.st.at(x) == s for s in (PENDING, READY, PROC)])))
        E.prove(f"{prop}/is_done: exactly if every block is completed, failed or orphaned", sym.zb(d) == N(und))
        E.prove(f"{prop}/pending_count: the number of pending blocks", zi(p) == St.n[PENDING].at(t))
        E.prove(f"{prop}/pending_count: never negative", zi(p) >= 0)
        E.cover("queried")

    E.explore(path)


def progress(prop):
    """lemma over the invariant: something is ready or processed, or everything is decided"""
    enable(prop)

    def path():
        scheduler()
        setup()
        und = lambda x: O(*[St.st.at(x) == s for s in (PENDING, READY, PROC)])
        x = z3.Const("x", Node)
        # x: an undecided block of minimal rank (there is one if there is any: ranks are natural numbers)
        E.assume(und(x))
        E.assume(forall([Node], lambda y: I(und(y), Rank(y) >= Rank(x))))
        E.prove(f"{prop}/lemma: while a block is undecided, a block is ready or being processed",
                O(St.st.at(x) == READY, St.st.at(x) == PROC))
        E.cover("undecided block")

    E.explore(path)


def orphans(prop):
    """lemma over the invariant: orphaned blocks are exactly those downstream of failed ones"""
    enable(prop)

    def path():
        scheduler()
        setup()
        f = z3.Const("f", Node)
        E.assume(St.st.at(f) == FAIL)
        E.assume(reach_induction(f, lambda y: St.st.at(y) == ORPH))
        E.prove(f"{prop}/lemma: every block that depends on a failed block is orphaned", forall([Node], lambda y: I(Reach(
            f, y), St.st.at(y) == ORPH)))
        # minimal counterexample to the other direction
        x = z3.Const("x", Node)
        bad = lambda y: A(St.st.at(y) == ORPH, N(exists([Node], lambda g: A(St.st.at(g) == FAIL, Reach(g, y)))))
        with E.scope():
            E.assume(bad(x))
            E.assume(forall([Node], lambda y: I(Rank(y) < Rank(x), N(bad(y)))))
            E.prove_unreachable(f"{prop}/lemma: every orphaned block depends on a failed block")
        E.cover("failed block")

    E.explore(path)


# ----------------------------------------------------------------------- __init__
def construct(prop):
    enable(prop)
    St.pre = None
    nm = f"{prop}/__init__"

    def path():
        sc = modules()
        St.make(True)
        facts()
        # the graph: which blocks have no upstream block
        root = lambda x: N(exists([Node], lambda u: Up(x, u)))
        St.gen.put(root)
        St.gl.put(St.gl.fresh_val())
        E.assume(forall([TaskS], lambda t: A(St.gl.at(t) >= 0, (St.gl.at(t) > 0) == exists([Node], lambda x: A(root(
            x), Tk(x) == t)))))
        # tasks of the run: those given, and all they require
        E.assume(forall([TaskS], lambda t: I(Given(t), IsTask(t))))
        E.assume(forall([TaskS, TaskS], lambda t, u: I(A(IsTask(t), Req(t, u)), IsTask(u))))
        E.templates = [init_templates]
        tasks = DList()
        g = E.const("given", TaskS)
        tasks.segs = [("coll", Coll([Case([g], [Given(g)], TaskView(g))], unique=True))]
        with contexts():
            with no_raise(f"{nm}: never raises"):
                s = sc.Scheduler(tasks)
        for e in St.events:
            if e[0] != "check":
                E.fail(f"{nm}: every task has its own entries", e[0])
        ks = {k for k in s.__dict__ if not k.startswith("_dv_")}
        if ks != {"dependency_graph", "ready_surface", "task_map", "task_states", "task_queues", "count_all_orphans"}:
            raise Unsupported("fields of Scheduler")
        for k, c in (("task_map", MapDict), ("task_states", StatesDict), ("task_queues", QueueDict), (
                "ready_surface", Surface), ("dependency_graph", Graph)):
            if type(s.__dict__[k]) is not c:
                raise Unsupported(f"field {k} of Scheduler")
        x = E.fresh("x", Node)
        d, u = s.ready_surface.fns
        y = E.fresh("y", Node)
        E.prove(f"{nm}: the ready surface gets the graph", A(fol.membership(d(SymNode(x)), Node)(y) == Up(
            y, x), fol.membership(u(SymNode(x)), Node)(y) == Up(x, y)))
        # every task that is reachable from the given ones is known
        closed = forall([TaskS, TaskS], lambda t, u: I(A(St.map.at(t), Req(t, u)), St.map.at(u)))
        E.prove(f"{nm}: all given tasks are known", forall([TaskS], lambda t: I(Given(t), St.map.at(t))))
        E.prove(f"{nm}: the tasks required by known tasks are known", closed)
        # IsTask is the smallest such set
        E.assume(I(A(closed, forall([TaskS], lambda t: I(Given(t), St.map.at(t)))), forall([TaskS], lambda t: I(
            IsTask(t), St.map.at(t)))))
        # ghost state
        St.st.put(lambda x: z3.If(root(x), z3.IntVal(READY), z3.IntVal(PENDING)))
        for l in St.n[2:] + [St.skip]:
            l.put(lambda t: z3.IntVal(0))
        St.n[READY].put(St.gl.val)
        gl, p0 = St.gl.val, St.n[PENDING].fresh_val()
        St.n[PENDING].put(p0)
        St.handed.put(lambda x: z3.IntVal(0))
        St.gr.put(lambda x: z3.IntVal(0))
        E.assume(forall([TaskS], lambda t: I(IsTask(t), Total(t) == p0(t) + gl(t))))  # num_blocks is exact (C07)
        E.assume(forall([TaskS], lambda t: I(N(IsTask(t)), A(p0(t) == 0))))
        card_facts()
        prove_inv("__init__", skip=("cardinalities",))
        E.cover("constructed")

    cut_recursion()
    E.explore(path)


def init_templates(lp, v0, sets, svars):
    m = St.map
    tc = St.c["total_block_count"]
    out = []
    m0, t0 = v0[m], v0[tc]
    out.append(("known tasks stay known", lambda v: forall([TaskS], lambda t: I(m0(t), v[m](t)))))
    out.append(("only tasks of the run are known", lambda v: forall([TaskS], lambda t: I(v[m](t), IsTask(t)))))
    out.append(("new tasks have their total", lambda v: forall([TaskS], lambda t: z3.If(A(v[m](t), N(m0(t))), v[tc](t) == Total(
        t), v[tc](t) == t0(t)))))
    if lp.case is not None and lp.case.binders[0].sort() == TaskS:
        out.append(("visited tasks are known", lambda v: forall([TaskS], lambda t: I(v.done(t), v[m](t)))))
        for k in lp.hv_locs:
            if k is St.rr or k is St.c["ready_count"]:
                e = v0[k]
                out.append(("visited tasks have their roots", lambda v, k=k, e=e: forall([TaskS], lambda t: z3.If(
                    v.done(t), v[k](t) == St.gl.at(t), v[k](t) == e(t)))))
            if k is St.has_gen:
                e = v0[k]
                out.append(("visited tasks have their generator", lambda v, k=k, e=e: forall([TaskS], lambda t: v[k](
                    t) == O(v.done(t), e(t)))))
    if St.frame is not None:
        t, base = St.frame
        out.append(("tasks required by new tasks are known", lambda v: forall([TaskS, TaskS], lambda a, b: I(A(
            v[m](a), N(base(a)), a != t, Req(a, b)), v[m](b)))))
    else:
        out.append(("tasks required by known tasks are known", lambda v: forall([TaskS, TaskS], lambda a, b: I(A(
            v[m](a), Req(a, b)), v[m](b)))))
    return out


St.frame = None


def cut_recursion():
    """Recursive methods that take a task: calls inside a call are replaced by the contract of the method."""
    import types as _t

    sc = modules()
    for k, f in list(vars(sc.Scheduler).items()):
        if isinstance(f, _t.FunctionType) and k not in ("__init__", "acquire_block", "release_block", "get_ready_tasks"):
            if k in calls(sc.__file__, k):
                setattr(sc.Scheduler, k, recursive(f, k))


def calls(file, k):
    """names of the methods that a method calls on itself (after name mangling)"""
    import ast

    out = set()
    for c in ast.walk(ast.parse(open(file).read())):
        if isinstance(c, ast.ClassDef) and c.name == "Scheduler":
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and mangled(f.name) == k:
                    for n in ast.walk(f):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                            out.add(mangled(n.func.attr))
    return out


def mangled(n):
    return "_Scheduler" + n if n.startswith("__") and not n.endswith("__") else n


def recursive(f, k):
    """Contract: the task is known afterwards, and so are all tasks required by the tasks that were added; their totals
    are set; nothing else changes."""
    post = lambda t, m0, tc0: A(
        St.map.at(t), forall([TaskS], lambda a: A(I(m0(a), St.map.at(a)), I(St.map.at(a), IsTask(a)))),
        forall([TaskS, TaskS], lambda a, b: I(A(St.map.at(a), N(m0(a)), Req(a, b)), St.map.at(b))),
        forall([TaskS], lambda a: St.c["total_block_count"].at(a) == z3.If(A(St.map.at(a), N(m0(a))), Total(a), tc0(a))))

    def call(self, *a, **kw):
        if kw or len(a) != 1 or not isinstance(a[0], TaskView):
            raise Unsupported("recursive method")
        t = a[0].t
        m0, tc0 = St.map.val, St.c["total_block_count"].val
        E.prove(f"{St.prop}/__init_task: called for tasks of the run", IsTask(t))
        if St.inside:
            St.map.put(St.map.fresh_val())
            St.c["total_block_count"].put(St.c["total_block_count"].fresh_val())
            E.assume(post(t, m0, tc0))
            return None
        # verified once for an arbitrary state, then used by its contract
        St.inside = True
        with_frame = St.frame
        St.frame = (t, m0)
        try:
            def body():
                E.assume(forall([TaskS], lambda a: I(St.map.at(a), IsTask(a))))
                n = len(E.journal)
                with no_raise(f"{St.prop}/__init_task: never raises"):
                    f(self, a[0])
                E.prove(f"{St.prop}/__init_task: makes the task and everything it requires known, with its total", post(
                    t, m0, tc0))
                others = [e.obj for e in E.journal[n:] if isinstance(e.obj, Loc) and e.obj not in (
                    St.map, St.c["total_block_count"]) and e.kind != "havoc"]
                for l in dict.fromkeys(others):
                    raise Unsupported(f"recursive method modifies {l.name}")
            E.explore(body)
        finally:
            St.inside = False
            St.frame = with_frame
        St.map.put(St.map.fresh_val())
        St.c["total_block_count"].put(St.c["total_block_count"].fresh_val())
        E.assume(post(t, m0, tc0))

    return call


St.inside = False
