"""Worker pools: contracts of WorkerPool, TaskWorkerPools and Worker.

Workers are elements of an uninterpreted sort, ordered by their birth; a pool is a set of workers of any size together with
its size. Worker processes are replaced by their contract (alive or not, exit code). Dictionaries keep the order of
insertion (assumed), which is the order of birth.
"""
import types
from .harness import *
from . import fol, dset, finite
from .fol import Node, TaskS, forall, exists, FALSE, TRUE, SymTask, Loc, NSet
from .layer_d import T, ensure, patched
from .layer_f import Counter
from .sym import zi, truth, not_

install()
Int, Bool = z3.IntSort(), z3.BoolSort()
I, A, O, N = z3.Implies, z3.And, z3.Or, z3.Not
Born = z3.Function("Born", Node, Int)
Alive = z3.Function("Alive", Node, Bool)
Exit = z3.Function("Exit", Node, Int)
P0 = z3.Const("the_pool", TaskS)


class G:
    prop = where = None
    sizes = []  # facts for finite models: (set, size)


def need(name, cond):
    nm = f"{G.prop}/{G.where}: {name}"
    if isinstance(cond, bool):
        return ensure(nm, cond)
    return E.prove(nm, cond)


class WId(Sym):
    """the id of a worker"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return WId(z3.substitute(self.t, *m) if m else self.t)

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, WId) else False

    def __ne__(self, o):
        return not_(self == o)

    def __lt__(self, o):
        return SymBool(Born(self.t) < Born(o.t))

    def __gt__(self, o):
        return SymBool(Born(self.t) > Born(o.t))

    def dv_int(self):
        return self

    __hash__ = Sym.__hash__


def wkey(k):
    if not isinstance(k, WId):
        raise Unsupported(f"key {k!r} for a worker id")
    return k.t


class Proc(Sym):
    """multiprocessing.Process"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return Proc(z3.substitute(self.t, *m) if m else self.t)

    def is_alive(self):
        return SymBool(Alive(self.t))

    @property
    def exitcode(self):
        return None if E.branch(Alive(self.t)) else SymInt(Exit(self.t))

    pid = 17

    def join(self, *a):
        pass


class Wk(Sym):
    """a worker; start and stop by contract (see unit worker)"""

    def __init__(self, t):
        self.__dict__["t"] = t

    def sub(self, m):
        return Wk(z3.substitute(self.t, *m) if m else self.t)

    worker_id = property(lambda s: WId(s.t))

    @property
    def process(self):
        return Proc(self.t) if E.branch(G.proc.at(self.t)) else None

    def dv_setattr(self, k, v):
        if k != "process" or v is not None:
            raise Unsupported(f"worker.{k} is set")
        G.proc.store([self.t], FALSE)

    __setattr__ = dv_setattr

    def stop(self):
        G.stopped.store([self.t], TRUE)
        G.proc.store([self.t], FALSE)

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, Wk) else False

    __hash__ = Sym.__hash__


def Worker(spawn_function, context=None, error_queue=None):
    """contract of Worker(): a new worker with a running process"""
    need("workers get the spawn function, context and error queue of the pool", spawn_function == "spawn" and context == "ctx"
         and error_queue == "errors")
    g = E.gens[-1] if E.gens else None
    if g is not None and g.sort() == Node and G.tokens and any(E.entails(tok(g)) for tok in G.tokens):
        # the worker made in one iteration over range(n) is named by the iteration
        x = g
        if any(e[1].eq(x) for e in T.of("new")):
            raise Unsupported("several workers per iteration")
        T.note("new", x)
    elif g is not None:
        raise Unsupported("worker made in a loop")
    else:
        x = E.fresh("new", Node)
    made = G.made.val
    E.assume(A(N(made(x)), N(G.stopped.at(x)), Alive(x)))
    E.assume(forall([Node], lambda y: I(made(y), Born(y) < Born(x))))
    G.made.store([x], TRUE)
    G.proc.store([x], TRUE)
    return Wk(x)


def range_rule(*a):
    if len(a) == 2 and a[0] == 0:
        a = a[1:]
    if len(a) != 1:
        return NotImplemented
    n = a[0]
    if isinstance(n, int):
        return NotImplemented
    n = zi(n)
    E.counter += 1
    tok = z3.Function(f"tok!{E.counter}", Node, Bool)
    made = G.made.val
    E.assume(forall([Node], lambda y: I(tok(y), N(made(y)))))
    x = E.const("it", Node)
    cnt = z3.If(n > 0, n, z3.IntVal(0))
    E.counts.append((lambda y: tok(y), Node, lambda t: z3.If(t == P0, cnt, z3.IntVal(0))))
    E.assume(O(cnt > 0, forall([Node], lambda y: N(tok(y)))))
    G.sizes.append((lambda y: tok(y), cnt))
    G.tokens.append(lambda y: tok(y))
    return Coll([Case([x], [tok(x)], Token(x))], unique=True)


class Token(Sym):
    """an index of range(n)"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return Token(z3.substitute(self.t, *m) if m else self.t)


class OrdColl(Coll):
    """the workers of a pool in the order of birth"""

    rev = False


def size_of(p):
    c = fol.size_of(p, Node)
    v = c(P0)
    E.assume(v >= 0)
    E.assume((v == 0) == forall([Node], lambda y: N(p(y))))
    G.sizes.append((p, v))
    return v


def len_rule(c):
    p = pred(c)
    return SymInt(size_of(p))


def pred(c):
    if len(c.cases) < 1:
        return lambda y: FALSE
    ps = []
    for k in c.cases:
        t = getattr(k.value[0] if isinstance(k.value, tuple) else k.value, "t", None)
        if len(k.binders) != 1 or t is None or not t.eq(k.binders[0]):
            raise Unsupported("number of elements")
        es = fol.plain_entries(k.entries)
        ps.append(lambda y, k=k, es=es: A(*[z3.substitute(e, (k.binders[0], y)) for e in es], TRUE))
    if len(ps) > 1:
        x = E.const("y", Node)
        for i in range(len(ps)):
            for j in range(i):
                if not fol.valid(E.pc, N(A(ps[i](x), ps[j](x)))):
                    raise Unsupported("number of elements")
    return lambda y: O(*[p(y) for p in ps]) if len(ps) > 1 else ps[0](y)


def slice_rule(x, i):
    segs = segments(x)
    if len(segs) != 1 or not isinstance(segs[0][1], OrdColl) or i.step is not None:
        raise Unsupported("slice")
    c = segs[0][1]
    k = c.cases[0]
    p = pred(c)
    n = G.size_now(p)
    E.counter += 1
    rank = z3.Function(f"rank!{E.counter}", Node, Int)
    E.assume(forall([Node], lambda y: I(p(y), A(rank(y) >= 0, rank(y) < n))))
    less = (lambda y, z: Born(y) > Born(z)) if c.rev else (lambda y, z: Born(y) < Born(z))
    E.assume(forall([Node, Node], lambda y, z: I(A(p(y), p(z), y != z), less(y, z) == (rank(y) < rank(z)))))
    E.assume(forall([Node, Node], lambda y, z: I(A(p(y), p(z), rank(y) == rank(z)), y == z)))

    def bound(b, d):
        if b is None:
            return d
        b = zi(b)
        return z3.If(b < 0, z3.If(n + b < 0, z3.IntVal(0), n + b), z3.If(b > n, n, b))

    lo, hi = bound(i.start, z3.IntVal(0)), bound(i.stop, n)
    E.counter += 1
    S = z3.Function(f"slice!{E.counter}", Node, Bool)
    E.assume(forall([Node], lambda y: S(y) == A(p(y), rank(y) >= lo, rank(y) < hi)))
    cnt = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    E.counts.append((lambda y: S(y), Node, lambda t: z3.If(t == P0, cnt, z3.IntVal(0))))
    E.assume((cnt == 0) == forall([Node], lambda y: N(S(y))))
    E.assume((cnt == n) == forall([Node], lambda y: I(p(y), S(y))))
    b = k.binders[0]
    d = DList()
    r = OrdColl([Case([b], [S(b)], k.value)], unique=True)
    r.rev = c.rev
    d.segs = [("coll", r)]
    return d


def sort_rule(x, reverse, key):
    segs = segments(x)
    if len(segs) != 1 or not isinstance(segs[0][1], OrdColl):
        return NotImplemented
    if key is not None:
        raise Unsupported("sorting with a key")
    c = segs[0][1]
    r = OrdColl(c.cases, unique=True)
    if reverse == "reversed":
        r.rev = not c.rev
    else:
        v = c.cases[0].value
        if not isinstance(v, WId):
            raise Unsupported("sorting of workers")
        r.rev = bool(reverse)
    d = DList()
    d.segs = [("coll", r)]
    return d


class Workers(Sym):
    """pool.workers"""

    def sub(self, m):
        return self

    def dv_len(self):
        return SymInt(G.size.at(P0))

    def dv_contains(self, k):
        return SymBool(z3.simplify(G.inp.at(wkey(k))))

    def __getitem__(self, k):
        if not truth(self.dv_contains(k)):
            raise KeyError("worker")
        return Wk(wkey(k))

    def get(self, k, d=None):
        return Wk(wkey(k)) if truth(self.dv_contains(k)) else d

    def __delitem__(self, k):
        if not truth(self.dv_contains(k)):
            raise KeyError("worker")
        G.inp.store([wkey(k)], FALSE)
        G.size.store([P0], G.size.at(P0) - 1)

    def pop(self, k, *d):
        if not truth(self.dv_contains(k)):
            if d:
                return d[0]
            raise KeyError("worker")
        del self[k]
        return Wk(wkey(k))

    def popitem(self):
        if not truth(SymBool(G.size.at(P0) > 0)):
            raise KeyError("empty")
        x = E.fresh("last", Node)
        p = G.inp.val
        E.assume(A(p(x), forall([Node], lambda y: I(A(p(y), y != x), Born(y) < Born(x)))))
        del self[WId(x)]
        return (WId(x), Wk(x))

    def __setitem__(self, k, v):
        if not isinstance(v, Wk):
            raise Unsupported("entry of the pool")
        need("workers are stored under their own ID", v.t == wkey(k))
        E.assume(v.t == wkey(k))
        if not truth(self.dv_contains(k)):
            G.size.store([P0], G.size.at(P0) + 1)
        G.inp.store([v.t], TRUE)

    def update(self, o=(), **kw):
        if not isinstance(o, WMap):
            raise Unsupported("update of the pool")
        p, old = o.p, G.inp.val
        x = E.const("upd", Node)
        if not fol.valid(E.pc, N(A(p(x), old(x)))):
            raise Unsupported("update with workers of the pool")
        G.inp.put(lambda y: O(old(y), p(y)))
        G.size.store([P0], G.size.at(P0) + size_of(p))

    def clear(self):
        G.inp.put(lambda y: FALSE)
        G.size.store([P0], z3.IntVal(0))

    def _coll(self, f):
        x = E.const("w", Node)
        return OrdColl([Case([x], [G.inp.at(x)], f(x))], unique=True)

    def keys(self):
        return self._coll(WId)

    def items(self):
        return self._coll(lambda x: (WId(x), Wk(x)))

    def values(self):
        return self._coll(Wk)

    def dv_segments(self):
        return [("coll", self.keys())]

    def __bool__(self):
        return E.branch(G.size.at(P0) > 0)


class WMap(Sym):
    """a dictionary of workers by id"""

    def __init__(self, p):
        self.p = p

    def sub(self, m):
        return self


def mkdict_rule(x):
    if isinstance(x, dict) or not isinstance(x, DList):
        return NotImplemented
    if x.is_concrete():
        return NotImplemented
    ps = []
    for k, s in segments(x):
        if k != "coll":
            raise Unsupported("dictionary of workers")
        for c in elems(s):
            v = c.value
            if not (isinstance(v, tuple) and isinstance(v[0], WId) and isinstance(v[1], Wk)):
                raise Unsupported("dictionary of workers")
            y = E.const("key", Node)
            need("workers are stored under their own ID", forall([Node], lambda y: I(A(*[z3.substitute(
                e, (c.binders[0], y)) for e in fol.plain_entries(c.entries)], TRUE), z3.substitute(
                    v[0].t == v[1].t, (c.binders[0], y)))))
            ps.append(fol.case_member(Case(c.binders, c.entries, v[1]), Node))
    return WMap(lambda y: O(*[p(y) for p in ps]) if len(ps) > 1 else ps[0](y))


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def acquire(self, *a, **k):
        return True

    def release(self):
        pass


def enable(prop):
    G.prop = prop
    fol.enable(None)
    E.one_by_one = False
    E.timeout_ms = 10000
    E.task_of = lambda x: P0
    E.comp_loop = True
    E.range_rule, E.slice_rule, E.len_rule, E.sort_rule = range_rule, slice_rule, len_rule, sort_rule
    E.mkdict_rule = mkdict_rule
    E.standard = standard
    E.total = size_of
    E.templates = []
    E.own_templates = False


def standard(nodes, tasks):
    out = []
    for p, n in G.sizes:
        out.append(finite.count(p, nodes) == n)
    return out


def make():
    """an arbitrary pool"""
    T.clear()
    E.counts = []
    G.sizes, G.tokens = [], []
    G.inp = Loc("inp", [Node], Bool)
    G.size = Loc("size", [TaskS], Int)
    G.proc = Loc("proc", [Node], Bool)
    G.made = Loc("made", [Node], Bool)
    G.stopped = Loc("stopped", [Node], Bool)
    E.locs = [G.inp, G.size, G.proc, G.made, G.stopped]
    pre = Snap()
    E.assume(G.size.at(P0) >= 0)
    E.assume((G.size.at(P0) == 0) == forall([Node], lambda x: N(pre.inp(x))))
    E.assume(forall([Node], lambda x: I(pre.inp(x), pre.made(x))))
    E.assume(forall([Node], lambda x: A(I(pre.inp(x), N(pre.stopped(x))), I(pre.stopped(x), pre.made(x)))))
    E.assume(forall([Node, Node], lambda x, y: I(A(pre.made(x), pre.made(y), Born(x) == Born(y)), x == y)))
    G.sizes.append((pre.inp, G.size.at(P0)))
    G.size_now = lambda p: G.size.at(P0)
    return pre


class Snap:
    def __init__(self):
        for n in ("inp", "size", "proc", "made", "stopped"):
            setattr(self, n, getattr(G, n).val)


def pool(pm, real=True):
    p = object.__new__(pm.WorkerPool)
    p.__dict__.update(spawn_function="spawn", context="ctx", workers=Workers(), workers_lock=Lock(), error_queue="errors",
                      _dv_stamp=0)
    return p


def guard_attrs(pm):
    """the constructor sets the attributes the contracts refer to"""
    import daisy.context as cm

    cm.get_log_basedir = lambda: "logs"
    with patched(pm, threading=types.SimpleNamespace(Lock=Lock, RLock=Lock), multiprocessing=types.SimpleNamespace(
            Queue=lambda *a: "errors")):
        made = []
        with patched(pm, Worker=lambda *a, **k: made.append(a)):
            p = pm.WorkerPool("spawn", "ctx")
    d = p.__dict__
    if not (isinstance(d.get("workers"), (dset.DDict, dict)) and d.get("context") == "ctx" and d.get(
            "spawn_function") == "spawn" and d.get("error_queue") == "errors" and "workers_lock" in d):
        raise Unsupported("attributes of WorkerPool")
    if set(k for k in d if not k.startswith("_dv")) != {"workers", "context", "spawn_function", "error_queue", "workers_lock"}:
        raise Unsupported("attributes of WorkerPool")
    G.where = "WorkerPool.__init__"
    need("a new pool has no workers", not made and (len(d["workers"].pairs) if isinstance(
        d["workers"], dset.DDict) else len(d["workers"])) == 0)


def resize_post(pre, n):
    inp, made, stopped, proc = G.inp.val, G.made.val, G.stopped.val, G.proc.val
    need("the pool has the requested number of workers", G.size.at(P0) == n)
    fa = lambda f: forall([Node], f)
    need("workers that stay are not stopped", fa(lambda x: I(A(pre.inp(x), inp(x)), A(N(stopped(x)), proc(x) == pre.proc(x)))))
    need("workers that leave the pool are stopped", fa(lambda x: I(A(pre.inp(x), N(inp(x))), stopped(x))))
    need("no worker leaves a pool that grows", I(n >= pre.size(P0), fa(lambda x: I(pre.inp(x), inp(x)))))
    need("no worker is started for a pool that shrinks", I(n <= pre.size(P0), fa(lambda x: A(made(x) == pre.made(x), I(inp(
        x), pre.inp(x))))))
    need("workers that are added are new and running", fa(lambda x: I(A(inp(x), N(pre.inp(x))), A(made(x), N(pre.made(
        x)), proc(x), N(stopped(x))))))
    need("workers that are started belong to the pool", fa(lambda x: I(A(made(x), N(pre.made(x))), inp(x))))
    need("the youngest workers are stopped", forall([Node, Node], lambda x, y: I(A(pre.inp(x), N(inp(x)), inp(y), pre.inp(
        y)), Born(y) < Born(x))))


def resize(prop):
    enable(prop)
    import daisy.worker_pool as pm

    guard_attrs(pm)

    def path():
        pre = make()
        G.where = "WorkerPool.set_num_workers"
        p = pool(pm)
        n = SymInt(E.fresh("n"))
        E.assume(n.e >= 0)
        with patched(pm, Worker=Worker):
            with no_raise(f"{prop}/{G.where}: never raises"):
                p.set_num_workers(n)
        resize_post(pre, n.e)
        E.cover("resized")

    E.explore(path)

    def path2():
        pre = make()
        G.where = "WorkerPool.stop()"
        p = pool(pm)
        with patched(pm, Worker=Worker):
            with no_raise(f"{prop}/{G.where}: never raises"):
                p.stop()
        need("no worker is left", A(G.size.at(P0) == 0, forall([Node], lambda x: N(G.inp.at(x)))))
        need("every worker is stopped", forall([Node], lambda x: I(pre.inp(x), A(G.stopped.at(x), N(G.proc.at(x))))))
        need("no worker is started", forall([Node], lambda x: G.made.at(x) == pre.made(x)))
        E.cover("stopped")

    E.explore(path2)

    def path3():
        pre = make()
        G.where = "WorkerPool.stop(worker_id)"
        p = pool(pm)
        w = E.fresh("w", Node)
        with patched(pm, Worker=Worker):
            with no_raise(f"{prop}/{G.where}: never raises"):
                p.stop(WId(w))
        need("this worker is stopped and removed", A(N(G.inp.at(w)), I(pre.inp(w), G.stopped.at(w)), G.size.at(
            P0) == pre.size(P0) - z3.If(pre.inp(w), 1, 0)))
        need("the others are not touched", forall([Node], lambda x: I(x != w, A(G.inp.at(x) == pre.inp(x), G.stopped.at(
            x) == pre.stopped(x), G.proc.at(x) == pre.proc(x), G.made.at(x) == pre.made(x)))))
        E.cover("one stopped")

    E.explore(path3)

    def path4():
        pre = make()
        G.where = "WorkerPool.inc_num_workers"
        p = pool(pm)
        n = SymInt(E.fresh("n"))
        E.assume(n.e >= 0)
        with patched(pm, Worker=Worker):
            with no_raise(f"{prop}/{G.where}: never raises"):
                p.inc_num_workers(n)
        resize_post(pre, pre.size(P0) + n.e)
        E.cover("increased")

    E.explore(path4)


def reap(prop):
    enable(prop)
    import daisy.worker_pool as pm

    def path():
        pre = make()
        G.where = "WorkerPool.reap_dead_workers"
        p = pool(pm)
        with patched(pm, Worker=Worker):
            with no_raise(f"{prop}/{G.where}: never raises"):
                r = p.reap_dead_workers()
        if not isinstance(r, (int, SymInt)):
            raise Unsupported("result of reap_dead_workers")
        dead = lambda x: A(pre.inp(x), pre.proc(x), N(Alive(x)), Exit(x) != 0)
        need("exactly the workers that died are removed", forall([Node], lambda x: G.inp.at(x) == A(pre.inp(x), N(dead(x)))))
        need("the number of removed workers is returned", zi(r) == pre.size(P0) - G.size.at(P0))
        need("no worker is started or stopped", forall([Node], lambda x: A(G.made.at(x) == pre.made(x), G.stopped.at(
            x) == pre.stopped(x))))
        need("living workers are not touched", forall([Node], lambda x: I(A(pre.inp(x), Alive(x)), G.proc.at(x) == pre.proc(
            x))))
        need("workers that finished are not counted again", forall([Node], lambda x: I(A(G.inp.at(x), G.proc.at(x)), Alive(x))))
        E.cover("reaped")

    E.explore(path)

    def errors():
        pre = make()
        G.where = "WorkerPool.check_for_errors"
        import queue

        p = pool(pm)
        k = E.choose(2, "error")
        err = ValueError("of a worker")

        class Q:
            def get(self, block=True, timeout=None):
                if not k:
                    if block and timeout is None:
                        ensure(f"{prop}/{G.where}: does not wait", False)
                    raise queue.Empty()
                return err

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                return not k

        p.__dict__["error_queue"] = Q()
        got = None
        try:
            p.check_for_errors()
        except Control:
            raise
        except Exception as e:
            check_engine_error(e)
            got = e
        need("raises the error of a worker, if there is one", got is (err if k else None))
        E.cover("errors")

    E.explore(errors)


# ------------------------------------------------------------------ pools by task
IsPool = z3.Function("IsPool", TaskS, Bool)
NW = z3.Function("NumWorkers", TaskS, Int)
Given = z3.Function("GivenTasks", TaskS, Bool)
PoolOf = z3.Function("PoolOf", Node, TaskS)


class PoolView(Sym):
    """contract of WorkerPool"""

    def __init__(self, t):
        self.tt = t

    def sub(self, m):
        return PoolView(z3.substitute(self.tt, *m) if m else self.tt)

    def check_for_errors(self):
        G.checked.store([self.tt], TRUE)
        if E.choose(2, "a worker raised"):
            raise UserError()

    def reap_dead_workers(self):
        c = E.fresh("dead")
        E.assume(A(c >= 0, c <= G.size.at(self.tt)))
        G.size.store([self.tt], G.size.at(self.tt) - c)
        G.reaped.store([self.tt], TRUE)
        return SymInt(c)

    def inc_num_workers(self, n):
        need("the number of new workers is not negative", zi(n) >= 0)
        G.size.store([self.tt], G.size.at(self.tt) + zi(n))

    def set_num_workers(self, n):
        G.size.store([self.tt], zi(n))

    def stop(self, worker_id=None):
        if worker_id is None:
            G.size.store([self.tt], z3.IntVal(0))
            G.closed.store([self.tt], TRUE)
            return
        w = wkey(worker_id)
        here = A(G.inp.at(w), PoolOf(w) == self.tt)
        G.size.store([self.tt], G.size.at(self.tt) - z3.If(here, 1, 0))
        old = G.inp.val
        G.inp.put(lambda y: A(old(y), N(A(y == w, PoolOf(w) == self.tt))))

    @property
    def workers(self):
        return PoolWorkers(self.tt)

    def __bool__(self):
        return True


class PoolWorkers(Sym):
    def __init__(self, t):
        self.tt = t

    def sub(self, m):
        return PoolWorkers(z3.substitute(self.tt, *m) if m else self.tt)

    def dv_contains(self, k):
        w = wkey(k)
        return SymBool(A(G.inp.at(w), PoolOf(w) == self.tt))

    def dv_len(self):
        return SymInt(G.size.at(self.tt))


class UserError(Exception):
    pass


def tkey(t):
    if not isinstance(t, SymTask):
        raise Unsupported("task id")
    return t.t


class ByTask(Sym):
    def __init__(self, view, keys):
        self.view, self.keys_ = view, keys

    def sub(self, m):
        return self

    def __getitem__(self, k):
        if not truth(self.dv_contains(k)):
            raise KeyError("task")
        return self.view(tkey(k))

    def get(self, k, d=None):
        return self.view(tkey(k)) if truth(self.dv_contains(k)) else d

    def dv_contains(self, k):
        return SymBool(self.keys_(tkey(k)))

    def _coll(self, f):
        t = E.const("task", TaskS)
        return Coll([Case([t], [self.keys_(t)], f(t))], unique=True)

    def items(self):
        return self._coll(lambda t: (SymTask(t), self.view(t)))

    def keys(self):
        return self._coll(SymTask)

    def values(self):
        return self._coll(self.view)

    def dv_segments(self):
        return [("coll", self.keys())]


class TaskArg(Sym):
    def __init__(self, t):
        self.tt = t

    def sub(self, m):
        return TaskArg(z3.substitute(self.tt, *m) if m else self.tt)

    num_workers = property(lambda s: SymInt(NW(s.tt)))
    task_id = property(lambda s: SymTask(s.tt))
    spawn_worker_function = property(lambda s: ("spawn", s.tt))


class Failures(Sym):
    """failure_counts"""

    def sub(self, m):
        return self

    def dv_contains(self, k):
        return SymBool(G.row.at(tkey(k)))

    def __getitem__(self, k):
        if not truth(self.dv_contains(k)):
            raise KeyError("task")
        return Row(tkey(k))

    def get(self, k, d=None):
        return Row(tkey(k)) if truth(self.dv_contains(k)) else d

    def setdefault(self, k, d=None):
        if not truth(self.dv_contains(k)):
            self[k] = d
        return Row(tkey(k))

    def __setitem__(self, k, v):
        t = tkey(k)
        if isinstance(v, Row):
            return
        if not (isinstance(v, dset.DDict) and not v.pairs):
            raise Unsupported("failure_counts")
        G.row.store([t], TRUE)
        old = G.ent.val
        G.ent.put(lambda s, x: A(old(s, x), s != t))


class Row(Sym):
    def __init__(self, t):
        self.tt = t

    def sub(self, m):
        return self

    def dv_contains(self, k):
        return SymBool(G.ent.at(self.tt, wkey(k)))

    def __getitem__(self, k):
        if not truth(self.dv_contains(k)):
            raise KeyError("worker")
        return SymInt(G.fc.at(self.tt, wkey(k)))

    def get(self, k, d=None):
        return self[k] if truth(self.dv_contains(k)) else d

    def setdefault(self, k, d=None):
        if not truth(self.dv_contains(k)):
            self[k] = d
        return self[k]

    def __setitem__(self, k, v):
        G.ent.store([self.tt, wkey(k)], TRUE)
        G.fc.store([self.tt, wkey(k)], zi(v))

    def __delitem__(self, k):
        if not truth(self.dv_contains(k)):
            raise KeyError("worker")
        G.ent.store([self.tt, wkey(k)], FALSE)

    def pop(self, k, *d):
        if not truth(self.dv_contains(k)):
            if d:
                return d[0]
            raise KeyError("worker")
        v = self[k]
        del self[k]
        return v


def make_pools(tm):
    T.clear()
    E.counts = []
    G.sizes, G.tokens = [], []
    G.inp = Loc("inp", [Node], Bool)
    G.size = Loc("size", [TaskS], Int)
    G.checked = Loc("checked", [TaskS], Bool, lambda t: FALSE)
    G.reaped = Loc("reaped", [TaskS], Bool, lambda t: FALSE)
    G.closed = Loc("closed", [TaskS], Bool, lambda t: FALSE)
    G.row = Loc("row", [TaskS], Bool)
    G.ent = Loc("ent", [TaskS, Node], Bool)
    G.fc = Loc("fc", [TaskS, Node], Int)
    E.locs = [G.inp, G.size, G.checked, G.reaped, G.closed]
    size, inp = G.size.val, G.inp.val
    ent, fc, row = G.ent.val, G.fc.val, G.row.val
    E.assume(forall([TaskS], lambda t: A(size(t) >= 0, NW(t) >= 0)))
    E.assume(forall([Node], lambda x: I(inp(x), size(PoolOf(x)) >= 1)))
    E.assume(forall([TaskS, Node], lambda t, x: A(I(ent(t, x), row(t)))))
    p = object.__new__(tm.TaskWorkerPools)
    mx = E.fresh("max_block_failures")
    p.__dict__.update(worker_pools=ByTask(PoolView, lambda t: IsPool(t)), max_block_failures=SymInt(mx),
                      failure_counts=Failures(), _dv_stamp=0)
    return p, mx, types.SimpleNamespace(size=size, inp=inp, ent=ent, fc=fc, row=row)


def setting(lp, v0, sets, svars):
    """recruit_workers sets the size of visited pools"""
    out = []
    for l in lp.hv_locs:
        if l.sorts == (TaskS,) and l.rng == Int and lp.case is not None and lp.case.binders[0].sort() == TaskS:
            e = v0[l]
            for nm, c in (("given", lambda t: Given(t)), ("all", lambda t: TRUE), ("pools", lambda t: IsPool(t))):
                out.append((f"{l.name} of visited {nm} tasks is set", lambda v, e=e, l=l, c=c: forall([TaskS], lambda t: v[l](
                    t) == z3.If(A(v.done(t), c(t)), NW(t), e(t)))))
            out.append((f"{l.name} of visited tasks is 0", lambda v, e=e, l=l: forall([TaskS], lambda t: v[l](t) == z3.If(
                v.done(t), z3.IntVal(0), e(t)))))
    return out


def pools(prop):
    enable(prop)
    E.comp_loop = False
    E.range_rule = E.slice_rule = E.len_rule = E.sort_rule = None
    E.mkdict_rule = None
    E.standard = lambda nodes, tasks: []
    E.task_of = E.total = None
    E.templates = [setting]
    import daisy.task_worker_pools as tm

    probe = {}

    def init():
        T.clear()
        G.where = "TaskWorkerPools.__init__"

        class Ctx:
            def __init__(self, **kw):
                self.kw = kw

            def dv_sub(self, m):
                return Ctx(**{k: vsub(v, m) for k, v in self.kw.items()})

        class PoolCtor:
            def __init__(self, spawn, ctx=None, **kw):
                if kw:
                    raise Unsupported("arguments of WorkerPool")
                self.spawn, self.ctx = spawn, ctx

            def dv_sub(self, m):
                sp = self.spawn
                return PoolCtor((sp[0], z3.substitute(sp[1], *m)) if isinstance(sp, tuple) else sp, vsub(self.ctx, m))

        got = []

        def rule(x):
            if isinstance(x, DList) and not x.is_concrete():
                got.append(x)
                return ByTask(PoolView, lambda t: IsPool(t))
            return NotImplemented

        E.mkdict_rule = rule
        server = types.SimpleNamespace(hostname="host", port=7, register_observer=lambda o: T.note("observer", o))
        t = E.const("given", TaskS)
        tasks = DList()
        tasks.segs = [("coll", Coll([Case([t], [IsPool(t)], TaskArg(t))], unique=True))]
        try:
            with patched(tm, WorkerPool=PoolCtor, Context=Ctx):
                with no_raise(f"{prop}/{G.where}: never raises"):
                    p = tm.TaskWorkerPools(tasks, server)
        finally:
            E.mkdict_rule = None
        if len(got) != 1:
            raise Unsupported("worker pools")
        cs = [c for k, s in segments(got[0]) for c in elems(s)]
        if len(cs) != 1:
            raise Unsupported("worker pools")
        c = cs[0]
        k, v = c.value
        x = c.binders[0]
        need("there is a pool for every task, with its spawn function and its task ID in the context", isinstance(
            k, SymTask) and isinstance(v, PoolCtor) and k.t.eq(x) and isinstance(v.spawn, tuple) and v.spawn[1].eq(
            x) and isinstance(v.ctx, Ctx) and isinstance(v.ctx.kw.get("task_id"), SymTask) and v.ctx.kw["task_id"].t.eq(x))
        es = fol.plain_entries(c.entries)
        need("no task is left out", forall([TaskS], lambda y: I(IsPool(y), A(*[z3.substitute(e, (x, y)) for e in es], TRUE))))
        need("workers can find the server", v.ctx.kw.get("hostname") == "host" and v.ctx.kw.get("port") == 7)
        probe["attrs"] = {a for a in p.__dict__ if not a.startswith("_dv")}
        probe["max"] = p.__dict__.get("max_block_failures")
        probe["fc"] = p.__dict__.get("failure_counts")
        E.cover("init")

    E.explore(init)
    if not {"worker_pools", "max_block_failures", "failure_counts"} <= probe.get("attrs", set()) or not isinstance(
            probe["max"], int) or not isinstance(probe["fc"], (dset.DDict, dict)) or isinstance(
            probe["fc"], dset.DDict) and probe["fc"].factory is not None:
        raise Unsupported("attributes of TaskWorkerPools")

    def recruit():
        p, mx, pre = make_pools(tm)
        G.where = "TaskWorkerPools.recruit_workers"
        # the scheduler passes tasks of the graph, and every task of the graph has a pool
        E.assume(forall([TaskS], lambda t: I(Given(t), IsPool(t))))
        with no_raise(f"{prop}/{G.where}: never raises"):
            p.recruit_workers(ByTask(TaskArg, lambda t: Given(t)))
        need("the pools of the given tasks get the number of workers of their task, the others are not touched", forall(
            [TaskS], lambda t: G.size.at(t) == z3.If(A(IsPool(t), Given(t)), NW(t), pre.size(t))))
        E.cover("recruited")

    E.explore(recruit)

    def stop():
        p, mx, pre = make_pools(tm)
        G.where = "TaskWorkerPools.stop"
        with no_raise(f"{prop}/{G.where}: never raises"):
            p.stop()
        need("all pools are stopped", forall([TaskS], lambda t: I(IsPool(t), G.closed.at(t))))
        need("no workers are left", forall([TaskS], lambda t: I(IsPool(t), G.size.at(t) == 0)))
        E.cover("stopped")

    E.explore(stop)

    def health():
        p, mx, pre = make_pools(tm)
        G.where = "TaskWorkerPools.check_worker_health"
        err = None
        try:
            p.check_worker_health()
        except Control:
            raise
        except Exception as e:
            check_engine_error(e)
            err = e
        need("only errors of workers are raised", err is None or isinstance(err, UserError))
        if err is None:
            need("dead workers are replaced by the same number of new ones", forall([TaskS], lambda t: I(IsPool(
                t), G.size.at(t) == pre.size(t))))
            need("all pools are checked for errors and dead workers", forall([TaskS], lambda t: I(IsPool(t), A(G.checked.at(
                t), G.reaped.at(t)))))
            E.cover("healthy")
        else:
            E.cover("error")

    E.explore(health)

    def failure():
        p, mx, pre = make_pools(tm)
        G.where = "TaskWorkerPools.on_block_failure"
        t, w = E.fresh("t", TaskS), E.fresh("w", Node)
        E.assume(A(IsPool(t), PoolOf(w) == t, mx >= 0))
        ctx = dict(task_id=SymTask(t), worker_id=WId(w), hostname="host", port="7")
        with no_raise(f"{prop}/{G.where}: never raises"):
            p.on_block_failure(None, ValueError(), ctx)
        c = z3.If(pre.ent(t, w), pre.fc(t, w), 0) + 1
        here = pre.inp(w)
        over = c > mx
        need("a worker is removed only if its blocks failed too often", forall([Node], lambda x: G.inp.at(x) == A(pre.inp(
            x), N(A(x == w, over)))))
        need("the removed worker is replaced, and no other worker is started", forall([TaskS], lambda s: G.size.at(
            s) == pre.size(s)))
        ent, fc = G.ent.val, G.fc.val
        cnt = z3.If(ent(t, w), fc(t, w), 0)
        need("failures are counted per worker", A(I(N(over), cnt == c), I(A(over, here), cnt <= 0)))
        need("the counts of other workers are not changed", forall([TaskS, Node], lambda s, x: I(O(s != t, x != w), z3.If(ent(
            s, x), fc(s, x), 0) == z3.If(pre.ent(s, x), pre.fc(s, x), 0))))
        E.cover("failure")

    E.explore(failure)


# ------------------------------------------------------------------------ worker
def worker(prop):
    E.fol = True
    E.mute = 0
    G.prop = prop
    E.standard = lambda nodes, tasks: []
    import daisy.worker as wm
    import daisy.context as cm

    W = wm.Worker
    cm.get_log_basedir = lambda: "logs"
    wm.dill = types.SimpleNamespace(dumps=lambda x: ("dill", x), loads=lambda x: x[1])

    def ids():
        T.clear()
        G.where = "Worker.get_next_id"
        if "_Worker__next_id" not in W.__dict__:
            raise Unsupported("counter of worker IDs")
        v0 = E.fresh("next")
        E.assume(v0 >= 0)
        c = Counter(SymInt(v0))
        old = W.__dict__["_Worker__next_id"]
        type.__setattr__(W, "_Worker__next_id", c)
        try:
            with no_raise(f"{prop}/{G.where}: never raises"):
                r = W.get_next_id()
        finally:
            type.__setattr__(W, "_Worker__next_id", old)
        if not isinstance(r, (SymInt, int)):
            raise Unsupported("worker ID")
        need("IDs were not used before", zi(r) >= v0)
        need("IDs are not used again", zi(c.v) > zi(r))
        need("concurrent calls do not get the same ID", not c.bad and c.held == 0)
        E.cover("id")

    E.explore(ids)

    def life():
        T.clear()

        class P:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
                T.note("process", target)
                self.target = target
                self.__dict__["_dv_stamp"] = 0

            def start(self):
                T.note("start", self)

            def terminate(self):
                T.note("terminate", self)

            kill = terminate

            def join(self, timeout=None):
                T.note("join", self)

            def is_alive(self):
                return True

        G.where = "Worker"
        with patched(wm, multiprocessing=types.SimpleNamespace(Process=P)):
            nid = W.get_next_id
            seen = []
            type.__setattr__(W, "get_next_id", staticmethod(lambda: seen.append(len(seen) + 5) or seen[-1]))
            try:
                with no_raise(f"{prop}/{G.where}.__init__: never raises"):
                    w = W("spawn", None, None)
            finally:
                type.__setattr__(W, "get_next_id", staticmethod(nid))
            need("a worker has a new ID", len(seen) == 1 and w.worker_id == 5)
            need("a new worker runs one process, for its own spawn function", [e[0] for e in T.ev] == ["process", "start"] and T.ev[
                0][1] == w._spawn_wrapper and w.process is T.ev[1][1])
            if w.process is None:
                return
            k = E.choose(3, "what is done")
            n = len(T.ev)
            pr = w.process
            if k == 0:
                with no_raise(f"{prop}/{G.where}.start: never raises"):
                    w.start()
                need("a running worker is not started again", len(T.ev) == n and w.process is pr)
                E.cover("started again")
            elif k == 1:
                with no_raise(f"{prop}/{G.where}.stop: never raises"):
                    w.stop()
                ev = T.ev[n:]
                need("stopping ends the process and waits for it", [e[0] for e in ev] == ["terminate", "join"] and all(
                    e[1] is pr for e in ev) and w.process is None)
                m = len(T.ev)
                w.stop()
                need("a stopped worker can be stopped again", len(T.ev) == m)
                w.start()
                need("a stopped worker can be started again", [e[0] for e in T.ev[m:]] == [
                    "process", "start"] and w.process is not None and w.process is not pr)
                E.cover("stopped")
            else:
                w.__dict__["process"] = None
                w.stop()
                need("a worker without process is not stopped", len(T.ev) == n)
                E.cover("no process")

    E.explore(life)
