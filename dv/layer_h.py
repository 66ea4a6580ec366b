"""DependencyGraph: how the graphs of the single tasks are combined. Contracts of __init__, upstream, downstream and roots.

Tasks and blocks are elements of uninterpreted sorts. The graphs of the single tasks (BlockwiseDependencyGraph) are replaced
by their contracts, proved in layer A: upstream and downstream within the task, the blocks that overlap a ROI, the initial
blocks, the number of blocks, and that blocks that read only from the area covered by a task have an upstream block in it.
"""
import inspect, types
from .harness import *
from . import fol
from .fol import NSet, SymNode, Node, TaskS, forall, exists, FALSE, TRUE, SymTask, Loc
from .layer_c import SymBid, tkey, Tk, IsTask, Req, Given, Total, I, A, O, N, Int, Bool
from .layer_d import ensure, patched, T
from .sym import zi

install()
UpIn = z3.Function("UpIn", Node, Node, Bool)  # within a task: y is upstream of x
WR = z3.Function("WritesWhatItReads", Node, Node, Bool)  # the write ROI of y overlaps the read ROI of x
Other = {k: z3.Function("Overlap_" + k, Node, Node, Bool) for k in ("rr", "ww")}
NRoots = z3.Function("NumRoots", TaskS, Int)
Covers = z3.Function("Covers", TaskS, TaskS, Bool)  # the blocks of u cover all that t reads
ATTRS = dict(task_id="task_id", block_read_roi="read_roi", block_write_roi="write_roi",
             read_write_conflict="read_write_conflict", fit="fit", total_read_roi="total_roi")


class H:
    prop = where = frame = None
    inside = False


def need(name, cond):
    nm = f"{H.prop}/{H.where}: {name}"
    if isinstance(cond, bool):
        return ensure(nm, cond)
    return E.prove(nm, cond)


def U(x, y):
    """y is upstream of x"""
    return O(UpIn(x, y), A(Req(Tk(x), Tk(y)), WR(y, x)))


# ---------------------------------------------------------------------- views
class Attr(Sym):
    """a property of task t"""

    def __init__(self, n, t):
        self.n, self.t = n, t

    def sub(self, m):
        return Attr(self.n, z3.substitute(self.t, *m) if m else self.t)


class TaskV(Sym):
    def __init__(self, t):
        self.__dict__["tt"] = t

    t = property(lambda s: s.tt)
    task_id = property(lambda s: SymTask(s.tt))

    def sub(self, m):
        return TaskV(z3.substitute(self.tt, *m) if m else self.tt)

    def __getattr__(self, k):
        if k in ATTRS.values():
            return Attr(k, self.tt)
        return Sym.__getattr__(self, k)

    def requires(self):
        u = E.const("rq", TaskS)
        d = DList()
        d.segs = [("coll", Coll([Case([u], [Req(self.tt, u)], TaskV(u))], unique=True))]
        return d

    upstream_tasks = property(requires)

    def __eq__(self, o):
        return SymBool(self.tt == o.tt) if isinstance(o, TaskV) else False

    def __ne__(self, o):
        return sym.not_(self == o)

    __hash__ = Sym.__hash__


class RoiOf(Sym):
    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def sub(self, m):
        return RoiOf(self.kind, z3.substitute(self.n, *m) if m else self.n)


class Cover(Sym):
    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return Cover(z3.substitute(self.t, *m) if m else self.t)

    def contains(self, o):
        if not isinstance(o, Attr) or o.n != "total_roi":
            raise Unsupported("comparison with the covered area")
        return SymBool(Covers(self.t, o.t))


def blocks(cond, unique=True):
    n = E.const("blk", Node)
    d = DList()
    d.segs = [("coll", Coll([Case([n], [cond(n)], SymNode(n))], unique=unique))]
    return d


class GraphView(Sym):
    """contract of BlockwiseDependencyGraph for task t"""

    sig = None

    def __init__(self, t):
        self.__dict__["tt"] = t

    t = property(lambda s: s.tt)

    def sub(self, m):
        return GraphView(z3.substitute(self.tt, *m) if m else self.tt)

    num_blocks = property(lambda s: SymInt(Total(s.tt)))
    total_read_roi = property(lambda s: Attr("total_roi", s.tt))
    covered_write_roi = property(lambda s: Cover(s.tt))
    task_id = property(lambda s: SymTask(s.tt))

    def node(self, b):
        if not isinstance(b, SymNode):
            raise Unsupported("argument of a graph query")
        need("graphs are asked for blocks of their own task", Tk(b.t) == self.tt)
        return b.t

    def upstream(self, b):
        x = self.node(b)
        return blocks(lambda y: A(UpIn(x, y)))

    def downstream(self, b):
        x = self.node(b)
        return blocks(lambda y: A(UpIn(y, x)))

    def get_subgraph_blocks(self, *a, **kw):
        v = GraphView.sig["get_subgraph_blocks"].bind(None, *a, **kw)
        v.apply_defaults()
        roi, read = list(v.arguments.values())[1:]
        if not isinstance(roi, RoiOf) or not isinstance(read, bool):
            raise Unsupported("argument of get_subgraph_blocks")
        k = roi.kind[0] + ("r" if read else "w")
        x = roi.n
        rel = (lambda y: WR(y, x)) if k == "rw" else (lambda y: WR(x, y)) if k == "wr" else (lambda y: Other[k](x, y))
        return blocks(lambda y: A(Tk(y) == self.tt, rel(y)))

    def num_roots(self):
        return SymInt(NRoots(self.tt))

    def root_gen(self):
        return blocks(lambda y: A(Tk(y) == self.tt, root(y)))


def root(x):
    return N(exists([Node], lambda y: UpIn(x, y)))


def make_graph(*a, **kw):
    v = GraphView.sig["__init__"].bind(None, *a, **kw)
    v.apply_defaults()
    args = {k: x for k, x in list(v.arguments.items())[1:] if x is not None}
    t = args.get("task_id")
    if not isinstance(t, SymTask) or set(args) - set(ATTRS):
        raise Unsupported("arguments of BlockwiseDependencyGraph")
    for k, n in ATTRS.items():
        x = args.get(k)
        if k == "task_id":
            continue
        if not isinstance(x, Attr):
            need("every graph is made from the parameters of its task", False) if x is None else None
            raise Unsupported("argument of BlockwiseDependencyGraph")
        need("every graph is made from the parameters of its task", A(z3.BoolVal(x.n == n), x.t == t.t))
    return GraphView(t.t)


# -------------------------------------------------------------- dictionaries
class Row(NSet):
    """the set of tasks a dictionary holds for task k"""

    def __init__(self, rel, k):
        self.__dict__.update(rel=rel, k=k, name=rel.name, sorts=(TaskS,), rng=Bool, wrap=SymTask, stamp=rel.stamp)

    @property
    def val(self):
        r, k = self.rel.val, self.k
        return lambda x: r(k, x)

    def put(self, val, kind="loc"):
        old, k = self.rel.val, self.k
        self.rel.put(lambda a, b: z3.If(a == k, val(b), old(a, b)), kind)

    def like(self, val, name=None):
        return NSet(name or self.name, val, TaskS, SymTask)

    def sub(self, m):
        return Row(self.rel, z3.substitute(self.k, *m) if m else self.k)


class D(Sym):
    """dictionary with task ids as keys and (sets of) task ids, tasks, graphs or initial blocks as values"""

    def __init__(self, default=False, name="dict"):
        self.__dict__.update(kind=None, default=default, has=Loc(name, [TaskS], Bool, lambda t: FALSE))
        self.__dict__.update(rel=Loc(name + " sets", [TaskS, TaskS], Bool, lambda t, u: FALSE), gen=Loc(name + " blocks", [
            TaskS, Node], Bool, lambda t, x: FALSE), good=Loc(name + " counts", [TaskS], Bool, lambda t: TRUE))
        E.locs.extend([self.has, self.rel, self.gen, self.good])

    def sub(self, m):
        return self

    def view(self, t):
        if self.kind == "rel" or self.default:
            return Row(self.rel, t)
        if self.kind == "task":
            return TaskV(t)
        if self.kind == "graph":
            return GraphView(t)
        raise Unsupported("value of a dictionary")

    def dv_contains(self, k):
        return SymBool(self.has.at(tkey(k)))

    def __getitem__(self, k):
        t = tkey(k)
        if not bool(self.dv_contains(k)):
            if not self.default:
                raise KeyError(k)
            self.has.store([t], TRUE)
            self.rel.put(empty_row(self.rel.val, t))
        return self.view(t)

    def setdefault(self, k, d=None):
        if not bool(self.dv_contains(k)):
            self[k] = d
        return self.view(tkey(k))

    def get(self, k, d=None):
        return self.view(tkey(k)) if bool(self.dv_contains(k)) else d

    def __setitem__(self, k, v):
        t = tkey(k)
        if isinstance(v, (TaskV, GraphView)):
            kind = "task" if isinstance(v, TaskV) else "graph"
            need("every entry of a dictionary belongs to its task", v.tt == t)
        elif isinstance(v, (NSet, set)) or isinstance(v, DList):
            kind = "rel"
            p = fol.membership(v, TaskS) if not isinstance(v, set) or not v else None
            if p is None:
                raise Unsupported("set of tasks")
            old = self.rel.val
            self.rel.put(lambda a, b: z3.If(a == t, p(b), old(a, b)))
        elif isinstance(v, tuple) and len(v) == 2:
            kind = "roots"
            p, ok = gen_of(t, v)
            old = self.gen.val
            self.gen.put(lambda a, x: z3.If(a == t, p(x), old(a, x)))
            self.good.store([t], ok)
        else:
            raise Unsupported("value of a dictionary")
        if self.kind not in (None, kind):
            raise Unsupported("mixed dictionary")
        self.__dict__["kind"] = kind
        self.has.store([t], TRUE)

    def _coll(self, f):
        t = E.const("task", TaskS)
        return Coll([Case([t], [self.has.at(t)], f(t))], unique=True)

    def items(self):
        return self._coll(lambda t: (SymTask(t), self.view(t)))

    def keys(self):
        return self._coll(SymTask)

    def values(self):
        return self._coll(self.view)

    def dv_segments(self):
        return [("coll", self.keys())]

    def dv_len(self):
        return coll.CollLen(self.keys())

    def __bool__(self):
        return bool(SymBool(exists([TaskS], lambda t: self.has.at(t))))


def empty_row(old, t):
    return lambda a, b: z3.If(a == t, FALSE, old(a, b))


def gen_of(t, v):
    """(members of the generator, does the number fit)"""
    n, g = v
    p = fol.membership(g, Node)
    if isinstance(n, coll.FormalSum):
        ps = [x for x in n.parts if not (isinstance(x, int) and x == 0)]
        n = ps[0] if len(ps) == 1 else n
    if isinstance(n, coll.CollLen):
        q = fol.membership(n.c, Node)
        return p, forall([Node], lambda x: p(x) == q(x))
    if isinstance(n, int):
        if n == 0:
            return p, forall([Node], lambda x: N(p(x)))
        return p, FALSE
    if isinstance(n, SymInt):
        # the number of initial blocks of a task: NRoots
        u = E.fresh("task", TaskS)
        if not z3.is_app(n.e) or n.e.decl().name() != "NumRoots":
            raise Unsupported(f"number of initial blocks {type(n).__name__} {n}")
        u = n.e.arg(0)
        return p, forall([Node], lambda x: p(x) == A(Tk(x) == u, root(x)))
    raise Unsupported(f"number of initial blocks {type(n).__name__} {n}")


def mkdict_rule(x):
    if isinstance(x, (tuple, list, dict)) and not x:
        return D()
    if isinstance(x, (Coll, DList)):
        d = D()
        cs = cases_of(x)
        if len(cs) == 1 and isinstance(cs[0].value, tuple) and len(cs[0].value) == 2 and isinstance(cs[0].value[0], SymTask):
            c = cs[0]
            k, v = c.value
            if len(c.binders) != 1 or not c.binders[0].eq(k.t):
                return NotImplemented
            m = fol.case_member(Case(c.binders, c.entries, k), TaskS)
            at_ = lambda t: vsub(v, [(k.t, t)])
            d.has.val = m
            if isinstance(v, (TaskV, GraphView)):
                d.__dict__["kind"] = "task" if isinstance(v, TaskV) else "graph"
                need("every entry of a dictionary belongs to its task", forall([TaskS], lambda t: I(m(t), at_(t).tt == t)))
                return d
            if isinstance(v, tuple) and len(v) == 2:
                d.__dict__["kind"] = "roots"
                d.gen.val = lambda t, x: gen_of(t, at_(t))[0](x)
                d.good.val = lambda t: gen_of(t, at_(t))[1]
                return d
            if isinstance(v, (NSet, DList, Coll)):
                d.__dict__["kind"] = "rel"
                d.rel.val = lambda t, u: fol.membership(at_(t), TaskS)(u)
                return d
    return NotImplemented


class Collections:
    def __init__(self, real):
        self.real = real

    @staticmethod
    def defaultdict(f=None, *a):
        if a:
            raise Unsupported("defaultdict with entries")
        try:
            v = f()
        except Exception:
            raise Unsupported("defaultdict")
        if not isinstance(v, (NSet, set)):
            raise Unsupported("defaultdict of something else than sets")
        return D(True)

    def __getattr__(self, k):
        raise Unsupported(f"collections.{k}")


# ----------------------------------------------------------------------- setup
def enable(prop, where):
    fol.enable(lambda: NSet("set", lambda x: FALSE, TaskS, SymTask))
    E.mkdict_rule = mkdict_rule
    E.standard = lambda nodes, tasks: []
    E.templates = [templates]
    E.own_templates = False
    E.empty_bag = lambda n: fol.NBag(n, None, TaskS, TaskV)
    E.locs = []
    H.prop, H.where = prop, where
    SymNode.attrs = dict(block_id=lambda n: SymBid(n.t), task_id=lambda n: SymTask(Tk(n.t)),
                         read_roi=lambda n: RoiOf("read", n.t), write_roi=lambda n: RoiOf("write", n.t))


def facts():
    E.assume(forall([Node], lambda x: IsTask(Tk(x))))
    E.assume(forall([Node, Node], lambda x, y: I(UpIn(x, y), Tk(x) == Tk(y))))
    E.assume(forall([TaskS], lambda t: N(Req(t, t))))  # no task requires itself
    E.assume(forall([TaskS], lambda t: I(Given(t), IsTask(t))))
    E.assume(forall([TaskS, TaskS], lambda t, u: I(A(IsTask(t), Req(t, u)), IsTask(u))))
    E.assume(forall([TaskS, Node], lambda u, x: I(Covers(u, Tk(x)), exists([Node], lambda y: A(Tk(y) == u, WR(y, x))))))


def module():
    import daisy.dependency_graph as dg

    if GraphView.sig is None:
        G = dg.BlockwiseDependencyGraph
        GraphView.sig = {k: inspect.signature(vars(G)[k]) for k in ("__init__", "get_subgraph_blocks")}
        cut_recursion(dg)
    return dg


FIELDS = ("task_map", "upstream_tasks", "downstream_tasks", "task_dependency_graphs")


def built(prove=False):
    """a graph of the given tasks; with prove: __init__ is verified, otherwise its contract is used"""
    dg = module()
    E.locs = []
    facts()
    H.current = None
    with patched(dg, collections=Collections(None), BlockwiseDependencyGraph=make_graph):
        with fol.muted() if not prove else contextlib.nullcontext():
            with no_raise(f"{H.prop}/__init__: never raises"):
                g0 = E.const("given", TaskS)
                tasks = DList()
                tasks.segs = [("coll", Coll([Case([g0], [Given(g0)], TaskV(g0))], unique=True))]
                g = H.current = dg.DependencyGraph.__new__(dg.DependencyGraph)
                g.__init__(tasks)
    ks = {k for k in g.__dict__ if not k.startswith("_dv_")}
    if ks != set(FIELDS) or not all(isinstance(g.__dict__[k], D) for k in FIELDS):
        raise Unsupported("fields of DependencyGraph")
    return g


def contract(g):
    """(name, formula): what __init__ promises"""
    m, ut, dt, gr = (g.__dict__[k] for k in FIELDS)
    t2 = [TaskS, TaskS]
    return [
        ("exactly the given tasks and all they require are known", forall([TaskS], lambda t: m.has.at(t) == IsTask(t))),
        ("every known task has its graph", forall([TaskS], lambda t: gr.has.at(t) == m.has.at(t))),
        ("every known task has an entry for its upstream and downstream tasks", forall([TaskS], lambda t: A(
            ut.has.at(t) == m.has.at(t), dt.has.at(t) == m.has.at(t)))),
        ("upstream tasks are exactly the required ones", forall(t2, lambda t, u: ut.rel.at(t, u) == A(m.has.at(t), Req(t, u)))),
        ("downstream tasks are exactly those that require the task", forall(t2, lambda u, t: dt.rel.at(u, t) == A(
            m.has.at(t), Req(t, u))))]


def state(g):
    """puts the graph in the state that __init__ promises"""
    m, ut, dt, gr = (g.__dict__[k] for k in FIELDS)
    for d, k in ((m, "task"), (ut, "rel"), (dt, "rel"), (gr, "graph")):
        d.__dict__["kind"] = k
        d.has.put(lambda t: IsTask(t))
    ut.rel.put(lambda t, u: A(IsTask(t), Req(t, u)))
    dt.rel.put(lambda u, t: A(IsTask(t), Req(t, u)))
    g.__dict__.pop("_dv_built", None)
    return g


def templates(lp, v0, sets, svars):
    out = []
    g = H.current
    if g is None:
        return out
    ds = [g.__dict__.get(k) for k in FIELDS]
    if H.roots is not None:
        d = H.roots
        h, q, k = d.has, d.gen, d.good
        if any(l is h for l in lp.hv_locs) and lp.case is not None and lp.case.binders[0].sort() == TaskS:
            h0, q0, k0 = v0[h], v0[q], v0[k]
            out.append(("other tasks unchanged", lambda v: forall([TaskS], lambda t: I(N(v.done(t)), A(
                v[h](t) == h0(t), v[k](t) == k0(t), forall([Node], lambda x: v[q](t, x) == q0(t, x)))))))
            out.append(("present tasks unchanged", lambda v: forall([TaskS], lambda t: I(h0(t), A(
                v[h](t), v[k](t) == k0(t), forall([Node], lambda x: v[q](t, x) == q0(t, x)))))))
            out.append(("visited tasks have their initial blocks", lambda v: forall([TaskS, Node], lambda t, x: I(
                v.done(t), A(v[h](t), v[q](t, x)) == A(Tk(x) == t, N(exists([Node], lambda y: U(x, y))))))))
            out.append(("numbers fit", lambda v: forall([TaskS], lambda t: I(v[h](t), v[k](t)))))
        return out
    if any(d is None for d in ds[:3]):
        return out
    m, ut, dt = ds[:3]
    m, utr, uth, dtr, dth = m.has, ut.rel, ut.has, dt.rel, dt.has
    m0, ur0, uh0, dr0, dh0 = (v0[l] for l in (m, utr, uth, dtr, dth))
    new = lambda v, a, base: A(v[m](a), N(base(a)))
    t2 = [TaskS, TaskS]
    out.append(("known tasks stay known", lambda v: forall([TaskS], lambda t: I(m0(t), v[m](t)))))
    out.append(("only tasks of the run", lambda v: forall([TaskS], lambda t: I(v[m](t), IsTask(t)))))
    out.append(("entries of known tasks", lambda v: forall([TaskS], lambda t: A(v[uth](t) == v[m](t), v[dth](t) == v[m](t)))))
    out.append(("no entries of unknown tasks", lambda v: forall(t2, lambda t, u: I(N(v[m](t)), A(N(v[utr](t, u)), N(v[dtr](
        t, u)), N(v[dtr](u, t)))))))
    if H.frame is not None:
        t, base, ub, db = H.frame
        done = (lambda v, u: v.done(u)) if lp.case is not None else (lambda v, u: FALSE)
        out.append(("required by new tasks", lambda v: forall(t2, lambda a, b: I(A(new(v, a, base), a != t, Req(a, b)), v[m](
            b)))))
        out.append(("required so far", lambda v: forall([TaskS], lambda b: I(done(v, b), v[m](b)))))
        out.append(("the task is known", lambda v: v[m](t)))
        out.append(("upstream tasks", lambda v: forall(t2, lambda a, b: v[utr](a, b) == z3.If(a == t, done(v, b), z3.If(new(
            v, a, base), Req(a, b), ub(a, b))))))
        out.append(("downstream tasks", lambda v: forall(t2, lambda b, a: v[dtr](b, a) == z3.If(a == t, done(v, b), z3.If(new(
            v, a, base), Req(a, b), db(b, a))))))
        # variants of the order of steps
        out.append(("all upstream tasks", lambda v: forall(t2, lambda a, b: v[utr](a, b) == z3.If(new(
            v, a, base), Req(a, b), ub(a, b)))))
    else:
        out.append(("required by known tasks", lambda v: forall(t2, lambda a, b: I(A(v[m](a), Req(a, b)), v[m](b)))))
        out.append(("upstream tasks", lambda v: forall(t2, lambda a, b: v[utr](a, b) == A(v[m](a), Req(a, b)))))
        out.append(("downstream tasks", lambda v: forall(t2, lambda b, a: v[dtr](b, a) == A(v[m](a), Req(a, b)))))
        if lp.case is not None and lp.case.binders[0].sort() == TaskS:
            out.append(("visited tasks are known", lambda v: forall([TaskS], lambda t: I(v.done(t), v[m](t)))))
        gr = ds[3]
        if gr is not None and lp.case is not None and lp.case.binders[0].sort() == TaskS:
            out.append(("visited tasks have graphs", lambda v: forall([TaskS], lambda t: v[gr.has](t) == v.done(t))))
    return out


H.roots = None


# ------------------------------------------------------------------- recursion
def cut_recursion(dg):
    C = dg.DependencyGraph
    import ast

    def mangled(n):
        return "_DependencyGraph" + n if n.startswith("__") and not n.endswith("__") else n

    tree = next(c for c in ast.parse(open(dg.__file__).read()).body if isinstance(c, ast.ClassDef) and c.name == "DependencyGraph")
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            k = mangled(f.name)
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and mangled(n.func.attr) == k and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(f)):
                setattr(C, k, recursive(vars(C)[k]))


def recursive(f):
    """Contract: afterwards the task and everything required by the tasks that were added is known; the new tasks have
    exactly their required tasks as upstream tasks (and vice versa), the entries of the other tasks are unchanged."""
    def locs(self):
        m, ut, dt = (self.__dict__.get(k) for k in FIELDS[:3])
        if not all(isinstance(d, D) for d in (m, ut, dt)):
            raise Unsupported("fields of DependencyGraph")
        return m.has, ut.rel, dt.rel, ut.has, dt.has

    t2 = [TaskS, TaskS]

    def pre(ls):
        m, ur, dr, uh, dh = ls
        return A(forall([TaskS], lambda a: A(I(m.at(a), IsTask(a)), uh.at(a) == m.at(a), dh.at(a) == m.at(a))), forall(
            t2, lambda a, b: A(I(N(m.at(a)), A(N(ur.at(a, b)), N(dr.at(a, b)), N(dr.at(b, a)))))))

    def post(ls, t, m0, u0, d0):
        m, ur, dr, uh, dh = ls
        new = lambda a: A(m.at(a), N(m0(a)))
        return [("the task is known", m.at(t)), ("known tasks stay known", forall([TaskS], lambda a: I(m0(a), m.at(a)))),
                ("only tasks of the run", pre(ls)),
                ("required tasks are known", forall(t2, lambda a, b: I(A(new(a), Req(a, b)), m.at(b)))),
                ("upstream tasks", forall(t2, lambda a, b: ur.at(a, b) == z3.If(new(a), Req(a, b), u0(a, b)))),
                ("downstream tasks", forall(t2, lambda b, a: dr.at(b, a) == z3.If(new(a), Req(a, b), d0(b, a))))]

    def call(self, *a, **kw):
        if kw or len(a) != 1 or not isinstance(a[0], TaskV):
            raise Unsupported("recursive method")
        t = a[0].t
        H.current = self
        ls = locs(self)
        m0, u0, d0 = (l.val for l in ls[:3])
        E.prove(f"{H.prop}/__add_task: is called for tasks of the run, with consistent entries", A(IsTask(t), pre(ls)))

        def havoc():
            for l in ls:
                l.put(l.fresh_val())
            for _, p in post(ls, t, m0, u0, d0):
                E.assume(p)

        for k in FIELDS[:3]:
            self.__dict__[k].__dict__["kind"] = "task" if k == "task_map" else "rel"
        if not H.inside:
            # verified once for an arbitrary state, then used by its contract
            H.inside = True
            old, H.frame = H.frame, None
            try:
                def body():
                    for l in ls:
                        l.put(l.fresh_val())
                    E.assume(pre(ls))
                    ms, us, ds = (l.val for l in ls[:3])
                    H.frame = (t, ms, us, ds)
                    with no_raise(f"{H.prop}/__add_task: never raises"):
                        f(self, a[0])
                    for n, p in post(ls, t, ms, us, ds):
                        E.prove(f"{H.prop}/__add_task: {n}", p)
                E.explore(body)
            finally:
                H.inside = False
                H.frame = old
        havoc()

    return call


# -------------------------------------------------------------------- contracts
def construct(prop):
    enable(prop, "__init__")

    def path():
        g = built(True)
        c = contract(g)
        m = g.task_map.has
        closed = A(forall([TaskS], lambda t: I(Given(t), m.at(t))), forall([TaskS, TaskS], lambda t, u: I(A(m.at(t), Req(
            t, u)), m.at(u))))
        need("the given tasks and all tasks required by known tasks are known", closed)
        # IsTask is the smallest such set
        E.assume(I(closed, forall([TaskS], lambda t: I(IsTask(t), m.at(t)))))
        for n, f in c:
            need(n, f)
        E.cover("constructed")

    E.explore(path)


def once(name, r):
    cs = cases_of(r)
    for i, c in enumerate(cs):
        for j, d in enumerate(cs[:i + 1]):
            if i == j and (not c.binders or len(c.binders) == 1 and c.value.t.eq(c.binders[0])):
                continue
            with E.scope():
                b1, e1, v1 = c.fresh(lambda n, s: E.fresh(n, s))
                b2, e2, v2 = d.fresh(lambda n, s: E.fresh(n, s))
                E.assume_all(fol.plain(e1) + fol.plain(e2))
                if i == j:
                    E.assume(O(*[x != y for x, y in zip(b1, b2)]))
                E.prove(name, v1.t != v2.t)
    E.ok(name)


def query(prop, down=False):
    what = "downstream" if down else "upstream"
    enable(prop, what)

    def path():
        g = state(built())
        x = E.fresh("x", Node)
        dg = module()
        with patched(dg, collections=Collections(None), BlockwiseDependencyGraph=make_graph):
            with no_raise(f"{prop}/{what}: never raises"):
                r = g.downstream(SymNode(x)) if down else g.upstream(SymNode(x))
        p = fol.membership(r, Node)
        y = E.fresh("y", Node)
        spec = U(y, x) if down else U(x, y)
        need("every reported block is a dependency within the task or overlaps a block of a required task", I(p(y), spec))
        need("every such block is reported", I(spec, p(y)))
        once(f"{prop}/{what}: no block is reported twice", r)
        for n, f in contract(g)[1:]:
            need("the graph is not changed", f)
        E.cover("query")

    E.explore(path)


def upstream(prop):
    query(prop)


def downstream(prop):
    query(prop, True)


def roots(prop):
    """roots: every task of the run with its blocks that have no upstream block"""
    enable(prop, "roots")

    def path():
        g = state(built())
        H.current = g
        dg = module()
        made = []

        def mk(x):
            d = mkdict_rule(x)
            if isinstance(d, D):
                H.roots = d
            return d

        E.mkdict_rule = mk
        g.__dict__["upstream"] = lambda b: blocks(lambda y: U(node(b), y))
        try:
            with patched(dg, collections=Collections(None), BlockwiseDependencyGraph=make_graph):
                with no_raise(f"{prop}/roots: never raises"):
                    r = g.roots()
        finally:
            E.mkdict_rule = mkdict_rule
            H.roots = None
        if not isinstance(r, D) or r.kind not in (None, "roots"):
            raise Unsupported("result of roots")
        t, x = E.fresh("t", TaskS), E.fresh("x", Node)
        avail = A(r.has.at(t), r.gen.at(t, x))
        spec = A(Tk(x) == t, N(exists([Node], lambda y: U(x, y))))
        need("only tasks of the run are reported", I(r.has.at(t), IsTask(t)))
        need("every block that is available initially has no upstream block", I(avail, spec))
        need("every block without upstream blocks is available initially", I(A(IsTask(t), spec), avail))
        need("the announced number is that of the generated blocks", I(r.has.at(t), r.good.at(t)))
        E.cover("roots")

    E.explore(path)


def node(b):
    if not isinstance(b, SymNode):
        raise Unsupported("argument of upstream")
    return b.t


def counts(prop):
    """num_blocks, num_roots, root_gen and task_ids are those of the task"""
    enable(prop, "num_blocks")

    def path():
        g = state(built())
        t = E.fresh("t", TaskS)
        E.assume(IsTask(t))
        with no_raise(f"{prop}/num_blocks: never raises"):
            n = g.num_blocks(SymTask(t))
        need("is the number of blocks of the task", n == SymInt(Total(t)))
        H.where = "task_ids"
        with no_raise(f"{prop}/task_ids: never raises"):
            ids = fol.membership(g.task_ids, TaskS)
        need("are the tasks of the run", forall([TaskS], lambda u: ids(u) == IsTask(u)))
        E.cover("counts")

    E.explore(path)
