"""First-order state: symbolic sets/maps over uninterpreted sorts, and loops with inferred invariants.

A loop over a symbolic collection (or a while loop) that modifies such state is verified by the usual rule: its
invariant holds initially, every iteration on a generic element preserves it, and it is assumed afterwards. The
invariant is the largest inductive subset of a set of candidate formulas (class invariants and templates over the sets
and maps in scope, independent of how the loop is written).
"""
import contextlib
import z3
from .core import E, Unsupported, Infeasible, Control, Def, NONDET, Nondet, MARK, stages, limits, e_sub, check_engine_error
from .sym import Sym, SymBool, SymInt, SymVal, vsub, not_, zi
from . import coll, dset
from .coll import Case, Coll, DList, CollLen, segments, BRK, Ret, UNBOUND, STALE

Node = z3.DeclareSort("Node")
TaskS = z3.DeclareSort("Task")
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class SymTask(Sym):
    """a task id"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return SymTask(z3.substitute(self.t, *m) if m else self.t)

    def __eq__(self, o):
        if isinstance(o, SymTask):
            return SymBool(self.t == o.t)
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__


class SymNode(Sym):
    """A block (by identity). Layers define its attributes."""

    attrs = {}

    def __init__(self, t):
        self.__dict__["t"] = t
        E.stamp += 1
        self.__dict__["stamp"] = E.stamp

    def sub(self, m):
        n = SymNode(z3.substitute(self.t, *m) if m else self.t)
        n.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ("t", "stamp")})
        return n

    def __eq__(self, o):
        if isinstance(o, SymNode):
            return SymBool(self.t == o.t)
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __getattr__(self, k):
        f = SymNode.attrs.get(k)
        if f is not None:
            return f(self)
        if k in ("started_processing", "stopped_processing"):
            # anyone may have set these: never set, or some time
            v = self.__dict__[k] = (None, 1.0)[E.choose(2, f"{k} set")]
            return v
        return Sym.__getattr__(self, k)

    def dv_setattr(self, k, v):
        old = self.__dict__.get(k, UNBOUND)
        self.__dict__[k] = v

        def undo():
            if old is UNBOUND:
                self.__dict__.pop(k, None)
            else:
                self.__dict__[k] = old

        E.effect("attr", NodeAttr(self), None, undo)

    __setattr__ = dv_setattr
    __hash__ = Sym.__hash__


class NodeAttr:
    """effects on attributes of a block object concern this object only"""

    def __init__(self, n):
        self.stamp = n.stamp


# ------------------------------------------------------------------ locations
class Loc(Sym):
    """A mutable function of z3 terms."""

    def __init__(self, name, sorts, rng, val=None):
        self.name, self.sorts, self.rng = name, tuple(sorts), rng
        E.stamp += 1
        self.stamp = E.stamp
        self.val = val if val is not None else self.fresh_val()

    def fresh_val(self, name=None):
        E.counter += 1
        f = z3.Function(f"{name or self.name}!{E.counter}", *self.sorts, self.rng)
        return lambda *a: f(*a)

    def put(self, val, kind="loc"):
        old = self.val
        self.val = val

        def undo():
            self.val = old

        E.effect(kind, self, None, undo)

    def at(self, *keys):
        return self.val(*keys)

    def store(self, keys, v):
        old = self.val
        keys = tuple(keys)
        if not keys:
            self.put(lambda: v)
            return
        self.put(lambda *a: z3.If(z3.And(*[x == k for x, k in zip(a, keys)]), v, old(*a)))

    def __hash__(self):
        return id(self)

    def lp_havoc(self, s):
        raise Unsupported("state modified in a loop of this kind")

    lp_apply = None


class NSet(Loc):
    """A set of blocks."""

    exact = True  # remove/pop take out every occurrence

    def __init__(self, name="set", val=None, sort=None, wrap=None):
        super().__init__(name, [sort if sort is not None else Node], z3.BoolSort(), val)
        self.wrap = wrap or (SymNode if self.sorts[0] == Node else SymTask)

    def like(self, val, name=None):
        n = type(self)(name or self.name, val, self.sorts[0], self.wrap)
        return n

    def sub(self, m):
        if not m:
            return self
        v = self.val
        return self.like(lambda x: z3.substitute(v(x), *m))

    def term(self, x):
        t = getattr(x, "t", None)
        if t is None or t.sort() != self.sorts[0]:
            raise Unsupported(f"element of a set of {self.sorts[0]}: {x!r}")
        return t

    def dv_contains(self, x):
        return SymBool(z3.simplify(self.val(self.term(x))))

    def add(self, x):
        self.store([self.term(x)], TRUE)

    append = add

    def discard(self, x):
        if self.exact:
            self.store([self.term(x)], FALSE)
        else:
            t = self.term(x)
            b = E.fresh("again", z3.BoolSort())
            old = self.val
            self.put(lambda y: z3.If(y == t, z3.And(old(y), b), old(y)))

    def remove(self, x):
        if not bool(SymBool(self.val(self.term(x)))):
            raise (KeyError if self.exact else ValueError)(x)
        self.discard(x)

    def pick(self):
        if not bool(self.dv_nonempty()):
            raise (KeyError if self.exact else IndexError)("pop from an empty collection")
        t = E.fresh("elem", self.sorts[0])
        E.assume(self.val(t))
        return self.wrap(t)

    def pop(self, *a):
        x = self.pick()
        self.discard(x)
        return x

    popleft = pop

    def members(self, o):
        """membership predicate of any collection"""
        return membership(o, self.sorts[0])

    def update(self, *os):
        for o in os:
            p, old = self.members(o), self.val
            self.put(lambda x, p=p, old=old: z3.Or(old(x), p(x)))

    extend = update

    def union(self, *os):
        ps = [self.val] + [self.members(o) for o in os]
        return self.like(lambda x: z3.Or(*[p(x) for p in ps]))

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__
    __add__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    __iadd__ = __ior__

    def difference(self, *os):
        v, ps = self.val, [self.members(o) for o in os]
        return self.like(lambda x: z3.And(v(x), *[z3.Not(p(x)) for p in ps]))

    def __sub__(self, o):
        return self.difference(o)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def difference_update(self, *os):
        self.put(self.difference(*os).val)

    def intersection(self, *os):
        v, ps = self.val, [self.members(o) for o in os]
        return self.like(lambda x: z3.And(v(x), *[p(x) for p in ps]))

    def __and__(self, o):
        return self.intersection(o)

    def isdisjoint(self, o):
        p, v = self.members(o), self.val
        return SymBool(forall([self.sorts[0]], lambda x: z3.Not(z3.And(p(x), v(x)))))

    def issubset(self, o):
        p, v = self.members(o), self.val
        return SymBool(forall([self.sorts[0]], lambda x: z3.Implies(v(x), p(x))))

    __le__ = issubset

    def issuperset(self, o):
        p, v = self.members(o), self.val
        return SymBool(forall([self.sorts[0]], lambda x: z3.Implies(p(x), v(x))))

    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (NSet, dset.DSet)):
            return False
        p, v = self.members(o), self.val
        return SymBool(forall([self.sorts[0]], lambda x: p(x) == v(x)))

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def clear(self):
        self.put(lambda x: FALSE)

    def copy(self):
        return self.like(self.val)

    def dv_copy(self):
        return self.copy()

    def coll(self):
        x = E.const("n", self.sorts[0])
        return Coll([Case([x], [self.val(x)], self.wrap(x))], unique=self.exact)

    def dv_segments(self):
        return [("coll", self.coll())]

    def dv_nonempty(self):
        return SymBool(exists([self.sorts[0]], lambda x: self.val(x)))

    def dv_len(self):
        return CollLen(self.coll())

    def __bool__(self):
        return bool(self.dv_nonempty())

    def dv_isinstance(self, t):
        from . import rt

        if t is rt.mkset:
            return self.exact
        if t is rt.b_list:
            return not self.exact
        return NotImplemented


class NBag(NSet):
    """A list/deque of blocks of which only the members are known."""

    exact = False

    appendleft = NSet.add
    extendleft = NSet.update

    def insert(self, i, x):
        self.add(x)

    head = None

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            if self.head is None or self.head[0] is not self.val:
                self.head = (self.val, self.pick())
            return self.head[1]
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            if self.head is None or self.head[0] is not self.val:
                raise Unsupported("tail of a list whose head is not known")
            n = self.like(self.val)
            n.discard(self.head[1])
            return n
        raise Unsupported("element of a list of unknown order")


def membership(o, sort):
    """x -> is x a member of the collection o"""
    if isinstance(o, NSet):
        return o.val
    parts = []
    for k, s in segments(o):
        if k == "item":
            t = getattr(s, "t", None)
            if t is None or t.sort() != sort:
                raise Unsupported("mixed collection")
            parts.append(lambda x, t=t: x == t)
        elif k in ("coll", "idx"):
            for c in coll.elems(s):
                parts.append(case_member(c, sort))
        else:
            raise Unsupported("axis list as set")
    return lambda x: z3.Or(*[p(x) for p in parts]) if parts else FALSE


def plain_entries(es):
    out = []
    for e in es:
        if isinstance(e, Def):
            e = e.e
        if isinstance(e, Nondet):
            continue
        if not isinstance(e, z3.ExprRef):
            raise Unsupported("entry over axes in a set")
        out.append(e)
    return out


def case_member(c, sort):
    t = getattr(c.value, "t", None)
    if t is None or t.sort() != sort:
        raise Unsupported("collection of other elements")
    es = plain_entries(c.entries)
    if len(c.binders) == 1 and c.binders[0].eq(t):
        return lambda x: z3.And(*[z3.substitute(e, (t, x)) for e in es]) if es else TRUE

    def p(x):
        bs = [E.const("m", b.sort()) for b in c.binders]
        m = list(zip(c.binders, bs))
        f = z3.And(z3.substitute(t, *m) == x, *[z3.substitute(e, *m) for e in es]) if m else z3.And(t == x, *es)
        return z3.Exists(bs, f) if bs else f

    return p


def forall(sorts, f, pat=None):
    if not sorts:
        return z3.simplify(f())
    E.counter += 1
    xs = [z3.Const(f"q!{E.counter}_{i}", s) for i, s in enumerate(sorts)]
    b = z3.simplify(f(*xs))
    if z3.is_true(b) or z3.is_false(b):
        return b
    return z3.ForAll(xs, b)


def exists(sorts, f):
    if not sorts:
        return z3.simplify(f())
    E.counter += 1
    xs = [z3.Const(f"q!{E.counter}_{i}", s) for i, s in enumerate(sorts)]
    b = z3.simplify(f(*xs))
    if z3.is_true(b) or z3.is_false(b):
        return b
    return z3.Exists(xs, b)


def mkset_rule(it):
    if isinstance(it, NSet):
        return NSet(it.name, it.val, it.sorts[0], it.wrap)
    segs = segments(it) if not isinstance(it, (set, frozenset, dict)) else []
    if not segs or all(k == "item" for k, _ in segs):
        vs = [v for _, v in segs]
        if vs and all(isinstance(v, (SymNode, SymTask)) for v in vs):
            w = type(vs[0])
            p = membership(it, vs[0].t.sort())
            return NSet("set", p, vs[0].t.sort(), w)
        if not vs and not isinstance(it, (set, frozenset, dict)) and E.fol_empty is not None:
            return E.fol_empty()
        return NotImplemented
    s = None
    for k, x in segs:
        v = x if k == "item" else coll.elems(x)[0].value
        if not isinstance(v, (SymNode, SymTask)):
            return NotImplemented
        s = v
    return NSet("set", membership(it, s.t.sort()), s.t.sort(), type(s))


# --------------------------------------------------------------------- solver
def enable(empty=None):
    """empty: what set() yields"""
    E.fol = True
    E.fol_loop = coll_loop
    E.fol_while = while_loop
    E.fol_empty = empty
    E.mkset_rule = mkset_rule
    E.templates = []
    E.mute = 0
    E.timeout_ms = 15000
    E.feas_ms = 400


@contextlib.contextmanager
def muted():
    E.mute += 1
    try:
        yield
    finally:
        E.mute -= 1


# ---------------------------------------------------------------------- loops
class View:
    """Readers of the state at one point of a loop: v(key) -> reader or value"""

    def __init__(self, vals, done, entry=None, count=None):
        self.vals, self.done, self.entry, self.count = vals, done, entry, count

    def __getitem__(self, k):
        return self.vals[id(k) if isinstance(k, Loc) else k]

    def get(self, k):
        return self.vals.get(id(k) if isinstance(k, Loc) else k)


def known_locs():
    return list(E.locs)


def rebound(v):
    """can this local be havoc'ed? returns a function making a fresh value"""
    if isinstance(v, NSet):
        return lambda n: v.like(None, n)
    if isinstance(v, dset.DSet) and not v.items and E.fol_empty:
        return lambda n: NSet(n)
    if isinstance(v, DList):
        if not v.segs:
            return E.empty_bag or NBag
        try:
            first = v.segs[0][1] if v.segs[0][0] == "item" else coll.elems(v.segs[0][1])[0].value
        except (IndexError, AttributeError):
            return None
        if isinstance(first, (SymNode, SymTask)) or (E.empty_bag and getattr(first, "t", None) is not None):
            srt, w = first.t.sort(), type(first)
            return lambda n: NBag(n, None, srt, w)
        return None
    if isinstance(v, (bool, SymBool)):
        return lambda n: SymBool(E.fresh(n, z3.BoolSort()))
    if isinstance(v, (int, SymInt)):
        return lambda n: SymInt(E.fresh(n))
    return None


def reader(v):
    """value of a local as something templates can read"""
    if isinstance(v, NSet):
        return v.val
    if isinstance(v, dset.DSet) and not v.items:
        return lambda x: FALSE
    if isinstance(v, DList):
        if not v.segs:
            return lambda x: FALSE
        f = v.segs[0][1] if v.segs[0][0] == "item" else coll.elems(v.segs[0][1])[0].value
        return membership(v, f.t.sort()) if isinstance(f, (SymNode, SymTask)) or (
            E.empty_bag and getattr(f, "t", None) is not None) else None
    if isinstance(v, (bool, SymBool)):
        return v.z() if isinstance(v, SymBool) else z3.BoolVal(v)
    if isinstance(v, (int, SymInt)):
        return zi(v)
    return None


class Loop:
    """the shared part of both loop rules"""

    def __init__(self, names, get, set_, elem=None, case=None):
        self.names, self.get, self.set_ = names, get, set_
        self.init = dict(zip(names, get()))
        self.case = case
        self.hv_locs, self.hv_vars = [], []  # modified state
        self.lists = []  # lists that are appended to (kept symbolically)
        self.stamp = E.stamp
        self.guards = {}  # under which condition an iteration modifies a location

    def snapshot(self, done, cnt, cur=None):
        vals = {}
        for l in self.hv_locs:
            vals[id(l)] = l.val
        cur = cur if cur is not None else dict(zip(self.names, self.get()))
        for n in self.hv_vars:
            vals[n] = reader(cur.get(n))
        for l in E.locs:
            vals.setdefault(id(l), l.val)
        return View(vals, done, None, cnt)

    def candidates(self, v0):
        """list of (name, formula of a View)"""
        out = []
        if E.own_templates and self.case is None:
            for t in E.templates:
                out.extend(t(self, v0, [], []))
            return out
        sets = [k for k in self.hv_locs if isinstance(k, NSet) and k.sorts[0] == Node]
        svars = [n for n in self.hv_vars if callable(v0.get(n))]
        for l in self.hv_locs:
            e = v0[l]
            out.append((f"{l.name} unchanged", lambda v, l=l, e=e: forall(l.sorts, lambda *x: v[l](*x) == e(*x))))
            if l.rng == z3.BoolSort():
                out.append((f"{l.name} grows", lambda v, l=l, e=e: forall(l.sorts, lambda *x: z3.Implies(e(*x), v[l](*x)))))
                out.append((f"{l.name} shrinks", lambda v, l=l, e=e: forall(l.sorts, lambda *x: z3.Implies(v[l](*x), e(*x)))))
                if self.case is not None and l.sorts == (self.case.binders[0].sort(),):
                    out.append((f"{l.name} changes at visited elements only", lambda v, l=l, e=e: forall(
                        l.sorts, lambda x: z3.Or(v[l](x) == e(x), v.done(x)))))
                    out.append((f"{l.name} gains the visited elements", lambda v, l=l, e=e: forall(
                        l.sorts, lambda x: v[l](x) == z3.Or(e(x), v.done(x)))))
                    g = self.guards.get(id(l))
                    if g is not None:
                        out.append((f"{l.name} gains visited elements", lambda v, l=l, e=e, g=g: forall(
                            l.sorts, lambda x: v[l](x) == z3.Or(e(x), z3.And(v.done(x), g(x))))))
                        out.append((f"{l.name} loses visited elements", lambda v, l=l, e=e, g=g: forall(
                            l.sorts, lambda x: v[l](x) == z3.And(e(x), z3.Not(z3.And(v.done(x), g(x)))))))
                    out.append((f"{l.name} loses the visited elements", lambda v, l=l, e=e: forall(
                        l.sorts, lambda x: v[l](x) == z3.And(e(x), z3.Not(v.done(x))))))
            elif l.rng == z3.IntSort():
                if l.sorts == (TaskS,) and self.case is not None:
                    for sg, w in ((1, "gains"), (-1, "loses")):
                        out.append((f"{l.name} {w} the number of visited elements", lambda v, l=l, e=e, sg=sg: forall(
                            l.sorts, lambda t: v[l](t) == e(t) + sg * v.count(t))))
                if l.sorts == (TaskS, Node) and self.case is not None and E.task_of is not None and \
                        self.case.binders[0].sort() == Node:
                    for sg, w in ((1, "gains"), (-1, "loses")):
                        out.append((f"{l.name} {w} the visited elements", lambda v, l=l, e=e, sg=sg: forall(
                            l.sorts, lambda t, x: v[l](t, x) == e(t, x) + sg * z3.If(z3.And(v.done(x), E.task_of(
                                x) == t), z3.IntVal(1), z3.IntVal(0)))))
                if self.case is not None and l.sorts == (self.case.binders[0].sort(),):
                    out.append((f"{l.name} counts visited elements", lambda v, l=l, e=e: forall(
                        l.sorts, lambda x: v[l](x) == e(x) + z3.If(v.done(x), 1, 0))))
        for n in self.hv_vars:
            e = v0.get(n)
            if callable(e):
                i = self.init.get(n)
                srt = i.sorts[0] if isinstance(i, NSet) else Node
                if isinstance(i, DList):
                    b = rebound(i)("x")
                    srt = b.sorts[0]
                out.append((f"{n} unchanged", lambda v, n=n, e=e, srt=srt: forall([srt], lambda x: v[n](x) == e(x))))
            elif isinstance(e, z3.ExprRef):
                out.append((f"{n} unchanged", lambda v, n=n, e=e: v[n] == e))
                if e.sort() == z3.IntSort():
                    out.append((f"{n} not negative", lambda v, n=n: v[n] >= 0))
        for t in E.templates:
            out.extend(t(self, v0, sets, svars))
        return out

    def havoc(self, kind="havoc"):
        """sets the state to an arbitrary one; returns the values of the locals"""
        for l in self.hv_locs:
            l.put(l.fresh_val("hv!" + l.name), kind)
        cur = dict(self.init)
        for n in self.names:
            if n in self.hv_vars:
                cur[n] = rebound(self.init[n])("hv!" + n)
            elif n in self.stale:
                cur[n] = STALE
        self.set_(*[cur[n] for n in self.names])
        return cur

    stale = ()

    def modifies(self, l):
        return any(l is x for x in self.hv_locs)

    def path_key(self):
        if self.pkey is None:
            E.frames[-1].loops += 1
            self.pkey = tuple((fr.xid, fr.loops, tuple(fr.taken)) for fr in E.frames)
        return self.pkey

    pkey = None

    def recall(self, key):
        """the result of learn on the same path; returns whether there is one"""
        hit = E.loop_cache.get(key)
        if hit is None:
            return False
        locs, hv, stale = hit
        locs = [E.locs[i] if k == "loc" else self.init[i] for k, i in locs]
        if not all(isinstance(l, Loc) for l in locs):
            return False
        self.hv_locs, self.hv_vars, self.stale = locs, list(hv), stale
        return True

    def remember(self, key):
        if self.lists or self.guards:
            return
        locs = []
        for l in self.hv_locs:
            i = next((("loc", i) for i, x in enumerate(E.locs) if x is l), None) or next(
                (("name", n) for n in self.names if self.init[n] is l), None)
            if i is None:
                return
            locs.append(i)
        E.loop_cache[key] = locs, list(self.hv_vars), tuple(self.stale)

    def learn(self, run):
        """determines the modified state; run() executes one iteration in the current state"""
        for _ in range(8):
            def thunk():
                cur = self.havoc()
                pre = {n: (v, v.val if isinstance(v, Loc) else None) for n, v in cur.items()}
                r = run()
                post = dict(zip(self.names, self.get()))
                ch = {n for n in self.names if post[n] is not cur[n] and not same_val(post[n], cur[n])}
                return r, ch
            nl, nv = [], []
            try:
                with muted():
                    outs = E.explore(thunk)
            except coll.NeedsBag as b:
                ns = [n for n in self.names if self.init[n] is b.obj]
                if not ns:
                    # only assigned before the loop: not among its names
                    raise
                for n in ns:
                    if n in self.hv_vars:
                        raise
                    self.hv_vars.append(n)
                continue
            for o in outs:
                if o.kind == "exc" or o.value[0] is not None:
                    continue  # leaves the loop: no further iteration sees its effects
                for e in o.effects:
                    ob = e.obj
                    if ob is None or e.kind in ("cache", "local", "havoc") or getattr(ob, "stamp", 0) > self.stamp:
                        continue
                    if isinstance(ob, Loc):
                        if not any(ob is x for x in nl):
                            nl.append(ob)
                    elif isinstance(ob, DList):
                        if not any(ob is x for x in nl):
                            nl.append(ob)
                    elif isinstance(ob, NodeAttr):
                        continue
                    elif isinstance(ob, dset.DSet) and not ob.items and any(self.init[n] is ob for n in self.names):
                        nv.extend(n for n in self.names if self.init[n] is ob)
                    else:
                        raise Unsupported(f"loop modifies {type(ob).__name__}")
                if o.kind == "ok" and o.value[0] is None:
                    nv.extend(o.value[1])
            new = False
            for l in nl:
                if isinstance(l, DList):
                    ns = [n for n in self.names if self.init[n] is l]
                    if self.case is None:
                        # the list is havoc'ed as a whole
                        if not ns:
                            raise Unsupported("list modified in a while loop")
                        nv.extend(ns)
                        continue
                    if not any(l is x for x in self.lists):
                        self.lists.append(l)
                        new = True
                elif not any(l is x for x in self.hv_locs):
                    self.hv_locs.append(l)
                    new = True
            for n in dict.fromkeys(nv):
                if n in self.hv_vars or n in self.stale:
                    continue
                new = True
                if self.init[n] is not UNBOUND and self.init[n] is not STALE and (
                        n not in self.noncarried or isinstance(self.init[n], (bool, SymBool))) and rebound(
                        self.init[n]) is not None:
                    self.hv_vars.append(n)
                else:
                    self.stale = tuple(self.stale) + (n,)
            if not new:
                return outs
        raise Unsupported("loop effects do not stabilise")

    noncarried = ()
    cached = False


def same_val(a, b):
    try:
        return coll.same(a, b)
    except Exception:
        return False


def infer(lp, v0, iteration, initial):
    """largest inductive subset of the candidates. iteration(cands) explores one iteration from the havoc'ed state and
    returns [(entries, View)]"""
    cands = lp.candidates(v0)
    # the same path is run again for every alternative after the loop: the result is the same
    key = lp.key = lp.path_key()
    if key is not None:
        hit = E.loop_cache.get(key)
        if hit is not None and hit[0] == [nm for nm, _ in cands]:
            lp.cached = True
            return [c for i, c in enumerate(cands) if i in hit[1]]
    E.loop_depth += 1
    try:
        keep = infer_(cands, iteration, initial)
    finally:
        E.loop_depth -= 1
    if key is not None:
        E.loop_cache[key] = ([nm for nm, _ in cands], {i for i, c in enumerate(cands) if any(c is k for k in keep)})
    return keep


def infer_(cands, iteration, initial):
    keep = []
    for c in cands:
        nm, f = c
        try:
            g = f(initial)
        except (KeyError, TypeError, AttributeError):
            continue
        if g is None:
            continue
        if valid(E.pc, g):
            keep.append(c)
    for _ in range(30):
        bad = set()
        for entries, view in iteration(keep):
            for i, (nm, f) in enumerate(keep):
                if i not in bad and not valid(E.pc + entries, f(view)):
                    bad.add(i)
        if not bad:
            return keep
        keep = [c for i, c in enumerate(keep) if i not in bad]
    raise Unsupported("no invariant found")


def valid(entries, goal, timeout=1500):
    if z3.is_true(goal):
        return True
    import time

    t0 = time.time()
    for facts, ms in [(f, timeout // 3) for f in stages(entries + [z3.Not(goal)])] + [
            (plain(entries) + [z3.Not(goal)], timeout)]:
        s = z3.Solver()
        limits(s, ms)
        s.add(*facts)
        E.stats["queries"] += 1
        r = s.check()
        if r == z3.unsat:
            break
    E.stats["solver_s"] += time.time() - t0
    if E.deadline and time.time() > E.deadline:
        raise Unsupported("time limit")
    return r == z3.unsat


def plain(es):
    out = []
    for e in es:
        if isinstance(e, Def):
            e = e.e
        if isinstance(e, Nondet):
            continue
        if isinstance(e, (list, tuple)):
            out.extend(plain(e))
        elif isinstance(e, z3.ExprRef):
            out.append(e)
        else:
            raise Unsupported(f"fact of kind {type(e).__name__}")
    return out


def coll_loop(s, body, names, carried, get, set_):
    """for x in <symbolic collection>"""
    cs = merged(coll.elems(s))
    if len(cs) != 1 or len(cs[0].binders) != 1 or cs[0].binders[0].sort() not in (Node, TaskS):
        return NotImplemented
    c = cs[0]
    x = c.binders[0]
    dom = z3.And(*plain(c.entries)) if c.entries else TRUE
    P = lambda y: z3.substitute(dom, (x, y))
    if E.unroll:
        # confirming a refutation: collections of up to two elements, iterated in any order
        E.unrolled += 1
        es = [E.const("u", c.binders[0].sort()) for _ in range(E.choose(3, "elements"))]
        for i, e in enumerate(es):
            for o in es[:i]:
                E.assume(e != o)
            E.assume(P(e))
        E.assume(forall([x.sort()], lambda y: P(y) == z3.Or(FALSE, *[y == e for e in es])))
        for e in es:
            E.gens.append(e)
            try:
                r = body(vsub(c.value, [(x, e)]))
            finally:
                E.gens.pop()
            if r is not None:
                return r
        return None
    lp = Loop(names, get, set_, case=c)
    lp.noncarried = tuple(n for n in names if n not in carried)
    srt = x.sort()
    st = {}

    def begin():
        """a generic iteration: visited elements, the element"""
        E.counter += 1
        D = z3.Function(f"done!{E.counter}", srt, z3.BoolSort())
        N = z3.Function(f"cnt!{E.counter}", TaskS, z3.IntSort())
        e = E.const("e", srt)
        E.gens.append(e)
        E.assume(forall([srt], lambda y: z3.Implies(D(y), P(y))))
        E.assume(P(e))
        E.assume(z3.Not(D(e)))
        return D, N, e

    def key_of(e):
        f = E.task_of
        return f(e) if f is not None and srt == Node else None

    # ---- learn what is modified
    def once():
        D, N, e = begin()
        return body(vsub(c.value, [(x, e)]))

    c0 = E.counter
    lkey = "learn", lp.path_key()
    known = lp.recall(lkey)
    louts = [] if known else lp.learn(once)
    for l in lp.hv_locs:
        if l.sorts != (srt,):
            continue
        alts = []
        for o in louts:
            if o.kind != "ok" or o.value[0] is not None or not any(f.obj is l and f.kind != "havoc" for f in o.effects):
                continue
            e = next((t for t in consts_of(o.entries) if t.sort() == srt and str(t).startswith("e!") and int(
                str(t)[2:]) > c0), None)
            ds = [d for d in plain(o.decisions) if not mentions_fresh(d, c0)]
            alts.append((e, z3.And(*ds) if ds else TRUE))
        if alts:
            lp.guards[id(l)] = lambda y, alts=alts: z3.Or(*[z3.substitute(d, (e, y)) if e is not None else d
                                                           for e, d in alts])
    if not known:
        lp.remember(lkey)
    zero = lambda *a: z3.IntVal(0)
    v0 = lp.snapshot(lambda y: FALSE, zero, lp.init)

    def iteration(cands, final=False, box=None):
        res = []

        seen = []
        heads = st["heads"] = {}

        def thunk():
            D, N, e = begin()
            seen.append(e)
            cur = lp.havoc()
            head = lp.snapshot(lambda y: D(y), lambda t: N(t), cur)
            heads[e.get_id()] = e, head
            for nm, f in cands:
                E.assume(f(head))
            r = body(vsub(c.value, [(x, e)]))
            if r is not None:
                return "leave", None, e
            k = key_of(e)
            v = lp.snapshot(lambda y: z3.Or(D(y), y == e),
                            (lambda t: N(t) + z3.If(t == k, 1, 0)) if k is not None else (lambda t: N(t)))
            return "next", v, e

        def run():
            return E.explore(thunk)

        if final:
            outs = run()
        else:
            with muted():
                outs = run()
        leave = False
        st["leaving"] = []
        for o in outs:
            if o.kind == "exc" or o.value[0] == "leave":
                leave = True
                e = o.value[2] if o.kind == "ok" else next((t for t in consts_of(o.entries) if any(
                    t.eq(y) for y in seen)), None)
                if e is not None:
                    st["leaving"].append((o, e))
                continue
            res.append((o.entries, o.value[1]))
        if final:
            box.extend(outs)
        st["leave"] = leave
        return res

    cands = infer(lp, v0, iteration, v0)
    outs = []
    st["c0"] = E.counter
    fkey = "final", lp.path_key()
    was = E.loop_cache.get(fkey)
    if was is not None and lp.cached and not lp.lists and (was[0] or E.mute):
        # checked before on the same path, and nothing of it is needed after the loop
        st["leave"], st["leaving"] = was[1], []
    else:
        iteration(cands, True, outs)
        E.loop_invariants.setdefault("for", []).append([nm for nm, _ in cands])
        if not lp.lists and not any(isinstance(lp.init[n], (int, SymInt)) for n in lp.hv_vars) and not any(leaving_fact(o, st["c0"]) is not None for o, e in st["leaving"]):
            E.loop_cache[fkey] = not E.mute, st["leave"]
    # ---- leaving early
    if st["leave"] and E.choose(2, "early exit") == 1:
        D, N, e = begin()
        E.gens.pop()
        cur = lp.havoc('loc')
        head = lp.snapshot(lambda y: D(y), lambda t: N(t), cur)
        for nm, f in cands:
            E.assume(f(head))
        for l in lp.lists:
            l.add_seg(("coll", coll.PartialColl([])))
        r = body(vsub(c.value, [(x, e)]))
        if r is None:
            raise Infeasible()
        return r
    if st["leave"]:
        # no element leaves the loop: every element takes one of the other paths
        for o, e in st["leaving"]:
            g = leaving_fact(o, st["c0"])
            if g is not None:
                E.assume(forall([srt], lambda y: z3.Implies(P(y), z3.Not(z3.substitute(g, (e, y))))))
    # ---- after the loop
    def element_guard(o, e):
        """the decisions of a path as conditions on the element and the state before the loop"""
        g = [d for d in plain(o.decisions)]
        if any(mentions_fresh(d, st["c0"]) for d in g):
            # what the loop does not change before it visits the element
            hd = st["heads"][e.get_id()][1]
            for q in lp.hv_locs:
                if q.sorts == (srt,) and valid(E.pc + o.entries, hd[q](e) == v0[q](e)):
                    g = [z3.substitute(d, (hd[q](e), v0[q](e))) for d in g]
        return g

    def counter(n):
        """a local that is incremented on some paths"""
        if E.total is None or not isinstance(v0.get(n), z3.ExprRef) or not outs:
            return STALE
        by = {}
        for o in outs:
            if o.kind == "exc" or o.value[0] == "leave":
                continue
            e = o.value[2]
            d = z3.simplify(o.value[1].vals[n] - st["heads"][e.get_id()][1].vals[n])
            g = element_guard(o, e)
            if not z3.is_int_value(d) or any(mentions_fresh(x, st["c0"]) for x in g):
                return STALE
            by.setdefault(d.as_long(), []).append((e, g))
        r = v0.get(n)
        for d, alts in by.items():
            if d:
                r = r + d * E.total(lambda y, alts=alts: z3.And(P(y), z3.Or(*[z3.And(*[z3.substitute(x, (
                    e, y)) for x in g]) if g else TRUE for e, g in alts])))
        return SymInt(z3.simplify(r))

    for l in lp.lists:
        cases, ok = [], True
        for o in outs:
            if o.kind == "exc" or o.value[0] == "leave":
                continue
            e = o.value[2]
            mine = [f for f in o.effects if f.obj is l]
            for f in mine:
                if f.kind != "append" or f.data[0] not in ("item", "coll"):
                    raise Unsupported("list is modified other than by appending elements")
                g = element_guard(o, e)
                for d in g:
                    if mentions_fresh(d, st["c0"]):
                        raise Unsupported("list built depending on modified state")
                m = [(e, x)]
                if f.data[0] == "coll":
                    for i in coll.elems(f.data[1]):
                        bs = [E.const("x", b.sort()) for b in i.binders]
                        mb = [(b, n) for b, n in zip(i.binders, bs)] + m
                        es = plain(i.entries)
                        free = [z3.substitute(d, *mb) if mb else d for d in es]
                        own = [(n, z3.Const("own!0", n.sort())) for n in bs]
                        if any(mentions_fresh(z3.substitute(d, *own) if own else d, st["c0"]) for d in free):
                            raise Unsupported("list built depending on modified state")
                        cases.append(Case([x] + bs, c.entries + [z3.substitute(d, *m) for d in g] + free, vsub(i.value, mb)))
                    continue
                cases.append(Case([x], c.entries + [z3.substitute(d, *m) for d in g], vsub(f.data[1], m)))
        if cases:
            l.add_seg(("coll", Coll(cases)))
    cur = lp.havoc('loc')
    cnt = size_of(P, srt)
    end = lp.snapshot(P, lambda t: cnt(t), cur)
    known = []
    for nm, f in cands:
        known.append((nm, f(end)))
        E.assume(known[-1][1])
    final = {}
    for n in names:
        if n in lp.hv_vars:
            final[n] = cur[n]
            if isinstance(cur[n], SymInt) and not any(any(k.eq(cur[n].e) for k in consts_of([f])) for nm, f in known
                                                      if nm != f"{n} not negative"):
                final[n] = counter(n)  # nothing is known about it
        elif n not in lp.stale and (n in carried or lp.init[n] is None or isinstance(lp.init[n], (bool, int, str))):
            final[n] = lp.init[n]
        else:
            final[n] = STALE
    set_(*[final[n] for n in names])
    return None


def leaving_fact(o, c0):
    ds = plain(o.decisions)
    if len(ds) == len(o.decisions) and not any(mentions_fresh(d, c0) for d in ds):
        return z3.And(*ds) if ds else TRUE
    return None


def merged(cs):
    """disjoint cases over the same elements as one"""
    if len(cs) < 2 or any(len(c.binders) != 1 or c.binders[0].sort() not in (Node, TaskS) for c in cs):
        return cs
    x = cs[0].binders[0]
    doms = []
    for c in cs:
        if c.binders[0].sort() != x.sort():
            return cs
        m = [] if c.binders[0].eq(x) else [(c.binders[0], x)]
        if not coll.same(vsub(c.value, m), cs[0].value):
            return cs
        es = plain(c.entries)
        d = z3.And(*es) if es else TRUE
        doms.append(z3.substitute(d, *m) if m else d)
    y = E.const("e", x.sort())
    for i in range(len(doms)):
        for j in range(i):
            if not valid(E.pc, z3.Not(z3.And(*[z3.substitute(doms[k], (x, y)) for k in (i, j)]))):
                return cs
    return [Case([x], [z3.Or(*doms)], cs[0].value)]


def size_of(P, srt):
    """the number of elements of P per task; the same for every loop over the same elements"""
    y = z3.Const("size_of", srt)
    for Q, s, cnt in E.counts:
        if s == srt and z3.simplify(P(y)).eq(z3.simplify(Q(y))):
            return cnt
    E.counter += 1
    cnt = z3.Function(f"size!{E.counter}", TaskS, z3.IntSort())
    E.counts.append((P, srt, lambda t: cnt(t)))
    return lambda t: cnt(t)


def consts_of(es):
    out, stack, seen = {}, list(plain(es)), set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.get_id()] = t
        stack.extend(t.children())
    return list(out.values())


def mentions_fresh(d, c0):
    """does a decision depend on the havoc'ed state of the iteration (functions introduced by the loop rule)?"""
    stack, seen = [d], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n.startswith(("done!", "cnt!", "hv!")) and int(n.rsplit("!", 1)[1]) > c0:
                return True
        if z3.is_quantifier(t):
            stack.append(t.body())
        else:
            stack.extend(t.children())
    return False


def while_loop(test, body, names, get, set_, where):
    from .rt import truth

    if E.unroll:
        E.unrolled += 1
        for _ in range(3):
            if not truth(test()):
                return None
            r = body()
            if r is not None:
                return r
        raise Infeasible()
    lp = Loop(names, get, set_)

    def once():
        if not truth(test()):
            raise Infeasible()
        return body()

    lkey = "learn", lp.path_key()
    if not lp.recall(lkey):
        lp.learn(once)
        lp.remember(lkey)
    v0 = lp.snapshot(None, None, lp.init)
    st = {}

    def iteration(cands, final=False):
        res = []

        def thunk():
            cur = lp.havoc()
            head = lp.snapshot(None, None, cur)
            if E.own_templates:
                E.pc.append(MARK)
            for nm, f in cands:
                E.assume(f(head))
            if not truth(test()):
                raise Infeasible()
            r = body()
            if r is not None:
                return "leave", None
            v = lp.snapshot(None, None)
            if final:
                for nm, f in E.while_variants:
                    f(lp, head, v)
            return "next", v

        if final:
            outs = E.explore(thunk)
        else:
            with muted():
                outs = E.explore(thunk)
        st["leave"] = False
        for o in outs:
            if o.kind == "exc" or o.value[0] == "leave":
                st["leave"] = True
                continue
            res.append((o.entries, o.value[1]))
        return res

    cands = infer(lp, v0, iteration, v0)
    key = ("leave", lp.key)
    if lp.cached and key in E.loop_cache:
        st["leave"] = E.loop_cache[key]
    else:
        iteration(cands, True)
        E.loop_cache[key] = st["leave"]
        E.loop_invariants.setdefault(where, []).append([nm for nm, _ in cands])
    leave = st["leave"] and E.choose(2, "leave") == 1
    cur = lp.havoc('loc')
    head = lp.snapshot(None, None, cur)
    if E.own_templates:
        E.pc.append(MARK)
    for nm, f in cands:
        E.assume(f(head))
    t = truth(test())
    if leave:
        if not t:
            raise Infeasible()
        r = body()
        if r is None:
            raise Infeasible()
        return r
    if t:
        raise Infeasible()
    return None


E.fol = False
E.fol_loop = None
E.fol_while = None
E.fol_empty = None
E.empty_bag = None
E.locs = []
E.templates = []
E.task_of = None
E.loop_depth = 0
E.loop_cache = {}
E.own_templates = False  # while loops use the given templates only
E.counts = []
E.total = None  # number of elements of a set
E.loop_invariants = {}
E.unroll = False
E.unrolled = 0
E.while_variants = []
