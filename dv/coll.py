"""Symbolic collections and loops over them."""
import z3
from .core import (E, Ax, NotAx, Univ, OrE, K, at, FD, FM, Pt, Axis, Unsupported, Infeasible, Control, subst, e_sub, Def, NONDET,
                   check_engine_error)
from .sym import (Sym, SymBool, SymInt, SymCoord, SymVal, SymRoi, AxisList, SymId, zi, zb, isint, vsub, merge, not_,
                  fdiv, fmod, truth)


class Case:
    __slots__ = ("binders", "entries", "value")

    def __init__(self, binders, entries, value):
        self.binders, self.entries, self.value = binders, entries, value

    def inst(self, terms):
        """entries and value for the given binder terms"""
        m = list(zip(self.binders, terms))
        return [e_sub(e, m) for e in self.entries], vsub(self.value, m)

    def fresh(self, mk):
        ts = [mk(str(b.decl().name()).split("!")[0], b.sort()) for b in self.binders]
        return (ts,) + self.inst(ts)

    def sub(self, m):
        return Case(self.binders, [e_sub(e, m) for e in self.entries], vsub(self.value, m))


class Coll(Sym):
    """A finite collection {value(x) | x: entries(x)}, one element per binder assignment.

    unique: no two equal elements (by ==). axes: for products, the AxisList of per-axis ranges.
    """

    def __init__(self, cases, unique=False, axes=None):
        self.cases, self.unique, self.axes = cases, unique, axes

    def sub(self, m):
        c = Coll([c.sub(m) for c in self.cases], self.unique, vsub(self.axes, m) if self.axes is not None else None)
        return c

    def nonempty(self):
        """condition (Ax or z3 bool) for being nonempty, if it can be told"""
        if self.axes is not None:
            return Ax(self.axes.value.nonempty())
        if not self.cases:
            return z3.BoolVal(False)
        return None


class IdxColl(Sym):
    """A list of length n; cases of the element at index i (binders[0] == i)."""

    def __init__(self, n, i, cases, facts=()):
        self.n, self.i, self.cases, self.facts = n, i, cases, list(facts)

    def sub(self, m):
        return IdxColl(subst(self.n, m), self.i, [([e_sub(e, m) for e in es], vsub(v, m)) for es, v in self.cases],
                       [e_sub(f, m) for f in self.facts])

    def get(self, idx):
        """element at index term idx (known to be in range); assumes its facts"""
        if not any(t.eq(idx) for t in E.indices):
            E.indices.append(idx)
        m = [(self.i, idx)]
        if len(self.cases) == 1:
            es, v = self.cases[0]
            E.assume_all([e_sub(e, m) for e in es])
            return vsub(v, m)
        insts = [([e_sub(e, m) for e in es], v) for es, v in self.cases]
        j = E.case_split([es for es, _ in insts])
        return vsub(insts[j][1], m)

    def as_coll(self):
        c = self.__dict__.get("_coll")
        if c is None:
            c = Coll([Case([self.i], [self.i >= 0, self.i < self.n] + es, v) for es, v in self.cases])
            self.__dict__["_coll"] = c
        return c


class SymRange(Sym):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def sub(self, m):
        return SymRange(vsub(self.lo, m), vsub(self.hi, m), vsub(self.step, m))

    def contains(self, x):
        lo, hi, st = zi(self.lo), zi(self.hi), zi(self.step)
        return z3.And(x >= lo, x < hi, fmod(x - lo, st) == 0)

    def nonempty(self):
        return zi(self.lo) < zi(self.hi)

    def length(self):
        lo, hi, st = zi(self.lo), zi(self.hi), zi(self.step)
        return z3.If(hi > lo, fdiv(hi - lo - 1, st) + 1, z3.IntVal(0))

    def as_coll(self):
        b = E.const("i")
        return Coll([Case([b], [self.contains(b)], SymInt(b))])


class FinChoice(Sym):
    """One of several short lists, by guard."""

    def __init__(self, cases):
        self.cases = cases

    def sub(self, m):
        return FinChoice([(subst(g, m), [vsub(x, m) for x in items]) for g, items in self.cases])

    def contains(self, x):
        return z3.Or(*[z3.And(g, z3.Or(*[x == zi(i) for i in items])) for g, items in self.cases])

    def nonempty(self):
        return z3.Or(*[g for g, items in self.cases if items])

    def length(self):
        r = z3.IntVal(0)
        for g, items in self.cases:
            r = z3.If(g, z3.IntVal(len(items)), r)
        return r


class Stale(Sym):
    """A local whose value after a summarised loop is not tracked."""

    def sub(self, m):
        return self


STALE = Stale()


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class AccVar(Sym):
    """accumulator inside of a loop body"""

    def __init__(self, var, terms=()):
        self.var, self.terms = var, tuple(terms)

    def __add__(self, o):
        return AccVar(self.var, self.terms + (o,))

    __radd__ = __add__

    def sub(self, m):
        return AccVar(self.var, tuple(vsub(t, m) for t in self.terms))


class FormalSum(Sym):
    """Sum of integers and of values over collections; compared structurally by contracts."""

    def __init__(self, parts):
        self.parts = parts  # list of ints/SymInt/Prod, or ("sum", [Case(binders, entries, value)])

    def sub(self, m):
        return FormalSum([("sum", [c.sub(m) for c in p[1]]) if isinstance(p, tuple) else vsub(p, m)
                          for p in self.parts])

    def __add__(self, o):
        if isinstance(o, FormalSum):
            return FormalSum(self.parts + o.parts)
        return FormalSum(self.parts + [o])

    def __radd__(self, o):
        return FormalSum([o] + self.parts)

    def _pos(self):
        """is the sum positive? (only for sizes)"""
        alts = []
        for p in self.parts:
            if isinstance(p, bool) or not isinstance(p, (int, CollLen)):
                raise Unsupported("comparison of a symbolic sum")
            if isinstance(p, int):
                if p < 0:
                    raise Unsupported("comparison of a symbolic sum")
                if p > 0:
                    return True
            else:
                alts.append(p._nonempty())
        r = alts[0] if alts else False
        for a in alts[1:]:
            r = r | a
        return r

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return self._pos()
        raise Unsupported("comparison of a symbolic sum")

    def __eq__(self, o):
        if isinstance(o, int) and o == 0:
            return not_(self._pos())
        raise Unsupported("comparison of a symbolic sum")

    def __ne__(self, o):
        return not_(self == o)

    def __ge__(self, o):
        if isinstance(o, int) and o == 1:
            return self._pos()
        raise Unsupported("comparison of a symbolic sum")

    def __lt__(self, o):
        return not_(self >= o)

    def __le__(self, o):
        return not_(self > o)

    def __bool__(self):
        return bool(self._pos())

    __hash__ = Sym.__hash__


class Prod(Sym):
    """Product over all axes of an integer term in K"""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return Prod(subst(self.t, m))

    def __add__(self, o):
        return FormalSum([self, o])

    def __radd__(self, o):
        return FormalSum([o, self])

    def __eq__(self, o):
        if isinstance(o, int) and o == 0:
            return NotSym0(self)
        raise Unsupported("comparison of a product")

    __hash__ = Sym.__hash__


class NotSym0(Sym):
    """product == 0 iff some factor is 0"""

    def __init__(self, p):
        self.p = p

    def __bool__(self):
        return not E.branch(Ax(self.p.t != 0))


# ------------------------------------------------------------------- DList
class NeedsBag(Unsupported):
    """a symbolic list is used as a stack or queue"""

    def __init__(self, obj):
        super().__init__("symbolic list in native code")
        self.obj = obj


class DList(Sym):
    """list: concrete items and symbolic segments (Coll / IdxColl / AxisList)"""

    def __init__(self, items=()):
        self.segs = [("item", x) for x in items]
        E.stamp += 1
        self.stamp = E.stamp
        self.frozen = False

    def sub(self, m):
        d = DList()
        d.segs = [(k, vsub(x, m)) for k, x in self.segs]
        return d

    def _set(self, segs, kind, data):
        old = self.segs
        self.segs = segs

        def undo():
            self.segs = old

        E.effect(kind, self, data, undo)

    def _read(self):
        if self.frozen:
            raise Unsupported("list is read while it is being built by a loop")

    def append(self, x):
        self._set(self.segs + [("item", x)], "append", ("item", x))

    def add_seg(self, seg):
        self._set(self.segs + [seg], "append", seg)

    def extend(self, it):
        for s in segments(it):
            self._set(self.segs + [s], "append", s)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        self._read()
        d = DList()
        d.segs = self.segs + segments(o)
        return d

    def insert(self, i, x):
        self._read()
        if all(k == "item" for k, _ in self.segs):
            l = list(self.segs)
            l.insert(i, ("item", x))
            self._set(l, "other", None)
        else:
            raise Unsupported("insert into symbolic list")

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def pop(self, i=-1):
        if E.fol and not self.is_concrete():
            raise NeedsBag(self)
        items = self.concrete()
        if not items:
            raise IndexError("pop from empty list")
        x = items[i]
        l = list(self.segs)
        del l[i]
        self._set(l, "other", None)
        return x

    def remove(self, x):
        items = self.concrete()
        for i, y in enumerate(items):
            if y is x or bool(y == x):
                l = list(self.segs)
                del l[i]
                self._set(l, "other", None)
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._set([], "other", None)

    def copy(self):
        self._read()
        d = DList()
        d.segs = list(self.segs)
        return d

    def reverse(self):
        self._read()
        self._set([(k, rev(x) if k != "item" else x) for k, x in reversed(self.segs)], "other", None)

    def sort(self, key=None, reverse=False):
        self._read()
        if len(self.segs) > 1 or any(k != "item" for k, _ in self.segs):
            self._set([("coll", unordered(self))], "other", None)

    def concrete(self):
        self._read()
        if all(k == "item" for k, _ in self.segs):
            return [x for _, x in self.segs]
        raise Unsupported("symbolic list in native code")

    def is_concrete(self):
        return all(k == "item" for k, _ in self.segs)

    def __iter__(self):
        return iter(self.concrete())

    def __getitem__(self, i):
        self._read()
        return getitem(self, i)

    def __setitem__(self, i, v):
        items = self.concrete()
        items[i] = v
        self._set([("item", x) for x in items], "other", None)

    def __delitem__(self, i):
        items = self.concrete()
        del items[i]
        self._set([("item", x) for x in items], "other", None)

    def __eq__(self, o):
        if isinstance(o, (DList, list)) :
            a, b = self.concrete(), list(o)
            return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))
        return False

    def __ne__(self, o):
        return not (self == o)

    __hash__ = Sym.__hash__

    def single(self):
        """the only segment, if it is symbolic"""
        self._read()
        segs = [s for s in self.segs]
        if len(segs) == 1 and segs[0][0] != "item":
            return segs[0][1]
        return None


def segments(it):
    """any iterable as list segments"""
    if isinstance(it, DList):
        it._read()
        return list(it.segs)
    if isinstance(it, Coll):
        if not it.cases:
            return []
        return [("coll", it)]
    if isinstance(it, IdxColl):
        return [("idx", it)]
    if isinstance(it, AxisList):
        return [("axis", it)]
    if isinstance(it, SymCoord):
        return [("axis", AxisList(SymInt(it.t)))]
    if isinstance(it, SymRange):
        return [("coll", it.as_coll())]
    f = getattr(it, "dv_segments", None)
    if f is not None:
        return f()
    if isinstance(it, Sym):
        raise Unsupported(f"iteration over {type(it).__name__}")
    return [("item", x) for x in it]


def unordered(x):
    """any collection as one Coll (forgets the order)"""
    segs = segments(x)
    cases = []
    for k, s in segs:
        if k == "item":
            cases.append(Case([], [], s))
        elif k == "coll":
            cases.extend(s.cases)
        elif k == "idx":
            cases.extend(s.as_coll().cases)
        else:
            raise Unsupported("axis list as collection")
    if len(segs) == 1 and segs[0][0] == "coll":
        return segs[0][1]
    return Coll(cases)


def simple(x):
    """DList with a single symbolic segment -> this segment"""
    if isinstance(x, DList):
        s = x.single()
        if s is not None:
            return s
    return x


def rev(x):
    # reversing only permutes the enumeration; indexed lists get new indices
    if isinstance(x, IdxColl):
        j = E.const("r")
        m = [(x.i, x.n - 1 - j)]
        return IdxColl(x.n, j, [([e_sub(e, m) for e in es], vsub(v, m)) for es, v in x.cases])
    return x


def length(x):
    if isinstance(x, DList):
        x._read()
        n = 0
        for k, s in x.segs:
            n = n + (1 if k == "item" else length(s))
        return n
    if isinstance(x, IdxColl):
        return SymInt(x.n)
    if isinstance(x, (AxisList, SymCoord)):
        from .sym import DIMS

        return DIMS()
    if isinstance(x, SymRange):
        if any(isinstance(v, Sym) for v in (x.lo, x.hi, x.step)):
            return SymInt(x.length())
    if isinstance(x, Coll):
        if not x.cases:
            return 0
        if E.len_rule is not None:
            return E.len_rule(x)
        return CollLen(x)
    f = getattr(x, "dv_len", None)
    if f is not None:
        return f()
    return len(x)


class CollLen(Sym):
    """Number of elements; only comparisons with 0 (and 1) are decided."""

    def __init__(self, c):
        self.c = c

    def sub(self, m):
        return CollLen(self.c.sub(m))

    def _nonempty(self):
        return nonempty(self.c)

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return self._nonempty()
        raise Unsupported("size of a symbolic collection")

    def __eq__(self, o):
        if isinstance(o, int) and o == 0:
            return not_(self._nonempty())
        raise Unsupported("size of a symbolic collection")

    def __ne__(self, o):
        return not_(self == o)

    def __ge__(self, o):
        if isinstance(o, int) and o == 1:
            return self._nonempty()
        if isinstance(o, int) and o <= 0:
            return True
        raise Unsupported("size of a symbolic collection")

    def __lt__(self, o):
        return not_(self >= o)

    def __le__(self, o):
        return not_(self > o)

    def __bool__(self):
        return bool(self._nonempty())

    def __add__(self, o):
        return FormalSum([self, o])

    __radd__ = __add__
    __hash__ = Sym.__hash__


def nonempty(c):
    ne = c.nonempty()
    if ne is not None:
        return SymBool(ne)
    # exists an element: quantified over plain entries
    alts = []
    for k in c.cases:
        if not all(isinstance(e, z3.ExprRef) for e in k.entries):
            raise Unsupported("emptiness of a collection")
        f = z3.And(*k.entries) if k.entries else z3.BoolVal(True)
        alts.append(z3.Exists(k.binders, f) if k.binders else f)
    return SymBool(z3.Or(*alts))


def stabilise(x):
    """Gives an ordered symbolic list indices (when it is stored in an attribute)."""
    if isinstance(x, DList) and not x.frozen:
        s = x.single()
        if isinstance(s, Coll) and s.axes is not None:
            x._set([("idx", indexed(s))], "other", None)
    return x


def indexed(c):
    """IdxColl view of a product-like collection (one element per point of the product)."""
    if len(c.cases) != 1 or len(c.cases[0].binders) != 1 or c.axes is None:
        raise Unsupported("indexing of a symbolic collection")
    case = c.cases[0]
    b = case.binders[0]
    if not E.branch(c.nonempty()):
        i = E.const("i")
        return IdxColl(z3.IntVal(0), i, [([], STALE)])
    n = E.fresh("n")
    E.counter += 1
    fn = z3.Function(f"LO!{E.counter}", *([g.sort() for g in E.gens] + [z3.IntSort(), b.sort()]))
    LO = lambda t: fn(*(list(E.gens) + [t]))
    gens = list(E.gens)
    LO = lambda t: fn(*(gens + [t]))
    E.assume(n >= 1)
    i = E.const("i")
    es, v = case.inst([LO(i)])
    # distinct indices hold distinct points (they differ on some axis)
    kf = z3.Function(f"LOax!{E.counter}", z3.IntSort(), z3.IntSort(), Axis)
    E.assume(Univ([z3.IntSort(), z3.IntSort()], lambda a, c_: [
        z3.Implies(z3.And(a >= 0, a < n, c_ >= 0, c_ < n, a != c_), at(LO(a), kf(a, c_)) != at(LO(c_), kf(a, c_)))]))
    r = IdxColl(n, i, [(es, v)])
    r.__dict__["LO"] = LO
    r.__dict__["dom"] = case
    return r


def index_of(ic, p):
    """Index of the point p, which must lie in the product (surjectivity of the enumeration)."""
    j = E.fresh("idx")
    E.indices.append(j)
    E.assume_all([j >= 0, j < ic.n, Ax(at(ic.LO(j), K) == at(p, K))])
    es, _ = ic.dom.inst([ic.LO(j)])
    E.assume_all(es)
    return j


def getitem(x, i):
    if isinstance(x, DList):
        if x.is_concrete() and isinstance(i, (int, slice)):
            r = x.concrete()[i]
            return DList(r) if isinstance(i, slice) else r
        if E.slice_rule is not None and isinstance(i, slice):
            return E.slice_rule(x, i)
        if E.fol and E.empty_bag is not None:
            raise NeedsBag(x)
        s = x.single()
        if s is None:
            raise Unsupported("indexing of a mixed list")
        return getitem(s, i)
    if isinstance(x, IdxColl):
        if not isint(i):
            raise Unsupported("slice of a symbolic list")
        e = zi(i)
        if bool(SymBool(z3.And(e >= 0, e < x.n))):
            return x.get(e)
        if bool(SymBool(z3.And(e < 0, e >= -x.n))):
            return x.get(x.n + e)
        raise IndexError("list index out of range")
    if isinstance(x, Coll) and x.axes is not None:
        raise Unsupported("indexing of a temporary product")
    raise Unsupported(f"indexing of {type(x).__name__}")


# ------------------------------------------------------------------ product
def product(*args, **kw):
    if len(args) == 1 and isinstance(args[0], AxisStar) and not kw:
        v = args[0].axes
        r = v.value
        if isinstance(r, (DList, tuple)):
            r = FinChoice([(z3.BoolVal(True), list(r) if isinstance(r, tuple) else r.concrete())])
            v = AxisList(r)
        if not isinstance(r, (SymRange, FinChoice)):
            raise Unsupported(f"product of {type(r).__name__}")
        p = E.const("p", Pt)
        return Coll([Case([p], [Ax(r.contains(at(p, K)))], AxisList(SymInt(at(p, K))))], axes=v)
    if any(isinstance(a, Sym) for a in args):
        raise Unsupported("product of symbolic collections")
    import itertools

    return itertools.product(*args, **kw)


class AxisStar(Sym):
    def __init__(self, axes):
        self.axes = axes


# ------------------------------------------------------------- comprehension
def axis_map(value, fn):
    """fn on the generic axis; merges the cases of its decisions."""
    outs = E.explore(lambda: fn(value))
    ok = [o for o in outs if o.kind == "ok"]
    for o in outs:
        if o.effects:
            raise Unsupported("side effects in an axis comprehension")
        if len(o.entries) != len(o.decisions):
            raise Unsupported("assumptions in an axis comprehension")
        if not all(isinstance(d, z3.ExprRef) for d in o.decisions):
            raise Unsupported("nested axis condition")
    for o in outs:
        if o.kind == "exc":
            g = z3.And(*o.decisions) if o.decisions else z3.BoolVal(True)
            if not E.branch(Ax(z3.Not(g))):
                raise o.value
    if not ok:
        raise Infeasible()
    return merge([(z3.And(*o.decisions) if o.decisions else z3.BoolVal(True), o.value) for o in ok])


def axis_value(it):
    if isinstance(it, SymCoord):
        return SymInt(it.t)
    if isinstance(it, AxisList):
        return it.value
    if isinstance(it, DList):
        s = it.single()
        if isinstance(s, AxisList):
            return s.value
    return None


_noaxis = object()


def is_axis(it):
    return isinstance(it, (SymCoord, AxisList)) or (isinstance(it, DList) and isinstance(it.single(), AxisList))


def unpack(x, n):
    if n == 1:
        return (x,)
    if isinstance(x, tuple):
        if len(x) != n:
            raise ValueError("unpack")
        return x
    if isinstance(x, DList):
        return tuple(x.concrete())
    if isinstance(x, Sym):
        raise Unsupported(f"unpacking of {type(x).__name__}")
    return tuple(x)


def comp(kind, it, n, elt, cond):
    """[elt(x) for x in it if cond(x)]; kind: list, set, gen, dict"""
    if is_axis(it):
        if cond is not None:
            raise Unsupported("filter over axes")
        v = axis_map(axis_value(it), lambda x: elt(*unpack(x, n)))
        r = AxisList(v)
        if kind == "list":
            d = DList()
            d.segs = [("axis", r)]
            return d
        if kind == "gen":
            return r
        raise Unsupported("set over axes")
    segs = segments(it)
    out = DList()
    if E.comp_loop and any(k == "coll" for k, _ in segs):
        def one(x):
            args = unpack(x, n)
            if cond is None or truth(cond(*args)):
                out.append(elt(*args))

        forloop(it, one, [], [], lambda: (), lambda *a: None)
        segs = []
    for k, s in segs:
        if k == "item":
            args = unpack(s, n)
            if cond is None or truth(cond(*args)):
                out.segs = out.segs + [("item", elt(*args))]
        elif k == "axis":
            raise Unsupported("mixed axis list")
        else:
            r = map_coll(s, lambda x: (SKIP if cond is not None and not truth(cond(*unpack(x, n))) else elt(*unpack(x, n))))
            if isinstance(r, IdxColl):
                out.segs = out.segs + [("idx", r)]
            elif r.cases:
                out.segs = out.segs + [("coll", r)]
    if kind in ("list", "gen"):
        return out
    if kind == "set":
        from .dset import mkset

        return mkset(out)
    if kind == "dict":
        from .dset import mkdict

        return mkdict(out)
    raise Unsupported(kind)


SKIP = object()
E.comp_loop = False  # comprehensions whose elements have effects
E.slice_rule = E.len_rule = None


def elems(s):
    """cases of a symbolic segment"""
    return s.as_coll().cases if isinstance(s, IdxColl) else s.cases


def map_coll(s, fn):
    cases, exact, changed = [], True, False
    for c in elems(s):
        outs = explore_elem(c, fn)
        exits = [o for o in outs if o.kind == "exc"]
        if exits:
            # some element may raise: decide whether one does
            if E.choose(2) == 1:
                raise_on_element(c, fn, exits)
            E.assume(forall_not(c, exits))
        for o in outs:
            if o.effects and any(is_outer(e) for e in o.effects):
                raise Unsupported("side effects in a comprehension")
            if o.kind != "ok":
                continue
            if o.value is SKIP:
                exact = False
                continue
            cases.append(Case(c.binders, c.entries + o.guards(), o.value))
    if isinstance(s, IdxColl) and exact:
        return IdxColl(s.n, s.i, [([e for e in c.entries], c.value) for c in cases])
    if isinstance(s, IdxColl):
        return Coll(cases)
    # the elements correspond one to one to the points of the product
    axes = s.axes if exact and len(s.cases) == 1 else None
    return Coll(cases, axes=axes)


def is_outer(e):
    return e.kind not in ("cache", "local") and getattr(e.obj, "stamp", 0) <= E.loop_stamp


def explore_elem(c, fn):
    """outcomes of fn on a generic element of case c; entries exclude c.entries"""
    ngen = len(E.gens)
    npc = len(E.pc)
    old = E.loop_stamp
    E.loop_stamp = E.stamp
    ints = [b for b in c.binders if b.sort() == z3.IntSort()]
    nidx = len(E.indices)
    try:
        E.gens.extend(c.binders)
        E.assume_all(c.entries)
        E.indices.extend(ints)
        outs = E.explore(lambda: fn(c.value))
        for o in outs:
            o.effects = [e for e in o.effects if is_outer(e)]
        return outs
    finally:
        del E.gens[ngen:]
        del E.pc[npc:]
        E.loop_stamp = old


def forall_not(c, outs):
    """Univ fact: no element of case c takes one of the outcomes outs"""

    def inst(*terms):
        m = list(zip(c.binders, terms))
        alts = [[e_sub(neg_entry(e), m)] for e in c.entries]
        res = []
        for o in outs:
            # not (dom and decisions): or of negations
            a = list(alts) + [[e_sub(neg_entry(d), m)] for d in o.decisions]
            res.append(OrE(a) if len(a) != 1 else a[0][0])
        return res

    return Univ([b.sort() for b in c.binders], inst)


def neg_entry(e):
    if isinstance(e, z3.ExprRef):
        return z3.Not(e)
    if isinstance(e, Ax):
        return E.negax(e)
    if isinstance(e, NotAx):
        return Ax(e.f)
    if isinstance(e, Def):
        return z3.BoolVal(False)
    raise Unsupported("negation of a quantified fact")


def raise_on_element(c, fn, exits):
    ts, es, v = c.fresh(lambda n, s: E.fresh(n, s))
    E.indices.extend(t for t in ts if t.sort() == z3.IntSort())
    E.assume_all(es)
    if not E.feasible([]):
        raise Infeasible()
    fn(v)
    raise Infeasible()  # this element does not raise on this path


# ---------------------------------------------------------------------- loops
class Ret:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class _Brk:
    def __repr__(self):
        return "BRK"


BRK = _Brk()


def forloop(it, body, names, carried, get, set_, where=None):
    it2 = it
    rule = E.for_rules.get(where) if where else None
    if rule is not None:
        r = rule(it, body, names, carried, get, set_)
        if r is not NotImplemented:
            return r
    if is_axis(it):
        return axis_loop(it, body, names, carried, get, set_)
    f = getattr(it, "dv_forloop", None)
    if f is not None:
        return f(body, names, carried, get, set_)
    own = getattr(it, "dv_temporary", False)
    for k, s in segments(it):
        if k == "item":
            r = body(s)
        elif k == "axis":
            raise Unsupported("mixed axis list")
        else:
            if own:
                # the elements belong to this loop, it may modify them
                body_, body2 = body, None
                body2 = lambda x: body_(own_copy(x))
            else:
                body2 = body
            r = coll_loop(s, body2, names, carried, get, set_)
        if r is not None:
            return r
    return None


def own_copy(v):
    if type(v).__module__.startswith("daisy") and hasattr(v, "__dict__"):
        n = object.__new__(type(v))
        n.__dict__.update({k: x for k, x in v.__dict__.items() if not k.startswith("_dv_")})
        E.stamp += 1
        n.__dict__["_dv_stamp"] = E.stamp
        return n
    return v


def axis_loop(it, body, names, carried, get, set_):
    """for x in <one entry per axis>: only appends of one value per axis, and products/sums"""
    init = dict(zip(names, get()))
    accs = {}
    for nm in carried:
        v = init[nm]
        if v is UNBOUND:
            continue
        if isint(v):
            accs[nm] = AxAcc(nm)
    stamp = E.stamp
    box = {}

    def run():
        cur = dict(init)
        cur.update(accs)
        set_(*[cur[n] for n in names])
        r = body(axis_value(it))
        return r, tuple(get())

    old = E.loop_stamp
    E.loop_stamp = stamp
    try:
        outs = E.explore(run)
    finally:
        E.loop_stamp = old
    apps, accv = {}, {}
    guards = []
    for o in outs:
        if o.kind != "ok" or o.value[0] is not None:
            raise Unsupported("loop over axes is left early")
        if len(o.entries) != len(o.decisions) or not all(isinstance(d, z3.ExprRef) for d in o.decisions):
            raise Unsupported("loop over axes")
        g = z3.And(*o.decisions) if o.decisions else z3.BoolVal(True)
        guards.append(g)
        byobj = {}
        for e in o.effects:
            if getattr(e.obj, "stamp", 0) > stamp:
                continue
            if e.kind != "append" or e.data[0] != "item":
                raise Unsupported("effect in loop over axes")
            byobj.setdefault(id(e.obj), (e.obj, []))[1].append(e.data[1])
        apps_here = byobj
        for k_, (ob, vs) in byobj.items():
            if len(vs) != 1:
                raise Unsupported("several appends per axis")
            apps.setdefault(k_, (ob, []))[1].append((g, vs[0]))
        post = dict(zip(names, o.value[1]))
        for nm in accs:
            accv.setdefault(nm, []).append((g, post[nm]))
    for ob, cs in apps.values():
        if len(cs) != len(outs):
            raise Unsupported("conditional append over axes")
        ob.add_seg(("axis", AxisList(merge(cs))))
    final = dict(init)
    for nm in names:
        if nm in accs:
            vs = accv[nm]
            if all(isinstance(v, AxAcc) and v.op == "*" for _, v in vs) and init[nm] == 1:
                final[nm] = Prod(zi(merge([(g, v.x) for g, v in vs])))
            elif all(v is accs[nm] for _, v in vs):
                pass
            else:
                final[nm] = STALE
        else:
            final[nm] = STALE
    set_(*[final[n] for n in names])
    return None


class AxAcc(Sym):
    def __init__(self, var, op=None, x=None):
        self.var, self.op, self.x = var, op, x

    def __mul__(self, o):
        if self.op is None and isint(o):
            return AxAcc(self.var, "*", o)
        raise Unsupported("axis accumulator")

    __rmul__ = __mul__


def coll_loop(s, body, names, carried, get, set_):
    f = getattr(E, "fol_loop", None)
    if f is not None:
        r = f(s, body, names, carried, get, set_)
        if r is not NotImplemented:
            return r
    init = dict(zip(names, get()))
    rules = carry_rules(s, body, names, carried, get, set_, init)
    stamp = E.stamp
    effs_seen = None
    havoc = []

    def runner(elem_index_term):
        def run(x):
            cur = {n: (init[n] if n not in carried else None) for n in names}
            for n in carried:
                cur[n] = rules[n].entry(elem_index_term) if n in rules else init[n]
            set_(*[cur[n] for n in names])
            for ob in havoc:
                ob.lp_havoc(s)
            r = body(x)
            return r, tuple(get())

        return run

    # learn: iterate until the set of modified objects is stable
    for _round in range(6):
        outs = []
        for c in elems(s):
            it_term = c.binders[0] if isinstance(s, IdxColl) else None
            for o in explore_elem(c, runner(it_term)):
                outs.append((c, o))
        objs = {}
        for c, o in outs:
            for e in o.effects:
                if e.kind in ("cache",) or getattr(e, "obj", None) is None:
                    continue
                objs[id(e.obj)] = e.obj
        todo = [ob for ob in objs.values() if not any(h is ob for h in havoc) and needs_havoc(ob)]
        for ob in objs.values():
            if isinstance(ob, DList):
                ob.frozen = True
        if not todo and _round > 0:
            break
        havoc.extend(todo)
        if not todo and not any(isinstance(ob, DList) for ob in objs.values()):
            break
    else:
        raise Unsupported("loop effects do not stabilise")
    for ob in objs.values():
        if isinstance(ob, DList):
            ob.frozen = False
    leaving = [(c, o) for c, o in outs if o.kind == "exc" or o.value[0] is not None]
    nexts = [(c, o) for c, o in outs if not (o.kind == "exc" or o.value[0] is not None)]
    if leaving and E.choose(2, "early exit") == 1:
        # some element leaves the loop; elements before it took the other paths
        lc = {id(c): c for c, _ in leaving}
        lc = list(lc.values())
        c = lc[E.choose(len(lc))]
        ts, es, v = c.fresh(lambda n, so: E.fresh(n, so))
        E.indices.extend(t for t in ts if t.sort() == z3.IntSort())
        E.assume_all(es)
        if not E.feasible([]):
            raise Infeasible()
        apply_effects(s, nexts, objs, partial=ts)
        run = runner(ts[0] if isinstance(s, IdxColl) else None)
        # havoc'ed objects were set by apply_effects(partial)
        cur = {n: (init[n] if n not in carried else None) for n in names}
        for n in carried:
            cur[n] = rules[n].entry(ts[0] if isinstance(s, IdxColl) else None) if n in rules else init[n]
        set_(*[cur[n] for n in names])
        r = body(v)
        if r is None:
            raise Infeasible()
        return r
    if leaving:
        for c in elems(s):
            ls = [o for cc, o in leaving if cc is c]
            if ls:
                E.assume(forall_not(c, ls))
    apply_effects(s, nexts, objs, partial=None)
    final = {}
    for n in names:
        if n in rules:
            final[n] = rules[n].exit(s, nexts, names)
        else:
            final[n] = STALE
    set_(*[final[n] for n in names])
    return None


def needs_havoc(ob):
    return not isinstance(ob, DList)


def apply_effects(s, nexts, objs, partial):
    for ob in objs.values():
        if isinstance(ob, DList):
            cases, once = [], True
            for c, o in nexts:
                mine = [e for e in o.effects if e.obj is ob]
                if any(e.kind != "append" for e in mine):
                    raise Unsupported("list is modified other than by appending")
                if not (len(mine) == 1 and mine[0].data[0] == "item"):
                    once = False
                for e in mine:
                    k, v = e.data
                    if k == "item":
                        cases.append(Case(c.binders, c.entries + o.guards(), v))
                    elif k in ("coll", "idx"):
                        for c2 in elems(v):
                            cases.append(Case(c.binders + c2.binders, c.entries + o.guards() + c2.entries, c2.value))
                    else:
                        raise Unsupported("axis list appended in loop")
            if partial is not None:
                ob.add_seg(("coll", PartialColl(cases)))
            elif isinstance(s, IdxColl) and once and cases:
                ob.add_seg(("idx", IdxColl(s.n, s.i, [(k.entries, k.value) for k in cases])))
            elif cases:
                axes = s.axes if isinstance(s, Coll) and once and len(s.cases) == 1 else None
                ob.add_seg(("coll", Coll(cases, axes=axes)))
        else:
            ob.lp_apply(s, nexts, partial)


class PartialColl(Coll):
    """An unknown subset of the cases (loop left early)."""

    def __init__(self, cases):
        super().__init__(cases)

    def nonempty(self):
        raise Unsupported("collection built by a loop that was left early")


# ------------------------------------------------------------- carried locals
class PrevRule:
    """x holds the value computed by the previous iteration"""

    def __init__(self, init, i, value):
        self.init, self.i, self.value = init, i, value

    def entry(self, idx):
        if bool(SymBool(idx == 0)):
            return self.init
        prev = z3.simplify(idx - 1)
        E.indices.append(prev)
        return vsub(self.value, [(self.i, prev)])

    def exit(self, s, nexts, names):
        return STALE


class SumRule:
    def __init__(self, name, init):
        self.name, self.init = name, init
        self.acc = AccVar(name)

    def entry(self, idx):
        return self.acc

    def exit(self, s, nexts, names):
        j = names.index(self.name)
        cases = []
        for c, o in nexts:
            v = o.value[1][j]
            if not (isinstance(v, AccVar) and v.var == self.name):
                return STALE
            for t in v.terms:
                cases.append(Case(c.binders, c.entries + o.guards(), t))
        return FormalSum([self.init, ("sum", cases)])


class ConstRule:
    """x is only read in the body (or reset to what it was)"""

    def __init__(self, init):
        self.init = init

    def entry(self, idx):
        return self.init

    def exit(self, s, nexts, names):
        return self.init


def carry_rules(s, body, names, carried, get, set_, init):
    rules = {}
    carried = [n for n in carried if init[n] is not UNBOUND]
    if not carried:
        return rules
    # discover the value after one iteration, starting from the initial values
    for n in carried:
        v = init[n]
        if isint(v) or isinstance(v, (FormalSum, Prod)):
            rules[n] = SumRule(n, v)
    rest = [n for n in carried if n not in rules]
    post = {n: [] for n in rest}
    for c in elems(s):
        def run(x):
            cur = dict(init)
            for n, r in rules.items():
                cur[n] = r.acc
            set_(*[cur[n] for n in names])
            r = body(x)
            return r, tuple(get())
        try:
            outs = explore_elem(c, run)
        except Unsupported:
            if not rest and rules:
                # not an accumulator after all
                raise
            raise
        for o in outs:
            if o.kind == "ok" and o.value[0] is None:
                pv = dict(zip(names, o.value[1]))
                for n in rest:
                    post[n].append((c, pv[n]))
    for n in rest:
        vs = post[n]
        if all(v is init[n] for _, v in vs):
            rules[n] = ConstRule(init[n])
        elif isinstance(s, IdxColl) and vs and all(same(v, vs[0][1]) for _, v in vs):
            rules[n] = PrevRule(init[n], s.i, vs[0][1])
        else:
            raise Unsupported(f"loop-carried variable {n}")
    set_(*[init[n] for n in names])
    return rules


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, SymCoord):
        return z3.simplify(a.t).eq(z3.simplify(b.t))
    if isinstance(a, (SymInt, SymVal)):
        return z3.simplify(a.e).eq(z3.simplify(b.e))
    if isinstance(a, AxisList):
        return same(a.value, b.value)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) and isinstance(a.__dict__.get("t"), z3.ExprRef) and set(a.__dict__) <= {"t", "stamp"}:
        return a.t.sort() == b.t.sort() and a.t.eq(b.t)
    return isinstance(a, (int, str, bool)) and a == b
