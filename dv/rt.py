"""Runtime of the instrumented code: the __dv namespace and replacements of builtins/modules."""
import builtins, collections, enum, operator, types
import z3
from . import core, sym, coll, dset, instr
from .core import E, Ax, NotAx, Control, Unsupported, Infeasible, K
from .sym import Sym, SymBool, SymInt, SymCoord, AxisList, NotSym, not_, isint, zi, truth
from .coll import (DList, Coll, IdxColl, SymRange, forloop, comp, product, AxisStar, UNBOUND, STALE, BRK, Ret, unpack,
                   stabilise, length, rev, unordered, segments, is_axis, axis_value, Case)
from .dset import DDict, DSet, mkset, mkdict

OPS = dict(Add=operator.iadd, Sub=operator.isub, Mult=operator.imul, FloorDiv=operator.ifloordiv, Mod=operator.imod,
           Div=operator.itruediv, BitOr=operator.ior, BitAnd=operator.iand, BitXor=operator.ixor, Pow=operator.ipow,
           LShift=operator.ilshift, RShift=operator.irshift)


class DV:
    DList, BRK, Ret = DList, BRK, Ret
    forloop, comp, mkset, mkdict = staticmethod(forloop), staticmethod(comp), staticmethod(mkset), staticmethod(mkdict)
    not_, unpack = staticmethod(not_), staticmethod(unpack)

    @staticmethod
    def g(f):
        try:
            return f()
        except NameError:
            return UNBOUND

    @staticmethod
    def enter(qual):
        E.functions.add(qual)

    @staticmethod
    def is_ret(r):
        return isinstance(r, Ret)

    @staticmethod
    def gen_done(out):
        return GenIter(out)

    @staticmethod
    def emit(out, v):
        out.append(v)

    @staticmethod
    def emit_all(out, v):
        out.extend(v)

    @staticmethod
    def await_(x):
        f = getattr(x, "dv_await", None)
        return f() if f is not None else x

    @staticmethod
    def whileloop(test, body, names, get, set_, where):
        rule = E.while_rules.get(where) or E.while_rules.get(where.split("#")[0])
        if rule is not None:
            r = rule(test, body, names, get, set_)
            if r is not NotImplemented:
                return r
        f = getattr(E, "fol_while", None)
        if f is not None:
            r = f(test, body, names, get, set_, where)
            if r is not NotImplemented:
                return r
        for _ in range(64):
            if not truth(test()):
                return None
            r = body()
            if r is not None:
                return r
        raise Unsupported(f"while loop without invariant ({where})")

    @staticmethod
    def contains(x, c):
        f = getattr(type(c), "dv_contains", None)
        if f is not None:
            return f(c, x)
        if isinstance(c, coll.Coll):
            return dset.coll_contains(c, x)
        if isinstance(c, (DList, tuple)) and (isinstance(x, Sym) or any(
                isinstance(y, Sym) for y in (c if isinstance(c, tuple) else c))):
            for y in c:
                if y is x or bool(x == y):
                    return True
            return False
        if isinstance(x, Sym) and isinstance(c, (set, frozenset, dict)):
            for y in c:
                if bool(x == y):
                    return True
            return False
        return x in c

    @staticmethod
    def is_(a, b):
        if a is STALE or b is STALE:
            raise Unsupported("value of a local after a summarised loop")
        f = getattr(a, "dv_is", None) or getattr(b, "dv_is", None)
        if f is not None and a is not None and b is not None:
            return f(a, b)
        if isinstance(a, SymBool) and isinstance(b, bool):
            return a if b else not_(a)
        return a is b

    @staticmethod
    def isnot_(a, b):
        return not_(DV.is_(a, b))

    @staticmethod
    def strmod(s, v):
        if E.text is not None:
            return E.text.mod(s, v)
        f = E.str_rule
        if f is not None:
            return f(s, v)
        try:
            return s % v
        except TypeError:
            return s

    @staticmethod
    def fstr(*parts):
        if E.text is not None and any(isinstance(p, Sym) for p in parts):
            return E.text.concat(parts)
        return "".join(p if builtins.type(p) is builtins.str else format(p) for p in parts)

    @staticmethod
    def strjoin(s, it):
        if E.text is not None and isinstance(s, builtins.str):
            return E.text.join(s, it)
        return s.join(it)

    @staticmethod
    def starcall(f, items, **kw):
        a = []
        for star, v in items:
            if not star:
                a.append(v)
            elif is_axis(v):
                a.append(AxisStar(AxisList(axis_value(v))))
            elif isinstance(v, DList):
                a.extend(v.concrete())
            elif isinstance(v, Sym):
                raise Unsupported("starred symbolic argument")
            else:
                a.extend(v)
        return f(*a, **kw)

    @staticmethod
    def setattr_(o, name, v):
        f = getattr(type(o), "dv_setattr", None)
        if f is not None:
            return f(o, name, v)
        if isinstance(v, DList):
            stabilise(v)
        d = getattr(o, "__dict__", None)
        if d is None or isinstance(o, (type, types.ModuleType)):
            if isinstance(o, type):
                old = o.__dict__.get(name, MISSING)
                setattr(o, name, v)
                E.effect("attr", o, name, lambda: setattr(o, name, old) if old is not MISSING else delattr(o, name))
                return
            setattr(o, name, v)
            return
        if "_dv_stamp" not in d:
            # objects made by the harness count as old
            if d:
                d["_dv_stamp"] = 0
            else:
                E.stamp += 1
                d["_dv_stamp"] = E.stamp
        # properties and custom __setattr__ run as written
        old = d.get(name, MISSING)
        n = len(E.journal)
        setattr(o, name, v)
        if name in d and (old is MISSING or d[name] is not old):
            def undo():
                if old is MISSING:
                    d.pop(name, None)
                else:
                    d[name] = old
            E.effect("attr", AttrLoc.of(o, name), (old, v), undo)

    @staticmethod
    def augattr(o, name, op, v):
        f = getattr(type(o), "dv_augattr", None)
        if f is not None:
            return f(o, name, op, v)
        DV.setattr_(o, name, OPS[op](getattr(o, name), v))

    @staticmethod
    def augitem(o, k, op, v):
        f = getattr(type(o), "dv_augitem", None)
        if f is not None:
            return f(o, k, op, v)
        o[k] = OPS[op](o[k], v)

    @staticmethod
    def control(e):
        if isinstance(e, Control):
            raise e

    @staticmethod
    def engine_error(e):
        core.check_engine_error(e)


MISSING = object()


class AttrLoc:
    """A heap location (object attribute) as the target of an effect."""

    table = {}

    def __init__(self, o, name):
        self.o, self.name = o, name

    @property
    def stamp(self):
        return self.o.__dict__.get("_dv_stamp", 0)

    @staticmethod
    def of(o, name):
        d = o.__dict__.setdefault("_dv_locs", {})
        if name not in d:
            d[name] = AttrLoc(o, name)
        return d[name]

    # loop protocol ------------------------------------------------------
    def lp_havoc(self, s):
        """value after some iterations: decided by the recorded writes"""
        v = self.o.__dict__.get(self.name)
        hv = E.attr_havoc(self.o, self.name, v)
        old = self.o.__dict__.get(self.name, MISSING)
        self.o.__dict__[self.name] = hv

        def undo():
            if old is MISSING:
                self.o.__dict__.pop(self.name, None)
            else:
                self.o.__dict__[self.name] = old

        E.effect("local", None, None, undo)

    def lp_apply(self, s, nexts, partial):
        self.lp_havoc(s)


class AnyOf(Sym):
    """An attribute that a loop may or may not have written; not tracked further."""

    def sub(self, m):
        return self


def attr_havoc(o, name, v):
    return AnyOf()


E.attr_havoc = attr_havoc
E.str_rule = None
E.range_rule = E.sort_rule = None
E.text = None  # strings as symbolic values


class GenIter(Sym):
    """A generator, evaluated eagerly; iterating consumes it."""

    dv_temporary = True

    def __init__(self, out):
        self.out = out

    def sub(self, m):
        return GenIter(self.out.sub(m))

    def dv_segments(self):
        return segments(self.out)

    def __iter__(self):
        return iter(self.out.concrete())

    def dv_next(self, *default):
        items = self.out.segs
        if not items:
            if default:
                return default[0]
            raise StopIteration
        if items[0][0] == "item":
            v = items[0][1]
            self.out._set(items[1:], "other", None)
            return v
        raise Unsupported("next() of a symbolic generator")


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, Sym) or hasattr(x, "dv_len"):
        return length(x)
    return builtins.len(x)


def _quant(x, conj, pred=None):
    """all/any over x, of pred (a formula for an integer value) if given"""
    if is_axis(x) and pred is None:
        v = axis_value(x)
        if isinstance(v, (bool, SymBool)):
            f = sym.zb(v)
        elif isint(v):
            f = zi(v) != 0
        else:
            raise Unsupported("all/any over axes")
        return SymBool(Ax(f)) if conj else NotSym(SymBool(Ax(z3.Not(f))))
    acc = []
    for k, s in segments(x):
        if k == "item":
            if pred is not None:
                acc.append(pred(s))
                continue
            if not isinstance(s, Sym):
                if bool(s) != conj:
                    return not conj
                continue
            if isinstance(s, SymBool) and not isinstance(s.e, Ax):
                acc.append(s.e)
            elif isinstance(s, SymInt):
                acc.append(s.e != 0)
            else:
                if bool(truth(s)) != conj:
                    return not conj
            continue
        for c in coll.elems(s):
            es = []
            for e in c.entries:
                if isinstance(e, core.Def) and isinstance(e.e, z3.ExprRef) and E.fol:
                    from . import fol

                    if fol.valid(E.pc + es, e.e):
                        continue  # follows from the others
                if not isinstance(e, z3.ExprRef):
                    raise Unsupported("quantified condition over axes")
                es.append(e)
            if pred is not None:
                f = pred(c.value)
            elif isinstance(c.value, bool):
                f = z3.BoolVal(c.value)
            elif isinstance(c.value, SymBool):
                f = c.value.z()
            elif isinstance(c.value, SymInt):
                f = c.value.e != 0
            else:
                raise Unsupported(f"all/any over {type(c.value).__name__}")
            dom = z3.And(*es) if es else z3.BoolVal(True)
            if conj:
                acc.append(z3.ForAll(c.binders, z3.Implies(dom, f)) if c.binders else z3.Implies(dom, f))
            else:
                acc.append(z3.Exists(c.binders, z3.And(dom, f)) if c.binders else z3.And(dom, f))
    if not acc:
        return conj
    return SymBool(z3.And(*acc) if conj else z3.Or(*acc))


def b_all(x):
    return _quant(x, True) if isinstance(x, (Sym, GenIter)) else builtins.all(x)


def b_any(x):
    return _quant(x, False) if isinstance(x, (Sym, GenIter)) else builtins.any(x)


def _extremum(x, mx, kw):
    """largest/smallest of a symbolic collection of integers: the value that is in it and bounds all of it"""
    if not E.fol or kw.keys() - {"default"}:
        raise Unsupported("min/max of a symbolic collection")
    m = E.fresh("extremum", z3.IntSort())

    def num(v):
        if not isint(v):
            raise Unsupported(f"min/max over {type(v).__name__}")
        return zi(v)

    def z(r):
        return r.z() if isinstance(r, SymBool) else z3.BoolVal(bool(r))

    if not bool(SymBool(z(_quant(x, False, lambda v: z3.BoolVal(True) if num(v) is not None else None)))):
        if "default" in kw:
            return kw["default"]
        raise ValueError("min()/max() iterable argument is empty")
    E.assume(z(_quant(x, True, lambda v: num(v) <= m if mx else num(v) >= m)))
    E.assume(z(_quant(x, False, lambda v: num(v) == m)))
    return SymInt(m)


def _minmax(fn, mx):
    def f(*a, **kw):
        if len(a) == 1 and (not kw or isinstance(a[0], (Sym, GenIter))):
            try:
                xs = a[0].concrete() if isinstance(a[0], DList) else a[0]
                if not isinstance(xs, (Sym, GenIter)):
                    xs = tuple(xs)
            except Unsupported:
                xs = a[0]
            if isinstance(xs, (Sym, GenIter)):
                return _extremum(xs, mx, kw)
            a = xs
        if kw and any(isinstance(x, Sym) for x in a):
            raise Unsupported("min/max with key")
        if any(isinstance(x, Sym) for x in a):
            r = a[0]
            for x in a[1:]:
                c = zi(x) > zi(r) if mx else zi(x) < zi(r)
                r = SymInt(z3.If(c, zi(x), zi(r)))
            return r
        return fn(*a, **kw)

    return f


def b_range(*a):
    if E.range_rule is not None:
        r = E.range_rule(*a)
        if r is not NotImplemented:
            return r
    if any(isinstance(x, Sym) for x in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if isinstance(st, Sym):
            if not bool(st != 0):
                raise ValueError("range() arg 3 must not be zero")
            if not bool(st > 0):
                raise Unsupported("range with negative step")
        elif st <= 0:
            raise Unsupported("range with negative step")
        if isinstance(lo, int) and lo == 0 and isinstance(st, int) and st == 1:
            n = zi(hi)
            i = E.const("i")
            if z3.is_int_value(z3.simplify(n)):
                return builtins.range(z3.simplify(n).as_long())
            return RangeN(z3.If(n > 0, n, z3.IntVal(0)), i, [([], SymInt(i))], SymRange(lo, hi, st))
        return SymRange(lo, hi, st)
    return builtins.range(*a)


class RangeN(IdxColl):
    """range(n): an indexed list, and a range per axis"""

    def __init__(self, n, i, cases, rng):
        super().__init__(n, i, cases)
        self.rng = rng


def b_zip(*its, **kw):
    if any(is_axis(i) for i in its):
        vs = []
        for i in its:
            if is_axis(i):
                vs.append(axis_value(i))
            else:
                raise Unsupported("zip of axes with something else")
        return AxisList(tuple(vs))
    segs = [segments(i) if isinstance(i, (Sym, GenIter)) else None for i in its]
    if all(s is None or builtins.all(k == "item" for k, _ in s) for s in segs):
        cs = [list(i) if s is None else [x for _, x in s] for i, s in builtins.zip(its, segs)]
        return DList(builtins.zip(*cs))
    ics = []
    for i, s in builtins.zip(its, segs):
        if s is not None and len(s) == 1 and isinstance(s[0][1], IdxColl):
            ics.append(s[0][1])
        else:
            raise Unsupported("zip of symbolic collections")
    j = E.const("i")
    n = ics[0].n
    for c in ics[1:]:
        n = z3.If(c.n < n, c.n, n)
    cases = [([], ())]
    for c in ics:
        m = [(c.i, j)]
        cases = [(es + [core.e_sub(e, m) for e in es2], v + (sym.vsub(v2, m),)) for es, v in cases for es2, v2 in c.cases]
    return IdxColl(z3.simplify(n), j, cases)


def b_enumerate(it, start=0):
    it = coll.simple(it) if isinstance(it, DList) else it
    if isinstance(it, GenIter):
        it = coll.simple(it.out)
    if isinstance(it, Coll) and it.axes is not None:
        it = coll.indexed(it)
    if isinstance(it, IdxColl):
        return IdxColl(it.n, it.i, [(es, (SymInt(it.i) + start, v)) for es, v in it.cases])
    if isinstance(it, DList):
        return DList(builtins.enumerate(it.concrete(), start))
    if isinstance(it, Coll):
        # unknown order: the index is an unknown injective function of the element
        raise Unsupported("enumerate of an unordered collection")
    if isinstance(it, Sym):
        raise Unsupported("enumerate")
    return builtins.enumerate(it, start)


class ListType:
    def __call__(self, x=()):
        if isinstance(x, (Sym, GenIter)) or hasattr(x, "dv_segments"):
            d = DList()
            d.segs = segments(x)
            if isinstance(x, GenIter):
                x.out._set([], "other", None)
            return d
        return DList(x)


def b_tuple(x=()):
    if is_axis(x):
        return AxisList(axis_value(x))
    if isinstance(x, DList) and x.is_concrete():
        return builtins.tuple(x.concrete())
    if isinstance(x, (Sym, GenIter)):
        return b_list(x)
    return builtins.tuple(x)


def b_reversed(x):
    if E.sort_rule is not None:
        r = E.sort_rule(x, "reversed", None)
        if r is not NotImplemented:
            return r
    if isinstance(x, DList):
        d = DList()
        d.segs = [(k, v if k == "item" else rev(v)) for k, v in builtins.reversed(x.segs)]
        return d
    if isinstance(x, Coll):
        return x
    if isinstance(x, IdxColl):
        return rev(x)
    return builtins.reversed(x)


def b_sorted(x, key=None, reverse=False):
    if E.sort_rule is not None:
        r = E.sort_rule(x, reverse, key)
        if r is not NotImplemented:
            return r
    if isinstance(x, (Sym, GenIter)):
        segs = segments(x)
        if builtins.all(k == "item" for k, _ in segs) and len(segs) <= 1:
            return DList([v for _, v in segs])
        d = DList()
        if segs:
            d.segs = [("coll", unordered(x))]
        return d
    return DList(builtins.sorted(x, key=key, reverse=reverse))


def b_int(x=0, *a):
    f = getattr(x, "dv_int", None)
    if f is not None:
        return f()
    if isinstance(x, (SymInt, sym.SymId, coll.Prod, coll.FormalSum)):
        return x
    if isinstance(x, SymBool):
        return x.asint()
    if isinstance(x, sym.SymFrac):
        return SymInt(sym.tdiv(x.a, x.b))
    f = getattr(x, "dv_int", None)
    if f is not None:
        return f()
    if isinstance(x, Sym):
        raise Unsupported(f"int of {type(x).__name__}")
    return builtins.int(x, *a)


def b_bool(x=False):
    if isinstance(x, (SymBool, NotSym)):
        return x
    return truth(x) if isinstance(x, Sym) else builtins.bool(x)


def b_abs(x):
    if isinstance(x, SymBool):
        return x.asint()
    return builtins.abs(x)


def b_sum(x, start=0):
    if is_axis(x):
        raise Unsupported("sum over axes")
    if isinstance(x, (Sym, GenIter)):
        parts = [start]
        for k, s in segments(x):
            if k == "item":
                parts.append(s)
            else:
                parts.append(("sum", list(coll.elems(s))))
        if builtins.all(isint(p) for p in parts):
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        return coll.FormalSum(parts)
    return builtins.sum(x, start)


def b_hash(x):
    if isinstance(x, tuple) and any(isinstance(y, Sym) for y in x):
        return SymHash(x)
    if isinstance(x, Sym):
        return SymHash(x)
    return builtins.hash(x)


class SymHash(Sym):
    """hash of a symbolic value; equal for equal values"""

    def __init__(self, of):
        self.of = of


TYPEMAP = {}


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return builtins.any(b_isinstance(x, y) for y in t)
    f = getattr(x, "dv_isinstance", None)
    if f is not None:
        r = f(t)
        if r is not NotImplemented:
            return r
    if t is b_int or t is builtins.int:
        return isinstance(x, (int, SymInt))
    if t is b_list:
        return isinstance(x, (list, DList))
    if t is b_tuple:
        return isinstance(x, (tuple, SymCoord, AxisList))
    if t is b_bool:
        return isinstance(x, (bool, SymBool, NotSym))
    if t is sym.Coordinate:
        return isinstance(x, SymCoord)
    if t is RoiType:
        return isinstance(x, sym.SymRoi)
    if t is mkset:
        return isinstance(x, (set, DSet))
    if t is dictT:
        return isinstance(x, (dict, DDict))
    if t is b_str:
        return isinstance(x, str)
    if isinstance(t, type):
        return isinstance(x, t)
    raise Unsupported(f"isinstance {t}")


def b_next(it, *d):
    f = getattr(it, "dv_next", None)
    if f is not None:
        return f(*d)
    if isinstance(it, Sym):
        raise Unsupported("next() of a symbolic collection")
    if it is None:
        e = TypeError("'NoneType' object is not an iterator")
        e.dv_code = True
        raise e
    return builtins.next(it, *d)


def b_iter(x, *a):
    if isinstance(x, DList):
        d = DList()
        d.segs = list(x.segs)
        return GenIter(d)
    if isinstance(x, (Coll, IdxColl)):
        d = DList()
        d.segs = segments(x)
        return GenIter(d)
    if isinstance(x, GenIter):
        return x
    return builtins.iter(x, *a)


def b_str(x="", *a):
    f = getattr(x, "dv_str", None)
    if f is not None:
        return f()
    if E.text is not None and isinstance(x, Sym):
        return E.text.piece(x)
    return builtins.str(x, *a)


def b_map(f, *its):
    if len(its) == 1:
        return comp("gen", its[0], 1, f, None)
    return comp("gen", b_zip(*its), len(its), f, None)


def b_filter(f, it):
    return comp("gen", it, 1, lambda x: x, f if f is not None else (lambda x: x))


def dictT(*a, **kw):
    return dset.dict_call(*a, **kw)


b_list = ListType()


def RoiType(offset=None, shape=None):
    return sym.SymRoi(offset, shape)


NS = dict(
    _dv_rt=DV, len=b_len, all=b_all, any=b_any, min=_minmax(min, False), max=_minmax(max, True), range=b_range, zip=b_zip,
    enumerate=b_enumerate, list=b_list, tuple=b_tuple, reversed=b_reversed, sorted=b_sorted, int=b_int, bool=b_bool,
    abs=b_abs, sum=b_sum, hash=b_hash, isinstance=b_isinstance, next=b_next, iter=b_iter, str=b_str, map=b_map,
    filter=b_filter, set=mkset, frozenset=mkset, dict=dictT,
)


class NullLogger:
    def __getattr__(self, n):
        return lambda *a, **k: None


class NP:
    @staticmethod
    def prod(x, *a, **k):
        if is_axis(x):
            v = axis_value(x)
            return coll.Prod(zi(v))
        import math

        return math.prod(x)

    @staticmethod
    def array(x, *a, **k):
        return x

    def __getattr__(self, n):
        raise Unsupported(f"numpy.{n}")


def copycopy(x):
    """copy.copy: attributes are shared"""
    f = getattr(x, "dv_shallow", None)
    if f is not None:
        return f()
    if isinstance(x, (DList, DDict, DSet)):
        return x.copy()
    if type(x).__module__.startswith("daisy") and hasattr(x, "__dict__"):
        if hasattr(type(x), "__copy__"):
            return type(x).__copy__(x)
        n = object.__new__(type(x))
        n.__dict__.update({k: v for k, v in x.__dict__.items() if not k.startswith("_dv_")})
        E.stamp += 1
        n.__dict__["_dv_stamp"] = E.stamp
        return n
    if isinstance(x, Sym):
        return x
    raise Unsupported(f"copy of {type(x).__name__}")


def deepcopy(x, memo=None):
    f = getattr(x, "dv_copy", None)
    if f is not None:
        return f()
    if isinstance(x, (DList, DDict, DSet)):
        return x.copy()
    if type(x).__module__.startswith("daisy") and hasattr(x, "__dict__"):
        if hasattr(type(x), "__deepcopy__"):
            return type(x).__deepcopy__(x, {})
        n = object.__new__(type(x))
        for k, v in x.__dict__.items():
            if k.startswith("_dv_"):
                continue
            n.__dict__[k] = deepcopy(v)
        E.stamp += 1
        n.__dict__["_dv_stamp"] = E.stamp
        return n
    return x


def standard_stubs():
    s = instr.stub
    np_ = NP()
    coord, roi = sym.Coordinate, RoiType

    def defaultdict(factory=None, *a, **k):
        if E.ddict_rule is not None:
            r = E.ddict_rule(factory)
            if r is not NotImplemented:
                return r
        return dset.DDict(factory=factory)

    cm = s("collections", defaultdict=defaultdict, deque=lambda it=(), *a: DList(it), OrderedDict=dictT)
    logging = s("logging", getLogger=lambda *a: NullLogger(), DEBUG=10, INFO=20, WARNING=30, ERROR=40)
    for n in ("debug", "info", "warning", "warn", "error", "exception", "critical", "basicConfig"):
        setattr(logging, n, lambda *a, **k: None)
    import itertools

    it = s("itertools", product=product, chain=Chain(), count=itertools.count, repeat=itertools.repeat)
    return {
        "funlib": s("funlib"), "funlib.math": s("funlib.math", cantor_number=sym.cantor_number),
        "funlib.geometry": s("funlib.geometry", Coordinate=coord, Roi=roi),
        "logging": logging, "collections": cm, "itertools": it, "numpy": np_,
        "copy": s("copy", deepcopy=deepcopy, copy=copycopy),
        **third_party(),
    }


class Absent(Sym):
    """something of a third-party module without contract"""


def third_party():
    s = instr.stub
    err = type("StreamClosedError", (IOError,), {})
    t = s("tornado")
    t.ioloop = s("tornado.ioloop", IOLoop=type("IOLoop", (Absent,), {}))
    t.iostream = s("tornado.iostream", IOStream=type("IOStream", (Absent,), {}), StreamClosedError=err)
    t.tcpclient = s("tornado.tcpclient", TCPClient=type("TCPClient", (object,), {}))
    t.tcpserver = s("tornado.tcpserver", TCPServer=type("TCPServer", (object,), {}))
    q = s("tqdm")
    q.auto = s("tqdm.auto", tqdm=Absent)
    return {"tornado": t, "tornado.ioloop": t.ioloop, "tornado.iostream": t.iostream,
            "tornado.tcpclient": t.tcpclient, "tornado.tcpserver": t.tcpserver, "dill": s("dill", dumps=Absent,
            loads=Absent), "tqdm": q, "tqdm.auto": q.auto}


class Chain:
    def __call__(self, *its):
        d = DList()
        for i in its:
            d.segs = d.segs + segments(i)
        return d

    def from_iterable(self, its):
        return self(*list(its))
