"""Symbolic values."""
import z3
from .core import E, Ax, NotAx, Univ, K, at, FD, FM, Pt, Axis, Unsupported, Infeasible, subst, e_sub


class Sym:
    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__") or name.startswith(("dv_", "_dv_")) or name == "is_dims":
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of {type(self).__name__}")

    def __iter__(self):
        raise Unsupported(f"iteration over {type(self).__name__} in native code")

    def __len__(self):
        raise Unsupported(f"native len of {type(self).__name__}")

    def __bool__(self):
        raise Unsupported(f"truth value of {type(self).__name__}")

    def __hash__(self):
        raise Unsupported(f"hash of {type(self).__name__}")

    def __str__(self):
        return f"<{type(self).__name__}>"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    """e: z3 Bool or Ax"""

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def z(self):
        if isinstance(self.e, Ax):
            raise Unsupported("axis-quantified condition inside of an expression")
        return self.e

    def sub(self, m):
        return SymBool(e_sub(self.e, m))

    def asint(self):
        return SymInt(z3.If(self.z(), z3.IntVal(1), z3.IntVal(0)))

    def __sub__(self, o):
        return self.asint() - o

    def __rsub__(self, o):
        return o - self.asint()

    def __add__(self, o):
        return self.asint() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.asint() * o

    __rmul__ = __mul__

    def __and__(self, o):
        return SymBool(z3.And(self.z(), zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z(), zb(o)))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.z() == zb(o))
        if isinstance(o, (int, SymInt)):
            return self.asint() == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def __gt__(self, o):
        return self.asint() > o

    def __lt__(self, o):
        return self.asint() < o

    def __ge__(self, o):
        return self.asint() >= o

    def __le__(self, o):
        return self.asint() <= o

    __hash__ = Sym.__hash__


def zb(x):
    if isinstance(x, SymBool):
        return x.z()
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise Unsupported(f"not a boolean: {x!r}")


def not_(x):
    if isinstance(x, SymBool):
        if isinstance(x.e, Ax):
            return NotSym(x)
        return SymBool(z3.Not(x.e))
    if isinstance(x, NotSym):
        return x.x
    if isinstance(x, Sym):
        return not truth(x)
    return not x


class NotSym(Sym):
    """not of an axis-quantified condition"""

    def __init__(self, x):
        self.x = x

    def __bool__(self):
        return not bool(self.x)


def truth(x):
    from . import coll

    n = coll.length(x) if isinstance(x, (coll.Coll, coll.DList, coll.IdxColl)) else None
    if n is not None:
        return bool(n > 0)
    return bool(x)


def zi(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return x.asint().e
    raise TypeError(f"not an integer: {type(x)}")


def isint(x):
    return isinstance(x, (int, SymInt, SymBool))


def fdiv(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
        return z3.IntVal(a.as_long() // b.as_long())
    if z3.is_int_value(b) and b.as_long() == 1:
        return a
    return FD(a, b)


def fmod(a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
        return z3.IntVal(a.as_long() % b.as_long())
    if z3.is_int_value(b) and b.as_long() == 1:
        return z3.IntVal(0)
    return FM(a, b)


def tdiv(a, b):
    """int(a / b) for b > 0 (floats taken as exact)"""
    return z3.If(a >= 0, fdiv(a, b), -fdiv(-a, b))


class SymInt(Sym):
    def __init__(self, e):
        self.e = e if isinstance(e, z3.ExprRef) else z3.IntVal(e)

    def sub(self, m):
        return SymInt(subst(self.e, m))

    def _op(self, o, f):
        if not isint(o):
            return NotImplemented
        return SymInt(f(self.e, zi(o)))

    def _rop(self, o, f):
        if not isint(o):
            return NotImplemented
        return SymInt(f(zi(o), self.e))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._rop(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._rop(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, tuple) and getattr(self, "is_dims", False) and len(o) == 1:
            return AxisList(o[0])
        from . import coll
        if isinstance(o, coll.DList) and getattr(self, "is_dims", False):
            items = o.concrete()
            if len(items) == 1:
                return AxisList(items[0])
        return self._rop(o, lambda a, b: a * b)

    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def _nz(self, b):
        if bool(SymBool(zi(b) == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")

    def __floordiv__(self, o):
        if not isint(o): return NotImplemented
        self._nz(o)
        return SymInt(fdiv(self.e, zi(o)))

    def __rfloordiv__(self, o):
        if not isint(o): return NotImplemented
        self._nz(self)
        return SymInt(fdiv(zi(o), self.e))

    def __mod__(self, o):
        if not isint(o): return NotImplemented
        self._nz(o)
        return SymInt(fmod(self.e, zi(o)))

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        if not isint(o): return NotImplemented
        self._nz(self)
        return SymInt(fmod(zi(o), self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if not isint(o): return NotImplemented
        self._nz(o)
        return SymFrac(self.e, zi(o))

    def __rtruediv__(self, o):
        return SymInt(zi(o)) / self

    def _cmp(self, o, f):
        if isint(o):
            return SymBool(f(self.e, zi(o)))
        if isinstance(o, float) and o == int(o):
            return SymBool(f(self.e, z3.IntVal(int(o))))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("symbolic integer in native code")

    __int__ = __index__

    def bit_length(self):
        raise Unsupported("bit_length")


class SymFrac(Sym):
    """a / b, only usable through int()"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def sub(self, m):
        return SymFrac(subst(self.a, m), subst(self.b, m))


class AxisList(Sym):
    """A sequence with one entry per axis; value is the entry of axis K."""

    def __init__(self, value):
        self.value = value

    def sub(self, m):
        return AxisList(vsub(self.value, m))


class SymCoord(Sym):
    """Coordinate of the (arbitrary) number of dimensions; t: z3 Int term in K."""

    is_none = False

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return SymCoord(subst(self.t, m))

    def _other(self, o):
        if isinstance(o, SymCoord):
            return o.t
        if isint(o):
            return zi(o)
        return None

    def _op(self, o, f):
        b = self._other(o)
        if b is None:
            raise coord_type_error(o)
        return SymCoord(f(self.t, b))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)

    def _nz(self, o):
        b = self._other(o)
        if b is None:
            raise coord_type_error(o)
        if not bool(SymBool(Ax(b != 0))):
            raise ZeroDivisionError()
        return b

    def __floordiv__(self, o): return SymCoord(fdiv(self.t, self._nz(o)))
    def __mod__(self, o): return SymCoord(fmod(self.t, self._nz(o)))
    def floor_division(self, o): return self // o
    def ceil_division(self, o): return (self + o - 1) // o
    def round_division(self, o): return (self + (o - 1) // 2) // o

    def __truediv__(self, o):
        b = self._nz(o)
        if not E.entails(Ax(b > 0)):
            raise Unsupported("division by possibly negative coordinate")
        return SymCoord(tdiv(self.t, b))

    def __neg__(self): return SymCoord(-self.t)
    def __abs__(self): return SymCoord(z3.If(self.t >= 0, self.t, -self.t))

    def __eq__(self, o):
        if isinstance(o, AxisList) and isint(o.value):
            o = SymCoord(zi(o.value))
        if isinstance(o, SymCoord):
            return SymBool(Ax(self.t == o.t))
        return False

    def __ne__(self, o):
        return not_(self == o)

    # tuples compare lexicographically; nothing in reach needs it
    def _lex(self, o):
        raise Unsupported("lexicographic comparison of coordinates")

    __lt__ = __gt__ = __le__ = __ge__ = _lex
    __hash__ = Sym.__hash__

    @property
    def dims(self):
        return DIMS()

    def is_multiple_of(self, o):
        return SymBool(Ax(fmod(self.t, self._nz(o)) == 0))


def coord_type_error(o):
    if isinstance(o, Sym):
        raise Unsupported(f"coordinate arithmetic with {type(o).__name__}")
    e = TypeError("coordinate arithmetic with %s not supported" % type(o))
    e.dv_code = True
    return e


_dims = z3.Int("DIMS")


def DIMS():
    d = SymInt(_dims)
    d.is_dims = True
    return d


def as_coord(x):
    from . import coll

    if isinstance(x, SymCoord):
        return x
    if isinstance(x, AxisList):
        v = x.value
        if isinstance(v, SymFrac):
            return SymCoord(tdiv(v.a, v.b))
        if v is None:
            return NoneCoord()
        return SymCoord(zi(v))
    raise Unsupported(f"Coordinate from {type(x).__name__}")


class NoneCoord(Sym):
    """Offset of an empty ROI (None on every axis); any use but shape tests is outside of the subset"""

    is_none = True

    def sub(self, m):
        return self


class CoordType:
    """Stands for funlib.geometry.Coordinate"""

    def __call__(self, *a):
        if len(a) == 1:
            return as_coord(a[0])
        raise Unsupported("Coordinate with explicit components")


Coordinate = CoordType()


class SymRoi(Sym):
    """funlib.geometry.Roi with offset/shape coordinates (bounded on all axes)."""

    def __init__(self, offset, shape):
        self.__dict__["offset"] = offset if isinstance(offset, NoneCoord) else as_coord(offset)
        self.__dict__["shape"] = as_coord(shape)

    def sub(self, m):
        return SymRoi(self.offset.sub(m), self.shape.sub(m))

    @property
    def begin(self): return self.offset

    @property
    def end(self):
        return self.offset + self.shape

    def get_begin(self): return self.begin
    def get_end(self): return self.end
    def get_offset(self): return self.offset
    def get_shape(self): return self.shape

    @property
    def dims(self): return DIMS()

    @property
    def empty(self):
        return NotSym(SymBool(Ax(self.shape.t > 0)))

    @property
    def unbounded(self): return False

    def contains(self, o):
        if isinstance(o, SymRoi):
            if o.empty:
                if self.empty:
                    return True
                return self.contains(o.begin)
            return self.contains(o.begin) and self.contains(o.end - 1)
        if isinstance(o, NoneCoord):
            return False
        o = as_coord(o)
        return SymBool(Ax(z3.And(o.t >= self.begin.t, o.t < self.end.t)))

    def intersects(self, o):
        if self.empty or o.empty:
            return False
        return SymBool(Ax(z3.And(self.begin.t < o.end.t, o.begin.t < self.end.t)))

    def intersect(self, o):
        if not self.intersects(o):
            return SymRoi(NoneCoord(), SymCoord(z3.IntVal(0)))
        b = SymCoord(z3.If(self.begin.t >= o.begin.t, self.begin.t, o.begin.t))
        e = SymCoord(z3.If(self.end.t <= o.end.t, self.end.t, o.end.t))
        return SymRoi(b, e - b)

    def union(self, o):
        if self.empty:
            return o
        if o.empty:
            return self
        b = SymCoord(z3.If(self.begin.t <= o.begin.t, self.begin.t, o.begin.t))
        e = SymCoord(z3.If(self.end.t >= o.end.t, self.end.t, o.end.t))
        return SymRoi(b, e - b)

    def shift(self, by): return SymRoi(self.offset + by, self.shape)

    def grow(self, neg=0, pos=0):
        return SymRoi(self.offset - neg, self.shape + neg + pos)

    def snap_to_grid(self, voxel_size, mode="grow"):
        v = as_coord(voxel_size)
        if not bool(SymBool(Ax(v.t != 0))):
            raise AssertionError("Voxel size cannot contain zero")
        if mode == "grow":
            b, e = self.begin // v, self.end.ceil_division(v)
        elif mode == "shrink":
            b, e = self.begin.ceil_division(v), self.end // v
        elif mode == "closest":
            b, e = self.begin.round_division(v), self.end.round_division(v)
        else:
            raise RuntimeError("Unknown mode")
        return SymRoi(b * v, (e - b) * v)

    def copy(self): return SymRoi(self.offset, self.shape)
    def __add__(self, o): return self.shift(o)
    def __sub__(self, o): return self.shift(-o)
    def __mul__(self, o): return SymRoi(self.offset * o, self.shape * o)
    def __floordiv__(self, o): return SymRoi(self.offset // o, self.shape // o)

    def __eq__(self, o):
        if isinstance(o, SymRoi):
            if isinstance(self.offset, NoneCoord) or isinstance(o.offset, NoneCoord):
                raise Unsupported("comparison with empty ROI")
            return SymBool(Ax(z3.And(self.offset.t == o.offset.t, self.shape.t == o.shape.t)))
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __setattr__(self, k, v):
        # Rois are mutable in funlib; mutation would need tracked state
        raise Unsupported("mutation of a Roi")


def Roi(offset=None, shape=None):
    return SymRoi(offset, shape)


class SymId(Sym):
    """int(cantor_number(c)): injective on coordinates without negative entries."""

    def __init__(self, t):
        self.t = t

    def sub(self, m):
        return SymId(subst(self.t, m))

    def __eq__(self, o):
        if isinstance(o, SymId):
            if not (E.entails(Ax(self.t >= 0)) and E.entails(Ax(o.t >= 0))):
                raise Unsupported("identity of a block at a negative index")
            return SymBool(Ax(self.t == o.t))
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__


def cantor_number(c):
    return SymId(as_coord(c).t)


class SymVal(Sym):
    """Value of an uninterpreted sort (task, node, stream, ...)."""

    def __init__(self, e):
        self.e = e

    def sub(self, m):
        return SymVal(subst(self.e, m))

    def __eq__(self, o):
        if isinstance(o, SymVal) and o.e.sort() == self.e.sort():
            return SymBool(self.e == o.e)
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__


def vsub(v, m):
    """Substitution in a value (values are immutable under substitution)."""
    if not m:
        return v
    if isinstance(v, Sym):
        return v.sub(m)
    if isinstance(v, tuple):
        return tuple(vsub(x, m) for x in v)
    if v is None or isinstance(v, (int, str, bool, float)):
        return v
    f = getattr(v, "dv_sub", None)
    if f is not None:
        return f(m)
    import types, enum

    if isinstance(v, (enum.Enum, type, types.FunctionType, types.MethodType, types.ModuleType)):
        return v
    if hasattr(v, "__dict__") and type(v).__module__.startswith("daisy"):
        n = object.__new__(type(v))
        for k, x in v.__dict__.items():
            if not k.startswith("_dv_"):
                n.__dict__[k] = vsub(x, m)
        E.stamp += 1
        n.__dict__["_dv_stamp"] = E.stamp
        return n
    raise Unsupported(f"substitution in {type(v).__name__}")


def merge(cases):
    """cases: [(z3 guard, value)], exhaustive and disjoint. One value, using if-then-else."""
    v0 = cases[0][1]
    if len(cases) == 1:
        return v0
    vals = [v for _, v in cases]
    if all(v is v0 for v in vals):
        return v0
    if all(isinstance(v, (bool, SymBool)) for v in vals):
        r = zb(vals[-1])
        for g, v in reversed(cases[:-1]):
            r = z3.If(g, zb(v), r)
        return SymBool(z3.simplify(r))
    if all(isint(v) for v in vals):
        r = zi(vals[-1])
        for g, v in reversed(cases[:-1]):
            r = z3.If(g, zi(v), r)
        return SymInt(r)
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge([(g, v[i]) for g, v in cases]) for i in range(len(v0)))
    if all(isinstance(v, SymVal) and v.e.sort() == v0.e.sort() for v in vals):
        r = vals[-1].e
        for g, v in reversed(cases[:-1]):
            r = z3.If(g, v.e, r)
        return SymVal(r)
    from . import coll

    if all(isinstance(v, coll.SymRange) for v in vals):
        return coll.SymRange(*[merge([(g, getattr(v, a)) for g, v in cases]) for a in ("lo", "hi", "step")])
    if all(isinstance(v, (coll.DList, tuple, coll.FinChoice)) for v in vals):
        out = []
        for g, v in cases:
            if isinstance(v, coll.FinChoice):
                out.extend((z3.And(g, h), items) for h, items in v.cases)
            else:
                out.append((g, list(v) if isinstance(v, tuple) else v.concrete()))
        return coll.FinChoice(out)
    if all(type(v) in (str, int, type(None)) and v == v0 for v in vals):
        return v0
    raise Unsupported(f"cannot merge {[type(v).__name__ for v in vals]}")
