"""Sets and dictionaries (concrete keys; symbolic sets are added by the layers)."""
import builtins
import z3
from .core import E, Ax, Unsupported, Infeasible, e_sub
from .sym import Sym, SymBool, SymInt, SymVal, vsub, not_
from . import coll
from .coll import DList, Coll, Case, segments, unordered


class DSet(Sym):
    """A set of concrete (or few symbolic, compared by ==) elements."""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            if not any(same_key(x, y) for y in self.items):
                self.items.append(x)
        E.stamp += 1
        self.stamp = E.stamp

    def _set(self, items, kind, data):
        old = self.items
        self.items = items

        def undo():
            self.items = old

        E.effect(kind, self, data, undo)

    def lp_havoc(self, s):
        raise Unsupported("set modified in a loop over a symbolic collection")

    lp_apply = None

    def _find(self, x):
        for i, y in enumerate(self.items):
            if y is x:
                return i
        for i, y in enumerate(self.items):
            if bool(truth_eq(x, y)):
                return i
        return None

    def dv_contains(self, x):
        return self._find(x) is not None

    def add(self, x):
        if self._find(x) is None:
            self._set(self.items + [x], "other", None)

    def remove(self, x):
        i = self._find(x)
        if i is None:
            raise KeyError(x)
        self._set(self.items[:i] + self.items[i + 1:], "other", None)

    def discard(self, x):
        i = self._find(x)
        if i is not None:
            self._set(self.items[:i] + self.items[i + 1:], "other", None)

    def pop(self):
        if not self.items:
            raise KeyError("pop from an empty set")
        x = self.items[0]
        self._set(self.items[1:], "other", None)
        return x

    def dv_segments(self):
        return [("item", x) for x in self.items]

    def dv_len(self):
        return len(self.items)

    def __iter__(self):
        return iter(list(self.items))

    def copy(self):
        return DSet(self.items)

    def union(self, *os):
        r = list(self.items)
        for o in os:
            r += [x for k, x in segments(o)]
        return DSet(r)

    __or__ = union

    def difference(self, o):
        o = mkset(o)
        return DSet([x for x in self.items if o._find(x) is None])

    __sub__ = difference

    def update(self, *os):
        for o in os:
            for k, x in segments(o):
                if k != "item":
                    raise Unsupported("update of a concrete set with a symbolic collection")
                self.add(x)

    def __eq__(self, o):
        if isinstance(o, DSet):
            return len(self.items) == len(o.items) and all(o._find(x) is not None for x in self.items)
        return False

    def __ne__(self, o):
        return not (self == o)

    def __bool__(self):
        return bool(self.items)

    __hash__ = Sym.__hash__


def same_key(x, y):
    return x is y or bool(truth_eq(x, y))


def truth_eq(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return x == y
    return x == y


class USet(Coll):
    """set(<symbolic collection>)"""

    def __init__(self, cases):
        super().__init__(cases, unique=True)


def mkset(it=()):
    f = E.mkset_rule
    if f is not None:
        r = f(it)
        if r is not NotImplemented:
            return r
    if isinstance(it, (builtins.set, builtins.frozenset, builtins.dict)):
        return DSet(it)
    segs = segments(it)
    if all(k == "item" for k, _ in segs):
        return DSet([x for _, x in segs])
    return USet(unordered(it).cases)


E.mkset_rule = None


def coll_contains(c, x):
    raise Unsupported("membership in a symbolic collection")


class DDict(Sym):
    """A dictionary with concrete keys (or symbolic keys compared by ==)."""

    def __init__(self, pairs=(), factory=None):
        self.pairs = [tuple(p) for p in pairs]
        self.factory = factory
        E.stamp += 1
        self.stamp = E.stamp

    def _set(self, pairs, kind, data):
        old = self.pairs
        self.pairs = pairs

        def undo():
            self.pairs = old

        E.effect(kind, self, data, undo)

    def lp_havoc(self, s):
        raise Unsupported("dictionary modified in a loop over a symbolic collection")

    lp_apply = None

    def _find(self, k):
        for i, (a, _) in enumerate(self.pairs):
            if a is k:
                return i
        for i, (a, _) in enumerate(self.pairs):
            if bool(truth_eq(k, a)):
                return i
        return None

    def dv_contains(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            if self.factory is not None:
                v = self.factory()
                self._set(self.pairs + [(k, v)], "other", None)
                return v
            raise KeyError(k)
        return self.pairs[i][1]

    def __setitem__(self, k, v):
        i = self._find(k)
        if i is None:
            self._set(self.pairs + [(k, v)], "other", None)
        else:
            self._set(self.pairs[:i] + [(self.pairs[i][0], v)] + self.pairs[i + 1:], "other", None)

    def __delitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError(k)
        self._set(self.pairs[:i] + self.pairs[i + 1:], "other", None)

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.pairs[i][1]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self.pairs[i][1]
        del self[k]
        return v

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i is None:
            self[k] = d
            return d
        return self.pairs[i][1]

    def keys(self):
        return DList([k for k, _ in self.pairs])

    def values(self):
        return DList([v for _, v in self.pairs])

    def items(self):
        return DList([(k, v) for k, v in self.pairs])

    def update(self, o=(), **kw):
        if isinstance(o, DDict):
            for k, v in o.pairs:
                self[k] = v
        else:
            for k, v in (o.items() if isinstance(o, builtins.dict) else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return DDict(self.pairs, self.factory)

    def clear(self):
        self._set([], "other", None)

    def dv_segments(self):
        return [("item", k) for k, _ in self.pairs]

    def dv_len(self):
        return len(self.pairs)

    def __iter__(self):
        return iter([k for k, _ in self.pairs])

    def __bool__(self):
        return bool(self.pairs)

    __hash__ = Sym.__hash__


class Opaque(Sym):
    """a value that can be passed on, but not used"""

    def __init__(self, what):
        self.__dict__["what"] = what

    def sub(self, m):
        return self

    def __getattr__(self, k):
        if k.startswith("__") or k in ("stamp", "frozen"):
            raise AttributeError(k)
        raise Unsupported(self.__dict__["what"])

    def _no(self, *a):
        raise Unsupported(self.__dict__["what"])

    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __contains__ = __getitem__ = __setattr__ = _no
    __hash__ = Sym.__hash__


def mkdict(x=()):
    f = E.mkdict_rule
    if f is not None:
        r = f(x)
        if r is not NotImplemented:
            return r
    if isinstance(x, builtins.dict):
        return DDict(x.items())
    if isinstance(x, (DList, tuple)):
        if isinstance(x, DList) and not x.is_concrete():
            return Opaque("dictionary over a symbolic collection")
        d = DDict()
        for k, v in (x.concrete() if isinstance(x, DList) else x):
            i = d._find(k)
            if i is None:
                d.pairs.append((k, v))
            else:
                d.pairs[i] = (d.pairs[i][0], v)
        return d
    raise Unsupported("dict")


E.mkdict_rule = None
E.ddict_rule = None
E.dict_rule = None


def dict_call(*a, **kw):
    if E.dict_rule is not None:
        return E.dict_rule(*a, **kw)
    d = DDict()
    for x in a:
        if isinstance(x, DDict):
            d.pairs.extend(x.pairs)
        elif isinstance(x, builtins.dict):
            d.pairs.extend(x.items())
        else:
            d.pairs.extend(mkdict(x).pairs if isinstance(x, DList) else [tuple(p) for p in x])
    d.pairs.extend(kw.items())
    return d
