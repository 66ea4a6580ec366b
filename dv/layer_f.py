"""The context passed to workers: contracts of Context and of the parts of Worker that handle it.

Variable names and values are symbolic strings (z3 strings) and the variables of a context form an arbitrary finite
mapping, so the round trip is proved for any number of variables with any text. Assumed: quote/unquote of urllib (the
result of quote has no reserved character, unquote is its inverse), and that every value has a text (str()).
"""
import os as real_os
from .harness import *
from .sym import truth, not_

Str = z3.StringSort()
Quote = {n: z3.Function(n, Str, Str) for n in ("quote", "quote_plus")}
Unquote = {n: z3.Function(n, Str, Str) for n in ("unquote", "unquote_plus")}
SAFE = "_.-~"


class Text(Sym):
    """a string: a sequence of literals and z3 string terms; note: the structure of the terms that matters"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif not (isinstance(p, str) and p == ""):
                out.append(p)
        self.parts = tuple(out)

    @staticmethod
    def of(x):
        """the string x"""
        if isinstance(x, Text):
            return x
        if isinstance(x, str):
            return Text([x])
        raise Unsupported(f"{type(x).__name__} as a string")

    def z(self):
        ps = [z3.StringVal(p) if isinstance(p, str) else p for p in self.parts]
        return z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else z3.StringVal("")

    def sub(self, m):
        return Text([p if isinstance(p, str) else z3.substitute(p, *m) for p in self.parts])

    def dv_str(self):
        return self

    def has(self, lit):
        """condition: the string contains lit"""
        if any(isinstance(p, str) and lit in p for p in self.parts):
            return TRUE
        if len(lit) > 1 and len(self.parts) > 1:
            raise Unsupported("search in a composed string")
        return z3.simplify(z3.Or(*[z3.Contains(p, z3.StringVal(lit)) for p in self.parts if not isinstance(p, str)], FALSE))

    def dv_contains(self, x):
        return SymBool(self.has(x if isinstance(x, str) else only_literal(x)))

    def __contains__(self, x):
        return truth(self.dv_contains(x))

    def __eq__(self, o):
        if isinstance(o, (Text, str)):
            return SymBool(z3.simplify(self.z() == Text.of(o).z()))
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        return Text(self.parts + Text.of(o).parts)

    def __radd__(self, o):
        return Text(Text.of(o).parts + self.parts)

    def __bool__(self):
        return E.branch(self.z() != z3.StringVal(""))

    def __str__(self):
        raise Unsupported("native string operation on a symbolic string")

    __repr__ = __format__ = lambda self, *a: Text.__str__(self)

    def pieces(self, sep):
        """(pieces, clean): the literal separators; clean: no term contains the separator"""
        clean = not any(not isinstance(p, str) and E.branch(z3.Contains(p, z3.StringVal(sep))) for p in self.parts)
        out = [[]]
        for p in self.parts:
            if isinstance(p, str):
                a = p.split(sep)
                out[-1].append(a[0])
                out.extend([x] for x in a[1:])
            else:
                out[-1].append(p)
        return [Text(x) for x in out], clean

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or len(sep) != 1 or not isinstance(maxsplit, int):
            raise Unsupported("split")
        ps, clean = self.pieces(sep)
        if maxsplit >= 0 and len(ps) > maxsplit + 1:
            raise Unsupported("split")
        if not clean and maxsplit >= 0:
            i = first_dirty(self, sep)
            if maxsplit == 1 and len(ps) == 2 and i == 1:
                return DList(ps)  # only the part after the first separator contains it
        if not clean:
            return Pieces(len(ps) + 1)
        return DList(ps)

    def partition(self, sep):
        ps, clean = self.pieces(sep)
        if len(ps) == 1 and clean:
            return (ps[0], Text([]), Text([]))
        if len(ps) >= 2 and (clean or first_dirty(self, sep) >= 1):
            rest = []
            for p in ps[1:]:
                rest += [sep] + list(p.parts)
            return (ps[0], Text([sep]), Text(rest[1:]))
        k = E.fresh("head", Str)
        v = E.fresh("tail", Str)
        E.assume(z3.And(self.z() == z3.Concat(k, z3.StringVal(sep), v), z3.Not(z3.Contains(k, z3.StringVal(sep)))))
        return (Text([k]), Text([sep]), Text([v]))

    def strip(self, *a):
        return Text([E.fresh("stripped", Str)])

    lower = upper = strip

    def encode(self, *a):
        raise Unsupported("bytes")


def first_dirty(t, sep):
    """index of the piece in which the first term that contains the separator lies"""
    n = 0
    for p in t.parts:
        if isinstance(p, str):
            n += p.count(sep)
        elif E.branch(z3.Contains(p, z3.StringVal(sep))):
            return n
    return n


def only_literal(x):
    if isinstance(x, Text) and all(isinstance(p, str) for p in x.parts):
        return "".join(x.parts)
    raise Unsupported("search for a symbolic string")


class Pieces(Sym):
    """the result of a split with at least n pieces"""

    def __init__(self, n):
        self.n = n

    def sub(self, m):
        return self

    def __iter__(self):
        raise ValueError(f"at least {self.n} pieces (not as many as there are separators in the format)")


class Value(Sym):
    """a value of a context: anything; text: what str() yields; isstr: whether it is a string"""

    def __init__(self, text, isstr):
        self.text, self.isstr = text, isstr

    def sub(self, m):
        return Value(z3.substitute(self.text, *m), z3.substitute(self.isstr, *m))

    def dv_str(self):
        return Text([self.text])

    def as_text(self):
        if not E.branch(self.isstr):
            e = TypeError("not a string")
            e.dv_code = True
            raise e
        return Text([self.text])

    def dv_contains(self, x):
        return self.as_text().dv_contains(x)

    def __eq__(self, o):
        if isinstance(o, Value):
            return SymBool(z3.simplify(self.text == o.text))
        raise Unsupported("comparison of a value")

    __hash__ = Sym.__hash__
    __str__ = __repr__ = __format__ = Text.__str__


def text_of(x):
    """the z3 text of a value"""
    if isinstance(x, Value):
        return x.text, x.isstr
    if isinstance(x, Text):
        return x.z(), TRUE
    if isinstance(x, str):
        return z3.StringVal(x), TRUE
    if isinstance(x, SymInt):
        return TextOfInt(x.e), FALSE
    if x is None or isinstance(x, int):
        return z3.StringVal(str(x)), FALSE
    raise Unsupported(f"{type(x).__name__} as a value of a context")


TextOfInt = z3.Function("text_of_int", z3.IntSort(), Str)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def local_terms(t):
    """values per element must be functions of the element"""
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith((
                "head!", "tail!", "stripped!")):
            raise Unsupported("part of a string per element")
        stack.extend(x.children())


class VarMap(Sym):
    """a finite mapping of strings to values"""

    def __init__(self, has, val):
        self.f = (has, val)  # val: key -> (text, isstr)
        E.stamp += 1
        self.stamp = E.stamp

    def sub(self, m):
        return self

    has = property(lambda s: s.f[0])
    val = property(lambda s: s.f[1])

    def _set(self, has, val, kind="put", data=None):
        old = self.f
        self.f = (has, val)

        def undo():
            self.f = old

        E.effect(kind, self, data, undo)

    @staticmethod
    def key(k):
        if isinstance(k, Value):
            raise Unsupported("a value as a key")
        return Text.of(k).z()

    def __setitem__(self, k, v):
        kt, (t, s) = self.key(k), text_of(v)
        h, f = self.f
        self._set(lambda x: z3.Or(x == kt, h(x)), lambda x: (z3.If(x == kt, t, f(x)[0]), z3.If(x == kt, s, f(x)[1])),
                  "put", (kt, t, s))

    def __getitem__(self, k):
        kt = self.key(k)
        if not E.branch(self.has(kt)):
            raise KeyError("variable")
        return Value(*self.val(kt))

    def get(self, k, d=None):
        return self[k] if E.branch(self.has(self.key(k))) else d

    def dv_contains(self, k):
        return SymBool(z3.simplify(self.has(self.key(k))))

    def items(self):
        x = E.const("var", Str)
        return Coll([Case([x], [self.has(x)], (Text([x]), Value(*self.val(x))))], unique=True)

    def keys(self):
        x = E.const("var", Str)
        return Coll([Case([x], [self.has(x)], Text([x]))], unique=True)

    def values(self):
        x = E.const("var", Str)
        return Coll([Case([x], [self.has(x)], Value(*self.val(x)))])

    def dv_segments(self):
        return [("coll", self.keys())]

    def copy(self):
        return VarMap(*self.f)

    dv_copy = dv_shallow = copy

    def update(self, *o, **kw):
        for x in o:
            if not isinstance(x, VarMap):
                raise Unsupported("update")
            h, f = self.f
            g, k = x.f
            self._set(lambda y, h=h, g=g: z3.Or(g(y), h(y)), lambda y, f=f, k=k, g=g: tuple(
                z3.If(g(y), a, b) for a, b in zip(k(y), f(y))), "other")
        for k, v in kw.items():
            self[k] = v

    def __delitem__(self, k):
        kt = self.key(k)
        if not E.branch(self.has(kt)):
            raise KeyError("variable")
        h, f = self.f
        self._set(lambda x: z3.And(h(x), x != kt), f, "other")

    def pop(self, k, *d):
        if d and not E.branch(self.has(self.key(k))):
            return d[0]
        v = self[k]
        del self[k]
        return v

    # loops over variables
    def lp_havoc(self, s):
        E.counter += 1
        h, t, b = (z3.Function(f"hv!{n}!{E.counter}", Str, r) for n, r in (("has", z3.BoolSort()), ("val", Str), (
            "isstr", z3.BoolSort())))
        self._set(lambda x: h(x), lambda x: (t(x), b(x)), "local")

    def lp_apply(self, s, nexts, partial):
        if partial is not None:
            return self.lp_havoc(s)
        h, f = self.f
        for c, o in nexts:
            mine = [e for e in o.effects if e.obj is self and e.kind != "local"]
            if not mine:
                continue
            if len(mine) != 1 or mine[0].kind != "put" or len(c.binders) != 1:
                raise Unsupported("variables modified in a loop")
            k, t, b = mine[0].data
            local_terms(t)
            x = c.binders[0]
            if not z3.simplify(k).eq(x):
                raise Unsupported("variables set under computed names")
            g = z3.And(*[e for e in c.entries + o.guards() if not isinstance(e, (Def, core.Nondet))], TRUE)
            at = lambda e, y, x=x: z3.substitute(e, (x, y))
            h, f = (lambda y, h=h, g=g: z3.Or(at(g, y), h(y))), (lambda y, f=f, g=g, t=t, b=b: (
                z3.If(at(g, y), at(t, y), f(y)[0]), z3.If(at(g, y), at(b, y), f(y)[1])))
        self._set(h, f, "other")


class Joined(Sym):
    """sep.join(pieces)"""

    def __init__(self, sep, segs):
        self.sep, self.segs = sep, segs

    def sub(self, m):
        return self

    def dv_str(self):
        return self

    def split(self, sep=None, maxsplit=-1):
        if sep != self.sep or maxsplit != -1:
            raise Unsupported("split of a joined string")
        for k, s in self.segs:
            for c in (elems(s) if k != "item" else [Case([], [], s)]):
                with E.scope():
                    ts, es, v = c.fresh(lambda n, so: E.fresh(n, so))
                    E.assume_all(es)
                    E.prove("C18/context: a variable does not look like several in the environment", z3.Not(Text.of(
                        v).has(sep)))
        d = DList()
        d.segs = list(self.segs)
        return d

    __str__ = __repr__ = __format__ = Text.__str__


class TextRules:
    @staticmethod
    def piece(x):
        f = getattr(x, "dv_str", None)
        if f is not None:
            return f()
        if isinstance(x, (str, int, type(None))):
            return Text([str(x)])
        if isinstance(x, SymInt):
            return Text([TextOfInt(x.e)])
        if isinstance(x, Sym):
            raise Unsupported(f"text of {type(x).__name__}")
        return Text([str(x)])

    @classmethod
    def concat(cls, parts):
        ps = [cls.piece(p) for p in parts]
        if len(ps) == 1:
            return ps[0]
        return Text([q for p in ps for q in Text.of(p).parts])

    @classmethod
    def mod(cls, s, v):
        vs = list(v) if isinstance(v, tuple) else [v]
        if not any(isinstance(x, Sym) for x in vs):
            try:
                return s % v
            except TypeError:
                return s
        segs = s.split("%s")
        if len(segs) != len(vs) + 1 or any("%" in x for x in segs):
            raise Unsupported("format")
        out = []
        for a, b in zip(segs, vs + [""]):
            out += [a, b]
        return cls.concat([x for x in out if not (isinstance(x, str) and x == "")])

    @staticmethod
    def join(sep, it):
        segs = segments(it)
        if all(k == "item" for k, _ in segs):
            vs = [v for _, v in segs]
            if all(isinstance(v, str) for v in vs):
                return sep.join(vs)
            out = []
            for v in vs:
                out += [sep] + list(Text.of(v).parts)
            return Text(out[1:])
        return Joined(sep, segs)


def quoting(n):
    def f(s, safe="/" if n == "quote" else "", *a, **k):
        if isinstance(s, str) and isinstance(safe, str):
            import urllib.parse

            return getattr(urllib.parse, n)(s, safe)
        t = s.as_text() if isinstance(s, Value) else Text.of(s)
        if not isinstance(safe, str):
            raise Unsupported("quote")
        q = Quote[n](t.z()) if safe in ("/", "") else z3.Function(f"{n}({safe})", Str, Str)(t.z())
        for c in ":=;,&|\n ":
            if c not in safe:
                E.assume(Def(z3.Not(z3.Contains(q, z3.StringVal(c)))))
        QUOTED.append((n, q, t))
        return Text([q])

    return f


QUOTED = []


def unquoting(n):
    def f(s, *a, **k):
        if isinstance(s, str):
            import urllib.parse

            return getattr(urllib.parse, n)(s)
        t = s.as_text() if isinstance(s, Value) else Text.of(s)
        if len(t.parts) == 1 and z3.is_app(t.parts[0]):
            d = t.parts[0].decl().name()
            if d.split("(")[0] == n[2:]:
                return Text([t.parts[0].arg(0)])
        if not t.parts:
            return t
        return Text([Unquote[n](t.z())])

    return f


def dict_rule(*a, **kw):
    m = VarMap(lambda x: FALSE, lambda x: (z3.StringVal(""), TRUE))
    for x in a:
        if isinstance(x, VarMap):
            m.f = x.f
        else:
            return pairs(x) if not kw else NotImplemented
    for k, v in kw.items():
        h, f = m.f
        kt, (t, s) = z3.StringVal(k), text_of(v)
        m.f = (lambda x, h=h, kt=kt: z3.Or(x == kt, h(x))), (lambda x, f=f, kt=kt, t=t, s=s: (
            z3.If(x == kt, t, f(x)[0]), z3.If(x == kt, s, f(x)[1])))
    return m


def pairs(x):
    """a mapping of (key, value) pairs"""
    m = VarMap(lambda y: FALSE, lambda y: (z3.StringVal(""), TRUE))
    if isinstance(x, dict):
        return dict_rule(**x)
    for k, s in segments(x):
        if k == "item":
            a, b = s
            m[a] = b
            continue
        for c in elems(s):
            v = c.value
            a, b = tuple(v)
            kt, (t, st) = VarMap.key(a), text_of(b)
            local_terms(t)
            if len(c.binders) != 1 or not z3.simplify(kt).eq(c.binders[0]):
                raise Unsupported("mapping with computed names")
            y0 = c.binders[0]
            g = z3.And(*[e for e in c.entries if not isinstance(e, (Def, core.Nondet))], TRUE)
            h, f = m.f
            at = lambda e, y, y0=y0: z3.substitute(e, (y0, y))
            m.f = (lambda y, h=h, g=g: z3.Or(at(g, y), h(y))), (lambda y, f=f, g=g, t=t, st=st: (
                z3.If(at(g, y), at(t, y), f(y)[0]), z3.If(at(g, y), at(st, y), f(y)[1])))
    return m


class Environ:
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        if not isinstance(v, (str, Text, Joined)):
            e = TypeError("str expected")
            e.dv_code = True
            raise e
        old = dict(self.d)
        self.d[k] = v

        def undo():
            self.d = old

        E.effect("other", None, None, undo)

    def get(self, k, d=None):
        return self.d.get(k, d)

    def __contains__(self, k):
        return k in self.d

    def setdefault(self, k, v):
        if k not in self.d:
            self[k] = v
        return self.d[k]

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def pop(self, k, *a):
        old = dict(self.d)
        r = self.d.pop(k, *a)
        E.effect("other", None, None, lambda: self.__dict__.__setitem__("d", old))
        return r

    def __delitem__(self, k):
        self.pop(k)

    def __getattr__(self, n):
        raise Unsupported(f"os.environ.{n}")


ENV = Environ()


def stubs():
    s = instr.stub
    o = s("os")
    o.__dict__.update({k: v for k, v in real_os.__dict__.items() if not k.startswith("__")})
    o.environ = ENV
    o.getenv = lambda k, d=None: ENV.d.get(k, d)
    o.putenv = None
    p = s("urllib.parse", **{n: quoting(n) for n in Quote}, **{n: unquoting(n) for n in Unquote})
    u = s("urllib", parse=p)
    return {"os": o, "urllib": u, "urllib.parse": p}


install(stubs())


def enable():
    E.fol = True
    E.fol_loop = None
    E.fol_while = None
    E.fol_empty = None
    E.empty_bag = None
    E.mute = 0
    E.timeout_ms = 20000
    E.feas_ms = 1500
    E.text = TextRules
    E.dict_rule = dict_rule
    E.mkdict_rule = pairs
    ENV.d = {}
    QUOTED.clear()


def arbitrary(tag):
    h, t, s = (z3.Function(f"{tag}_{n}", Str, r) for n, r in (("has", z3.BoolSort()), ("val", Str), ("isstr", z3.BoolSort())))
    return (lambda x: h(x)), (lambda x: (t(x), s(x)))


def store(ctx):
    """the mapping in which a context keeps its variables"""
    ms = [k for k, v in ctx.__dict__.items() if isinstance(v, VarMap)]
    if len(ms) != 1:
        raise Unsupported("a context is not kept in one dictionary")
    return ctx.__dict__[ms[0]]


def any_context(cm, tag="ctx"):
    """a context with arbitrary variables; like every context it has a variable logdir"""
    c = cm.Context()
    m = store(c)
    m.f = arbitrary(tag)
    E.assume(m.has(z3.StringVal("logdir")))
    m.stamp = 0
    c.__dict__["_dv_stamp"] = 0
    return c, m


def some(n="v"):
    return Value(E.fresh(n, Str), E.fresh(n + "_isstr", z3.BoolSort()))


def same_map(name, a, b, but=None):
    """a and b hold the same variables with the same text"""
    x = E.fresh("name", Str)
    cond = TRUE if but is None else x != but
    E.prove(name, z3.Implies(cond, z3.And(a[0](x) == b[0](x), z3.Implies(a[0](x), a[1](x)[0] == b[1](x)[0]))))


def context(prop):
    enable()
    import daisy.context as cm

    nm = f"{prop}/Context"
    logdir = [None]
    cm.get_log_basedir = lambda: logdir[0]

    def construct():
        logdir[0] = some("basedir")
        vs = dict(hostname=some("hostname"), port=some("port"), task_id=some("task_id"))
        with no_raise(f"{nm}.__init__: never raises"):
            c = cm.Context(**vs)
        m = store(c)
        x = E.fresh("name", Str)
        want = dict(vs, logdir=logdir[0])
        E.prove(f"{nm}.__init__: holds the given variables and the log directory", z3.And(m.has(x) == z3.Or(*[
            x == z3.StringVal(k) for k in want]), *[m.val(z3.StringVal(k))[0] == v.text for k, v in want.items()]))
        c2 = cm.Context()
        E.prove(f"{nm}.__init__: contexts do not share variables", z3.And(store(c2).has(x) == (x == z3.StringVal("logdir"))))
        E.ok(f"{nm}.__init__: contexts do not share variables") if store(c2) is not m else E.fail(
            f"{nm}.__init__: contexts do not share variables", "same dictionary")
        E.cover("constructed")

    E.explore(construct)

    def roundtrip():
        logdir[0] = some("basedir")
        ENV.d = {}
        c, m = any_context(cm)
        before = m.f
        with no_raise(f"{nm}.to_env: never raises"):
            e = c.to_env()
        if not isinstance(e, (Text, Joined, str)):
            raise Unsupported("encoded context")
        same_map(f"{nm}.to_env: does not change the context", m.f, before)
        ENV.d[cm.Context.ENV_VARIABLE] = e
        logdir[0] = some("basedir of the worker")
        with no_raise(f"{nm}.from_env: can decode every context"):
            d = cm.Context.from_env()
        r = store(d)
        same_map(f"{nm}.from_env: the worker receives the same variables with the same text", r.f, before)
        E.cover("round trip")

    E.explore(roundtrip)

    def setting():
        logdir[0] = some("basedir")
        c, m = any_context(cm)
        before = m.f
        k, v = some("k"), some("v")
        err = None
        try:
            c[k] = v
        except Control:
            raise
        except Exception as e:
            check_engine_error(e)
            err = e
        bad = lambda t: z3.Or(z3.Contains(t, z3.StringVal("=")), z3.Contains(t, z3.StringVal(":")))
        if err is not None:
            E.prove(f"{nm}.__setitem__: only variables with reserved characters are rejected", z3.Or(bad(k.text), bad(v.text)))
            same_map(f"{nm}.__setitem__: rejected variables are not stored", m.f, before)
            E.cover("rejected")
            return
        m = store(c)
        E.prove(f"{nm}.__setitem__: stores the variable", z3.And(m.has(k.text), m.val(k.text)[0] == v.text))
        same_map(f"{nm}.__setitem__: keeps the other variables", m.f, before, k.text)
        with no_raise(f"{nm}.__getitem__: never raises for stored variables"):
            g, h = c[Text([k.text])], c.get(Text([k.text]), None)
        E.prove(f"{nm}.__getitem__: yields the stored value", z3.And(text_of(g)[0] == v.text))
        E.prove(f"{nm}.get: yields the stored value", z3.And(text_of(h)[0] == v.text) if h is not None else FALSE)
        E.cover("stored")

    E.explore(setting)

    def copying():
        logdir[0] = some("basedir")
        c, m = any_context(cm)
        before = m.f
        with no_raise(f"{nm}.copy: never raises"):
            d = c.copy()
        same_map(f"{nm}.copy: has the same variables", store(d).f, before)
        if d is c or store(d) is store(c):
            E.fail(f"{nm}.copy: is independent of the original", "shares its variables")
        else:
            E.ok(f"{nm}.copy: is independent of the original")
        d["some_variable"] = "some value"
        same_map(f"{nm}.copy: changing the copy does not change the original", store(c).f, before)
        E.cover("copied")

    E.explore(copying)


class Counter:
    """multiprocessing.Value with its lock"""

    def __init__(self, v):
        self.__dict__.update(v=v, held=0, bad=False, _dv_stamp=0)

    def get_lock(self):
        return self

    def __enter__(self):
        self.__dict__["held"] += 1
        return self

    def __exit__(self, *a):
        self.__dict__["held"] -= 1

    @property
    def value(self):
        if not self.held:
            self.__dict__["bad"] = True
        return self.v

    def dv_setattr(self, k, v):
        if not self.held:
            self.__dict__["bad"] = True
        self.__dict__["v"] = v


def worker(prop):
    """Worker.__init__ and _spawn_wrapper"""
    enable()
    import daisy.context as cm
    import daisy.worker as wm

    nm = f"{prop}/Worker"
    logdir = [None]
    ids = []
    cm.get_log_basedir = lambda: logdir[0]
    W = wm.Worker

    def make(given):
        n = SymInt(E.fresh("worker_id"))
        # the text of a number has no reserved character
        for ch in ":=":
            E.assume(z3.Not(z3.Contains(TextOfInt(n.e), z3.StringVal(ch))))
        old = W.get_next_id
        type.__setattr__(W, "get_next_id", staticmethod(lambda: n))
        st = W.start
        type.__setattr__(W, "start", lambda s: None)
        try:
            return n, W(lambda: None, given, None)
        finally:
            type.__setattr__(W, "get_next_id", staticmethod(old))
            type.__setattr__(W, "start", st)

    import types

    wm.dill = types.SimpleNamespace(dumps=lambda x: ("dill", x), loads=lambda x: x[1])

    def init():
        logdir[0] = some("basedir")
        c, m = any_context(cm)
        before = m.f
        with no_raise(f"{nm}.__init__: never raises"):
            n, w = make(c)
        same_map(f"{nm}.__init__: the given context is not changed", store(c).f, before)
        r = store(w.context)
        wid = z3.StringVal("worker_id")
        E.prove(f"{nm}.__init__: the context of the worker has its worker ID", z3.And(r.has(wid), r.val(wid)[0] == TextOfInt(
            n.e)))
        same_map(f"{nm}.__init__: the context of the worker has all given variables", r.f, before, wid)
        if r is store(c) or w.context is c:
            E.fail(f"{nm}.__init__: workers do not share contexts", "shared")
        else:
            E.ok(f"{nm}.__init__: workers do not share contexts")
        E.cover("made")

    E.explore(init)

    def spawn():
        logdir[0] = some("basedir")
        # the parent process can be a worker itself
        ENV.d = {cm.Context.ENV_VARIABLE: "worker_id=of_parent"} if E.choose(2, "environment of the parent") else {}
        c, m = any_context(cm)
        n, w = make(c)
        before = store(w.context).f
        seen = []

        def user():
            seen.append(dict(ENV.d))

        w.__dict__["_spawn_function"] = ("dill", user)
        lg = types.SimpleNamespace(get_log_basedir=lambda: some("x"), set_log_basedir=lambda p: None,
                                   get_worker_log_basename=lambda *a: some("log"), redirect_stdouterr=lambda p: None)
        old = wm.daisy_logging
        wm.daisy_logging = lg
        try:
            with no_raise(f"{nm}._spawn_wrapper: never raises"):
                w._spawn_wrapper()
        finally:
            wm.daisy_logging = old
        if len(seen) != 1:
            E.fail(f"{nm}._spawn_wrapper: calls the spawn function once", f"{len(seen)} calls")
            return
        E.ok(f"{nm}._spawn_wrapper: calls the spawn function once")
        v = cm.Context.ENV_VARIABLE
        if v not in seen[0]:
            E.fail(f"{nm}._spawn_wrapper: the environment holds the context when the spawn function is called", "missing")
            return
        ENV.d = seen[0]
        with no_raise(f"{nm}._spawn_wrapper: the environment of the spawn function can be decoded"):
            d = cm.Context.from_env()
        same_map(f"{nm}._spawn_wrapper: the worker process sees the context of the worker", store(d).f, before)
        E.cover("spawned")

    E.explore(spawn)
