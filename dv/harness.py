"""Common parts of the contract layers."""
import contextlib, os, sys
import z3
from . import core, sym, coll, rt, instr
from .core import (E, K, Ax, NotAx, Univ, OrE, Def, NONDET, BASE, MARK, Axis, Pt, at, FD, FM, Unsupported, Infeasible, Control,
                   e_sub, check_engine_error)
from .sym import SymRoi, SymCoord, SymInt, SymBool, SymId, Sym, vsub
from .coll import Case, Coll, IdxColl, DList, segments, elems, neg_entry

_installed = False


def install(extra=None):
    global _installed
    if not _installed:
        stubs = rt.standard_stubs()
        stubs.update(extra or {})
        instr.install(rt.NS, stubs)
        _installed = True


def axfun(n):
    return z3.Function(n, Axis, z3.IntSort())(K)


def roi(n):
    return SymRoi(SymCoord(axfun(n + "b")), SymCoord(axfun(n + "s")))


@contextlib.contextmanager
def no_raise(name):
    """Obligation: the code inside does not raise. The rest of the path is skipped if it does."""
    try:
        yield
    except Control:
        raise
    except Exception as e:
        check_engine_error(e)
        E.fail(name, f"raises {type(e).__name__}: {e}")
        raise Infeasible()
    E.ok(name)


def cases_of(x):
    """cases of a result collection"""
    if x is None:
        return []
    out = []
    for k, s in segments(x):
        if k == "item":
            out.append(Case([], [], s))
        elif k in ("coll", "idx"):
            out.extend(elems(s))
        else:
            raise Unsupported("axis list as result")
    return out


def each(x, fn):
    """runs fn(value) for a generic element of every case of x, under the facts of the case"""
    n = 0
    for c in cases_of(x):
        with E.scope():
            ts, es, v = c.fresh(lambda nm, s: E.fresh(nm, s))
            E.indices.extend(t for t in ts if t.sort() == z3.IntSort())
            E.assume_all(es)
            if E.check(E.ground(E.pc), 5000, True)[0] == z3.unsat:
                continue
            n += 1
            fn(v)
    return n


def resolve_ifs(t):
    """t with the if-then-else terms decided that the path condition decides on every axis"""
    t = z3.simplify(t)
    for _ in range(12):
        conds, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE:
                    conds.append(x)
                stack.extend(x.children())
        for x in conds:
            if E.entails(Ax(x == x.arg(2))):
                r = x.arg(2)
            elif E.entails(Ax(x == x.arg(1))):
                r = x.arg(1)
            else:
                continue
            t = z3.simplify(z3.substitute(t, (x, r)))
            break
        else:
            return t
    return t


def witness(c, off, target):
    """binder terms for which off(value) == target (per axis); assumed to be solvable, checked later"""
    if not c.binders:
        return []
    if len(c.binders) != 1 or c.binders[0].sort() != Pt:
        raise Unsupported("completeness over this kind of collection")
    p = c.binders[0]
    with E.scope():
        E.assume_all(c.entries)
        t = resolve_ifs(off(c.value))
    z = z3.simplify(z3.substitute(t, (at(p, K), z3.IntVal(0))))
    k = z3.simplify(z3.substitute(t, (at(p, K), z3.IntVal(1))) - z)
    q = E.fresh("q", Pt)
    w = target - z
    if z3.is_int_value(k) and k.as_long() == 1:
        pass
    elif z3.is_int_value(k) and k.as_long() == -1:
        w = -w
    else:
        w = sym.fdiv(w, k)
        E.soft = True  # maybe not the only candidate
    E.assume(Ax(at(q, K) == w))
    return [q]


def complete(name, x, off, target):
    """Obligation: some element of x has off(element) == target on every axis."""
    cs = cases_of(x)
    with E.scope(), E.soften():
        if len(cs) == 1:
            c = cs[0]
            ts = witness(c, off, target)
            es, v = c.inst(ts)
            for e in es:
                if isinstance(e, Def):
                    E.assume(e.e)
                elif e is NONDET or isinstance(e, Univ):
                    raise Unsupported("completeness through a nondeterministic choice")
                elif isinstance(e, (NotAx, OrE)):
                    with E.scope():
                        E.assume(neg_entry(e))
                        E.prove_unreachable(name)
                    E.assume(e)
                else:
                    E.prove(name, e)
                    E.assume(e)
            E.prove(name, Ax(off(v) == target))
            return
        for c in cs:
            ts = witness(c, off, target)
            es, v = c.inst(ts)
            alts = []
            for e in es:
                if isinstance(e, Def):
                    # only meaningful under the decisions before it
                    raise Unsupported("completeness over several cases with definitions")
                if e is NONDET or isinstance(e, Univ):
                    raise Unsupported("completeness through a nondeterministic choice")
                alts.append([neg_entry(e)])
            alts.append([neg_entry(Ax(off(v) == target))])
            E.assume(OrE(alts))
        E.prove_unreachable(name, "no element for it")


def distinct(name, x, off):
    """Obligation: no two elements of x agree on off."""
    cs = cases_of(x)
    segs = segments(x)
    if len(segs) == 1 and isinstance(segs[0][1], Coll) and segs[0][1].unique:
        E.ok(name)
        return
    for i, c in enumerate(cs):
        for j, d in enumerate(cs):
            if j < i or (i == j and not c.binders):
                continue
            with E.scope():
                t1, e1, v1 = c.fresh(lambda nm, s: E.fresh(nm, s))
                t2, e2, v2 = d.fresh(lambda nm, s: E.fresh(nm, s))
                E.assume_all(e1)
                E.assume_all(e2)
                if i == j:
                    k = E.fresh("ax", Axis)
                    alts = []
                    for a, b in zip(t1, t2):
                        alts.append(at(a, k) != at(b, k) if a.sort() == Pt else a != b)
                    E.assume(z3.Or(*alts))
                E.assume(Ax(off(v1) == off(v2)))
                E.prove_unreachable(name, "an element occurs twice")
