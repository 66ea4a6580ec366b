"""Symbolic execution core: path exploration, path conditions, journal, solver.

The real code runs in CPython on symbolic proxies. Every undetermined condition
is decided by branch(); explore() re-runs a thunk once per feasible combination
of decisions, undoing all tracked side effects in between. The same function is
used for whole functions and for loop bodies (which then run on one generic
element, i.e., for all iterations).

Path condition entries:
  z3 BoolRef          plain fact
  Ax(f)               f (a formula in the generic axis K) holds on every axis
  Univ(binders, f)    f(*terms) -> list of entries, holds for all terms
"""
import contextlib
import time
import z3

Axis = z3.DeclareSort("Axis")
Pt = z3.DeclareSort("Pt")
K = z3.Const("K", Axis)
at = z3.Function("at", Pt, Axis, z3.IntSort())
FD = z3.Function("fdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
FM = z3.Function("fmod", z3.IntSort(), z3.IntSort(), z3.IntSort())


class Control(BaseException):
    """Engine control flow; never visible to the code under verification."""


class Unsupported(Control):
    """The code uses something outside the supported subset."""


class Infeasible(Control):
    pass


class Ax:
    __slots__ = ("f", "fact")

    def __init__(self, f):
        self.f = f

    def sub(self, m):
        return Ax(subst(self.f, m))

    def __repr__(self):
        return f"Ax({self.f})"


class NotAx:
    """not (f on every axis) == f fails at axis k (a skolem constant)."""

    __slots__ = ("f", "k")

    def __init__(self, f, k):
        self.f, self.k = f, k

    def plain(self):
        return z3.Not(z3.substitute(self.f, (K, self.k)))

    def sub(self, m):
        return NotAx(subst(self.f, m), subst(self.k, m))

    def __repr__(self):
        return f"NotAx({self.f} at {self.k})"


class Univ:
    """for all x1..xn of given sorts: inst(x1..xn) (a list of entries)"""

    __slots__ = ("sorts", "inst", "cache", "m")

    def __init__(self, sorts, inst, m=None):
        self.sorts, self.inst, self.cache, self.m = sorts, inst, {}, m or []

    def at(self, terms):
        key = tuple(t.get_id() for t in terms)
        if key not in self.cache:
            r = self.inst(*terms)
            self.cache[key] = (terms, [e_sub(e, self.m) for e in r])
        return self.cache[key][1]

    def sub(self, m):
        return Univ(self.sorts, self.inst, self.m + [m]) if False else _univ_sub(self, m)


def _univ_sub(u, m):
    return Univ(u.sorts, lambda *t: [e_sub(e, m) for e in u.inst(*t)])


def subst(t, m):
    """m: list of (from, to) z3 pairs"""
    return z3.substitute(t, *m) if m else t


def e_sub(e, m):
    if not m:
        return e
    if isinstance(e, z3.ExprRef):
        return subst(e, m)
    return e.sub(m)


class OrE:
    """disjunction of conjunctions of entries"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def sub(self, m):
        return OrE([[e_sub(e, m) for e in a] for a in self.alts])


class Def:
    """An assumption that defines fresh symbols (not a decision of the code)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def sub(self, m):
        return Def(e_sub(self.e, m))

    def __repr__(self):
        return f"Def({self.e})"


class Nondet:
    """Marks a path that was taken by a nondeterministic choice of the engine."""

    def sub(self, m):
        return self


NONDET = Nondet()
BASE = Nondet()  # facts before hold independently of the state
MARK = Nondet()  # facts after suffice to describe the current state


class Effect:
    __slots__ = ("kind", "obj", "data", "undo")

    def __init__(self, kind, obj, data, undo):
        self.kind, self.obj, self.data, self.undo = kind, obj, data, undo


class Outcome:
    def __init__(self, entries, decisions, kind, value, effects):
        # entries: everything assumed; decisions: the subset stemming from branches
        self.entries, self.decisions, self.kind, self.value, self.effects = entries, decisions, kind, value, effects

    def __repr__(self):
        return f"<{self.kind} {self.value!r} if {self.entries}>"

    def guards(self):
        """entries; those that are not decisions are marked as definitions"""
        dec = {id(d) for d in self.decisions}
        return [e if id(e) in dec or isinstance(e, (Def, Univ)) else Def(e) for e in self.entries]


class Frame:
    xid = loops = 0

    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.alts, self.dec = prefix, 0, [], [], []


class Obligation:
    def __init__(self, name):
        self.name, self.status, self.instances, self.detail, self.backend, self.time = name, "discharged", 0, "", {}, 0.0


class Engine:
    def __init__(self):
        self.reset()
        self.obligations = {}
        self.stats = dict(paths=0, queries=0, solver_s=0.0, obligations_s=0.0, feasibility=0, backends={})
        self.covers = {}
        self.timeout_ms = 10000
        self.deadline = None
        self.functions = set()

    def reset(self):
        self.pc, self.journal, self.frames = [], [], []
        self.gens = []  # generic elements of enclosing loop bodies (z3 constants)
        self.counter = getattr(self, "counter", 0)
        self.indices = []  # registered index terms
        self.while_rules = {}
        self.for_rules = {}
        self.ghost = {}
        self.stamp = getattr(self, "stamp", 0)
        self.loop_stamp = 0

    # ------------------------------------------------------------- symbols
    def fresh(self, name, sort=None):
        """A fresh symbol, a function of the generic elements in scope."""
        sort = z3.IntSort() if sort is None else sort
        self.counter += 1
        n = f"{name}!{self.counter}"
        if not self.gens:
            return z3.Const(n, sort)
        f = z3.Function(n, *([g.sort() for g in self.gens] + [sort]))
        return f(*self.gens)

    def const(self, name, sort=None):
        """A fresh constant (even inside of a loop body), e.g. a binder."""
        self.counter += 1
        return z3.Const(f"{name}!{self.counter}", z3.IntSort() if sort is None else sort)

    # ---------------------------------------------------------------- facts
    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        self.pc.append(e)

    def assume_all(self, es):
        for e in es:
            self.assume(e)

    # -------------------------------------------------------------- journal
    def effect(self, kind, obj, data, undo):
        self.journal.append(Effect(kind, obj, data, undo))

    def rollback(self, n, stamp=None):
        while len(self.journal) > n:
            e = self.journal.pop()
            if stamp is None or getattr(e.obj, "stamp", 0) <= stamp:
                e.undo()

    # -------------------------------------------------------------- explore
    def explore(self, thunk, catch=True, setup=None):
        """All feasible outcomes of thunk, each with its condition and effects."""
        outcomes, stack = [], [[]]
        self.explorations += 1
        xid = self.explorations
        nidx = len(self.indices)
        while stack:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
            fr = Frame(stack.pop())
            fr.xid = xid
            npc, nj = len(self.pc), len(self.journal)
            st0 = self.stamp
            nfr, ngen = len(self.frames), len(self.gens)
            self.frames.append(fr)
            kind, val = None, None
            self.stats["paths"] += 1
            try:
                val = thunk()
                kind = "ok"
            except Infeasible:
                kind = None
            except Control:
                raise
            except Exception as e:
                check_engine_error(e)
                if not nfr:
                    import traceback

                    raise Unsupported("harness: " + "".join(traceback.format_exception(e)[-4:]))
                kind, val = "exc", e
            finally:
                if not nfr:
                    del self.indices[nidx:]
                del self.frames[nfr:]
                del self.gens[ngen:]
                entries, effects = self.pc[npc:], self.journal[nj:]
                # objects created on this path keep their state (they may be part of the value)
                self.rollback(nj, st0)
                del self.pc[npc:]
            stack.extend(fr.alts)
            if len(stack) + len(outcomes) > 4000:
                raise Unsupported("too many paths")
            if kind:
                outcomes.append(Outcome(entries, list(fr.dec), kind, val, effects))
        return outcomes

    def replay(self, outcome):
        """Re-apply nothing: outcomes are values; effects are re-applied by loop summaries."""
        raise NotImplementedError

    def choose(self, n, label=""):
        """n-way nondeterministic choice (each alternative explored)."""
        if n == 1:
            return 0
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                fr.alts.append(fr.taken + [j])
        fr.pos += 1
        fr.taken.append(d)
        fr.dec.append(NONDET)
        self.pc.append(NONDET)
        return d

    def case_split(self, cases):
        """cases: list of lists of entries, exhaustive. Assumes one feasible case, returns its index."""
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
        else:
            ok = [j for j in range(len(cases)) if self.feasible(cases[j])]
            if not ok:
                raise Infeasible()
            d = ok[0]
            for j in reversed(ok[1:]):
                fr.alts.append(fr.taken + [j])
        fr.pos += 1
        fr.taken.append(d)
        fr.dec.extend(cases[d])
        self.assume_all(cases[d])
        return d

    def branch(self, c):
        """Decides a condition (z3 Bool or Ax)."""
        if isinstance(c, Ax):
            f = z3.simplify(c.f)
            if z3.is_true(f):
                return True
            if not self.frames:
                raise Unsupported("branch outside of exploration")
            fr = self.frames[-1]
            known = fr.pos < len(fr.prefix)
            if not known and self.entails(c):
                d, only = True, True
            elif known:
                d, only = fr.prefix[fr.pos], False
            else:
                d, only = True, False
            k = None
            if not known and not only:
                neg = self.negax(c)
                tf, ff = self.feasible([c]), self.feasible([neg])
                if tf and ff:
                    fr.alts.append(fr.taken + [False])
                elif ff:
                    d = False
                elif not tf:
                    raise Infeasible()
            fr.pos += 1
            fr.taken.append(d)
            e = c if d else self.negax(c)
            fr.dec.append(e)
            self.assume(e)
            return d
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.frames:
            raise Unsupported("branch outside of exploration")
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d = fr.prefix[fr.pos]
        else:
            t, f = self.feasible([c]), self.feasible([z3.Not(c)])
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                fr.alts.append(fr.taken + [False])
            elif self.fol:
                d = 2 if t else 3  # implied by what is known: not a decision
        fr.pos += 1
        fr.taken.append(d)
        implied = d == 2 or d == 3
        d = d == 1 or d == 2
        e = c if d else z3.Not(c)
        if not implied:
            fr.dec.append(e)
        self.assume(e)
        return d

    def negax(self, c):
        return NotAx(c.f, self.fresh("ax", Axis))

    # ---------------------------------------------------------------- solver
    def ground(self, entries, only=None):
        """Instantiates Ax and Univ entries; returns plain z3 facts (those about the axis `only`, if given)."""
        plain, axs, univs = [], [], []

        def add(e, g=None):
            if isinstance(e, z3.ExprRef):
                plain.append(e if g is None else z3.Implies(g, e))
            elif isinstance(e, Ax):
                axs.append(e.f if g is None else z3.Implies(g, e.f))
            elif isinstance(e, NotAx):
                plain.append(e.plain() if g is None else z3.Implies(g, e.plain()))
            elif isinstance(e, OrE):
                sel = []
                for a in e.alts:
                    self.counter += 1
                    b = z3.Bool(f"or!{self.counter}")
                    sel.append(b)
                    for x in a:
                        add(x, b if g is None else z3.And(g, b))
                plain.append(z3.Or(*sel) if g is None else z3.Implies(g, z3.Or(*sel)))
            elif isinstance(e, Univ):
                if g is not None:
                    return  # weaker: dropped
                univs.append(e)
            elif isinstance(e, (list, tuple)):
                for x in e:
                    add(x, g)
            elif isinstance(e, Def):
                add(e.e, g)
            elif isinstance(e, Nondet):
                pass
            else:
                raise TypeError(e)

        for e in entries:
            add(e)
        idx = {t.get_id(): t for t in self.indices}
        idx = list(idx.values())
        for u in univs:
            combos = [()]
            for s in u.sorts:
                pool = [t for t in idx if t.sort() == s]
                combos = [c + (t,) for c in combos for t in pool]
                if len(combos) > 400:
                    raise Unsupported("too many instances")
            for c in combos:
                for e in u.at(list(c)):
                    add(e)
        # axis constants
        axes = {}
        if only is not None:
            facts = []
            for t in plain:
                t2 = {}
                collect_axes(t, t2)
                if not t2 or len(t2) == 1 and only.get_id() in t2:
                    facts.append(t)
            for f in axs:
                t2 = {}
                collect_axes(f, t2)
                t2.pop(K.get_id(), None)
                if not t2 or len(t2) == 1 and only.get_id() in t2:
                    facts.append(f if only.eq(K) else z3.substitute(f, (K, only)))
            return facts
        for t in plain:
            collect_axes(t, axes)
        for t in axs:
            t2 = {}
            collect_axes(t, t2)
            t2.pop(K.get_id(), None)
            axes.update(t2)
        if not axes:
            axes[K.get_id()] = K
        facts = list(plain)
        for f in axs:
            for a in axes.values():
                facts.append(f if a.eq(K) else z3.substitute(f, (K, a)))
        return facts

    def check(self, facts, timeout, quick=False):
        """sat/unsat/unknown, solver, back end. quick: sat may be wrong (only unsat counts)"""
        from . import lin

        t0 = time.time()
        if self.fol:
            self.stats["queries"] += 1
            s = z3.Solver()
            limits(s, min(timeout, self.feas_ms) if quick else timeout)
            s.add(*facts)
            r = s.check()
            self.stats["solver_s"] += time.time() - t0
            self.last_backend, self.last_facts = "z3 (quantified)", facts
            return r, s
        facts = lin.close(facts)
        self.stats["queries"] += 1
        s = z3.Solver()
        out, lem = lin.linear(facts, quick != "weak")
        if out is None:
            s.set("timeout", int(timeout))
            s.add(*facts)
            r, be = s.check(), "z3"
        else:
            s.set("timeout", int(min(timeout, 4000)))
            s.add(*out)
            s.add(*lem)
            r, be = s.check(), "z3 (linearised)"
            if r != z3.unsat and not quick:
                s = z3.Solver()
                s.set("timeout", int(timeout))
                s.add(*facts)
                r, be = s.check(), "z3"
        self.stats["solver_s"] += time.time() - t0
        self.last_backend = be
        self.last_facts = facts
        return r, s

    def quick_unsat(self, entries, axis=None, timeout=3000):
        """unsatisfiable? (may miss it)"""
        if axis is not None:
            if self.check(self.ground(entries, axis), timeout, True)[0] == z3.unsat:
                return True
        return self.check(self.ground(entries), timeout, "weak" if axis is not None else True)[0] == z3.unsat

    def feasible(self, entries):
        self.stats["feasibility"] += 1
        axis = None
        for e in entries:
            if isinstance(e, NotAx):
                axis = e.k
        return not self.quick_unsat(self.pc + list(entries), axis)

    def entails(self, goal, timeout=2000):
        if isinstance(goal, Ax):
            neg = self.negax(goal)
            return self.quick_unsat(self.pc + [neg], neg.k, timeout)
        return self.quick_unsat(self.pc + [z3.Not(goal)], None, timeout)

    def scope(self):
        return Scope(self)

    explorations = 0
    one_by_one = False
    standard = None  # what holds in all intended models (finite counter-models)
    fol = False  # first-order state with quantifiers instead of block grid arithmetic
    feas_ms = 400
    mute = 0  # > 0: obligations are not recorded (inference of loop invariants)
    soft = False  # failing obligations count as undecided (the failure may be due to the proof search)

    @contextlib.contextmanager
    def soften(self, on=None):
        old = self.soft
        if on is not None:
            self.soft = on
        try:
            yield
        finally:
            self.soft = old

    # ----------------------------------------------------------- obligations
    def cover(self, name):
        """Vacuity guard: this point must be reached on some feasible path."""
        if self.mute:
            return
        self.covers.setdefault(name, 0)
        r, _ = self.check(self.ground(self.pc), 2000 if self.fol else 5000)
        if r != z3.unsat:
            self.covers[name] += 1

    def prove(self, name, goal, hints=(), timeout=None):
        """Obligation: goal (z3 Bool, Ax, NotAx, SymBool or list) holds under the path condition."""
        goal = unwrap_goal(goal)
        if self.mute:
            return True
        ob = self.obligations.get(name)
        if ob is None:
            ob = self.obligations[name] = Obligation(name)
        ob.instances += 1
        if isinstance(goal, bool):
            if goal:
                ob.backend["trivial"] = ob.backend.get("trivial", 0) + 1
                return True
            goal = z3.BoolVal(False)
        if isinstance(goal, (list, tuple)):
            r = True
            for g in goal:
                ob.instances -= 1
                r = self.prove(name, g, hints, timeout) and r
                ob.instances += 1
            return r
        neg = [self.negax(goal)] if isinstance(goal, Ax) else [z3.Not(goal)]
        return self._refute(ob, neg, hints, timeout)

    def have(self, name, goal):
        """prove, then use"""
        r = self.prove(name, goal)
        if r:
            self.assume(unwrap_goal(goal))
        return r

    def prove_unreachable(self, name, why=""):
        if self.mute:
            return True
        ob = self.obligations.get(name)
        if ob is None:
            ob = self.obligations[name] = Obligation(name)
        ob.instances += 1
        return self._refute(ob, [], (), None, why)

    def ok(self, name):
        """An obligation that holds on this path by evaluation."""
        if self.mute:
            return
        ob = self.obligations.setdefault(name, Obligation(name))
        ob.instances += 1
        ob.backend["trivial"] = ob.backend.get("trivial", 0) + 1

    def fail(self, name, why):
        """An obligation that is violated on this path if the path is feasible."""
        return self.prove_unreachable(name, why)

    def goal_axes(self, neg):
        """axes a refutation probably needs only one of"""
        out = [e.k for e in neg if isinstance(e, NotAx)]
        if not out:
            # the axes that were introduced last
            seen = {}
            for e in reversed(self.pc):
                if isinstance(e, NotAx):
                    seen.setdefault(e.k.get_id(), e.k)
                elif isinstance(e, z3.ExprRef):
                    t = {}
                    collect_axes(e, t)
                    for i, a in t.items():
                        seen.setdefault(i, a)
                if len(seen) >= 2:
                    break
            out = list(seen.values())[:2]
        return out

    def _refute(self, ob, neg, hints, timeout, why=""):
        t0 = time.time()
        timeout = timeout or self.timeout_ms
        entries = self.pc + list(hints) + neg
        r = None
        for k in self.goal_axes(neg):
            r, s = self.check(self.ground(entries, k), timeout, True)
            if r == z3.unsat:
                break
        if r != z3.unsat:
            for few in stages(entries):
                r, s = self.check(few, min(timeout, 3000))
                if r == z3.unsat:
                    break
        if r != z3.unsat:
            r, s = self.check(self.ground(entries), timeout)
        be = self.last_backend
        if r == z3.unknown:
            r2, be2, model = second_opinion(self.last_facts, timeout)
            if r2 is not None:
                r, be = r2, be2
        found = None
        if self.fol and r != z3.unsat and not self.soft and ob.status != "refuted":
            from . import finite

            r = z3.unknown
            found = finite.model(self.ground(entries), self.standard)
        dt = time.time() - t0
        ob.time += dt
        self.stats["obligations_s"] += dt
        if found is not None:
            ob.status = "refuted"
            ob.detail = (why + f" counter-model with {found[0][0]} blocks, {found[0][1]} tasks: {found[1]}")[:3000]
            return False
        if r == z3.unsat:
            ob.backend[be] = ob.backend.get(be, 0) + 1
            self.stats["backends"][be] = self.stats["backends"].get(be, 0) + 1
            return True
        if r == z3.sat and not self.soft:
            ob.status = "refuted"
            try:
                m = str(s.model())
            except z3.Z3Exception:
                m = "(no model)"
            ob.detail = (why + " counter-model: " + m)[:3000]
        elif ob.status != "refuted":
            ob.status = "undecided"
            ob.detail = (why + " solver: unknown: " + s.reason_unknown())[:500]
        return False


def limits(s, ms):
    """resource limit of a query with quantifiers: independent of the load of the machine"""
    s.set("rlimit", int(ms * 1500))
    s.set("timeout", int(ms * 8))


def nested(t, _c={}):
    """does the formula contain a quantifier below a quantifier?"""
    k = t.get_id()
    if k in _c and _c[k][0].eq(t):
        return _c[k][1]
    stack, r = [(t, False)], False
    seen = set()
    while stack and not r:
        x, inside = stack.pop()
        if (x.get_id(), inside) in seen:
            continue
        seen.add((x.get_id(), inside))
        if z3.is_quantifier(x):
            if inside:
                r = True
            stack.append((x.body(), True))
        else:
            stack.extend((c, inside) for c in x.children())
    _c[k] = (t, r)
    return r


def decls(t):
    stack, out, seen = [t], set(), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def stages(entries):
    """subsets of the facts to try first (first-order state): those about the current state, without those that
    introduce further elements"""
    if not E.fol:
        return
    few = recent(entries)
    if few is not None:
        f = E.ground(few)
        g = [x for x in f[:-1] if not nested(x)] + f[-1:]
        if len(g) < len(f):
            yield g
            ns = [x for x in f[:-1] if nested(x)]
            if E.one_by_one and len(ns) <= 16:
                names = decls(f[-1])
                qf = [x for x in f[:-1] if not z3.is_quantifier(x)]
                best = sorted(ns, key=lambda x: -len(decls(x) & names))
                for x in best[:4]:
                    yield qf + [x, f[-1]]
                for x in sorted(ns, key=lambda x: -len(decls(x) & names)):
                    yield g[:-1] + [x, f[-1]]
        yield f
    f = E.ground(entries)
    g = [x for x in f[:-1] if not nested(x)] + f[-1:]
    if len(g) < len(f):
        yield g


def recent(entries):
    """the facts about the current state only, if the entries are marked"""
    i = max((i for i, e in enumerate(entries) if e is MARK), default=None)
    if i is None:
        return None
    b = next((j for j, e in enumerate(entries) if e is BASE), 0)
    return entries[:b] + entries[i:]


class Scope:
    """facts assumed inside are dropped at the end"""

    def __init__(self, e):
        self.e = e

    def __enter__(self):
        self.n, self.i = len(self.e.pc), len(self.e.indices)

    def __exit__(self, *a):
        del self.e.pc[self.n:]
        del self.e.indices[self.i:]


def second_opinion(facts, timeout):
    """Other strategies/solvers for a query z3's default left open."""
    for tac in () if E.fol else ("qfnia", "smt"):
        try:
            s = z3.Then("simplify", "solve-eqs", tac).solver() if tac != "smt" else z3.SolverFor("QF_UFNIA")
            s.set("timeout", int(timeout))
            s.add(*facts)
            r = s.check()
            if r == z3.unsat:
                return r, "z3:" + tac, None
        except z3.Z3Exception:
            pass
    r = cvc5_check(facts, timeout)
    if r == "unsat":
        return z3.unsat, "cvc5", None
    return None, None, None


def cvc5_check(facts, timeout):
    import subprocess, tempfile, os

    s = z3.Solver()
    s.add(*facts)
    text = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        out = subprocess.run(["cvc5", f"--tlimit={int(timeout)}", f.name], capture_output=True, text=True,
                             timeout=timeout / 1000 + 5).stdout
    except (subprocess.TimeoutExpired, OSError):
        out = ""
    finally:
        os.unlink(f.name)
    return out.strip().split("\n")[0] if out else None


def collect_axes(t, out, _cache={}):
    """Axis constants occurring in t."""
    key = t.get_id()
    hit = _cache.get(key)
    if hit is None or not hit[0].eq(t):
        found, stack, seen = {}, [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if x.sort() == Axis:
                found[x.get_id()] = x
            stack.extend(x.children())
        hit = _cache[key] = (t, found)
    out.update(hit[1])


def unwrap_goal(g):
    from . import sym

    if isinstance(g, sym.SymBool):
        return g.e
    return g


def check_engine_error(e):
    """Errors that stem from the proxies (not from the code) are limits of the engine."""
    import traceback

    if isinstance(e, (TypeError, AttributeError, NameError, RecursionError, z3.Z3Exception)):
        if getattr(e, "dv_code", False):
            return
        if isinstance(e, AttributeError) and e.obj is None and e.__traceback__ is not None:
            # attribute of None, in the code itself
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            if "/daisy/" in tb.tb_frame.f_code.co_filename:
                return
        tb = "".join(traceback.format_exception(e)[-6:])
        raise Unsupported(f"{type(e).__name__}: {e}\n{tb}")


E = Engine()
