"""Finite counter-models of quantified obligations: quantifiers are expanded over a small universe (exact for models of
that size), so that a failed obligation is refuted by a model and not left open."""
import time
import z3

SIZES = ((2, 1), (3, 1), (3, 2), (4, 2), (5, 2))


class GiveUp(Exception):
    pass


class Expander:
    def __init__(self, univ):
        self.univ = univ  # sort name -> constants
        self.memo = {}
        self.work = 0

    def run(self, t):
        k = t.get_id()
        hit = self.memo.get(k)
        if hit is not None and hit[0].eq(t):
            return hit[1]
        self.work += 1
        if self.work > 300000:
            raise GiveUp()
        if z3.is_quantifier(t):
            if t.is_lambda():
                raise GiveUp()
            n = t.num_vars()
            choices = []
            for i in range(n):
                u = self.univ.get(t.var_sort(i).name())
                if u is None:
                    raise GiveUp()
                choices.append(u)
            out = []
            b = t.body()

            def rec(i, vals):
                if i == n:
                    out.append(self.run(z3.substitute_vars(b, *reversed(vals))))
                    return
                for c in choices[i]:
                    rec(i + 1, vals + [c])

            rec(0, [])
            r = z3.And(*out) if t.is_forall() else z3.Or(*out)
        elif z3.is_app(t) and t.num_args() and has_quant(t):
            r = t.decl()(*[self.run(c) for c in t.children()]) if not (z3.is_and(t) or z3.is_or(t)) else (
                z3.And if z3.is_and(t) else z3.Or)(*[self.run(c) for c in t.children()])
        else:
            r = t
        self.memo[k] = (t, r)
        return r


def has_quant(t, _c={}):
    k = t.get_id()
    hit = _c.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
    _c[k] = (t, r)
    return r


def ground_terms(fs, sorts):
    seen, out, stack = set(), {}, list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.sort().name() in sorts and x.num_args() >= 0:
            out[x.get_id()] = x
        stack.extend(x.children())
    return list(out.values())


def model(facts, extra=None, budget=20.0, sorts=("Node", "TaskS")):
    """A model of the facts with a small universe, or None. extra(nodes, tasks): further facts about standard models."""
    import dv.fol as fol

    by = {"Node": fol.Node, "TaskS": fol.TaskS}
    t0 = time.time()
    for a, b in SIZES:
        if time.time() - t0 > budget:
            return None
        univ = {by["Node"].name(): [z3.Const(f"n{i}", by["Node"]) for i in range(a)],
                by["TaskS"].name(): [z3.Const(f"t{i}", by["TaskS"]) for i in range(b)]}
        ex = Expander(univ)
        try:
            fs = [ex.run(f) for f in facts]
            if extra is not None:
                fs += [ex.run(f) for f in extra(*univ.values())]
        except GiveUp:
            return None
        for u in univ.values():
            if len(u) > 1:
                fs.append(z3.Distinct(*u))
        for t in ground_terms(fs, univ):
            u = univ[t.sort().name()]
            if not any(t.eq(c) for c in u):
                fs.append(z3.Or(*[t == c for c in u]))
        s = z3.Solver()
        s.set("timeout", 8000)
        s.add(*fs)
        if s.check() == z3.sat:
            return (a, b), s.model()
    return None


def count(p, univ):
    return z3.Sum(*[z3.If(p(x), 1, 0) for x in univ]) if len(univ) > 1 else z3.If(p(univ[0]), 1, 0)
