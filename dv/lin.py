"""Linear abstraction of non-linear integer problems.

Products of variables become opaque terms, with instances of valid lemmas about
them (signs, monotonicity, sums, divisibility). Unsatisfiability carries over.
Everything is cached per term, as consecutive queries share most of their facts.
"""
import itertools
import z3

from .core import FD, FM

KEEP = []
PRODS = {}  # (id, id) -> (x, y, p)
WALK = {}
INFO = {}
LEM = {}
ARITH = {}


def key(t):
    return t.get_id()


def mono(fs):
    fs = sorted(fs, key=key)
    r = fs[0]
    for f in fs[1:]:
        x, y = sorted((r, f), key=key)
        k = (key(x), key(y))
        if k not in PRODS:
            p = z3.FreshInt("mul")
            PRODS[k] = (x, y, p)
            PBYID[key(p)] = k
            KEEP.append((x, y, p))
        r = PRODS[k][2]
    return r


PBYID = {}


def walk(t):
    k = key(t)
    r = WALK.get(k)
    if r is not None:
        return r
    KEEP.append(t)
    if z3.is_quantifier(t):
        r = t
    elif z3.is_app(t) and t.num_args():
        kids = t.children()
        ch = [walk(c) for c in kids]
        if t.decl().kind() == z3.Z3_OP_MUL:
            n, vs = 1, []
            for c in ch:
                if z3.is_int_value(c):
                    n *= c.as_long()
                else:
                    vs.append(c)
            if len(vs) >= 2:
                # distribute over sums
                terms = []
                for combo in itertools.product(*[split_sum(v) for v in vs]):
                    coef, atoms = n, []
                    for c, a in combo:
                        coef *= c
                        atoms.extend(a)
                    if not atoms:
                        terms.append(z3.IntVal(coef))
                    elif len(atoms) == 1:
                        terms.append(coef * atoms[0])
                    else:
                        terms.append(coef * mono(atoms))
                r = terms[0] if len(terms) == 1 else z3.Sum(terms)
            elif vs:
                r = n * vs[0] if n != 1 else vs[0]
            else:
                r = z3.IntVal(n)
        else:
            r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, kids)) else t
    else:
        r = t
    WALK[k] = r
    KEEP.append(r)
    return r


def split_sum(t):
    """[(coefficient, [atoms])]"""
    if z3.is_int_value(t):
        return [(t.as_long(), [])]
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return [x for c in t.children() for x in split_sum(c)]
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            return split_sum(ch[0]) + [(-c, a) for x in ch[1:] for c, a in split_sum(x)]
        if k == z3.Z3_OP_UMINUS:
            return [(-c, a) for c, a in split_sum(t.arg(0))]
        if k == z3.Z3_OP_MUL:
            ch = t.children()
            n = [c for c in ch if z3.is_int_value(c)]
            v = [c for c in ch if not z3.is_int_value(c)]
            if len(v) == 1:
                m = 1
                for c in n:
                    m *= c.as_long()
                return [(m * c, a) for c, a in split_sum(v[0])]
    return [(1, [t])]


class Info:
    __slots__ = ("fact", "lin", "prods", "divs")


def info(fact):
    """linear form, products and division terms of a fact"""
    k = key(fact)
    i = INFO.get(k)
    if i is not None:
        return i
    i = Info()
    i.fact = fact
    i.lin = walk(fact)
    i.prods, i.divs = set(), {}
    seen, stack = set(), [fact, i.lin]
    while stack:
        t = stack.pop()
        tk = key(t)
        if tk in seen:
            continue
        seen.add(tk)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args():
                d = t.decl()
                if d.eq(FD) or d.eq(FM):
                    i.divs[(key(t.arg(0)), key(t.arg(1)))] = (t.arg(0), t.arg(1), d.eq(FM))
                stack.extend(t.children())
            elif tk in PBYID:
                pk = PBYID[tk]
                i.prods.add(pk)
                x, y, _ = PRODS[pk]
                stack.extend((x, y))
    KEEP.append(fact)
    INFO[k] = i
    return i


def close(facts):
    """the given facts with the definitions of the division terms and the divisibility lemmas"""
    out, divs, todo, done = [], {}, list(facts), set()
    while True:
        while todo:
            f = todo.pop()
            out.append(f)
            for k, d in info(f).divs.items():
                if k not in divs:
                    divs[k] = d
                    todo.append(definition(d[0], d[1]))
        for (ka, kb), (a, b, _) in list(divs.items()):
            for (kc, kd), (c, d, _) in list(divs.items()):
                if kb == kc and kd != kb and (ka, kb, kd) not in done:
                    done.add((ka, kb, kd))
                    todo.append(transitivity(a, b, d))
        if not todo or len(done) > 60:
            return out + todo


def definition(a, b):
    k = (key(a), key(b))
    r = ARITH.get(k)
    if r is None:
        q, m = FD(a, b), FM(a, b)
        r = z3.And(
            z3.Implies(b > 0, z3.And(a == b * q + m, m >= 0, m < b)),
            z3.Implies(b < 0, z3.And(a == b * q + m, m <= 0, m > b)),
        )
        ARITH[k] = r
        KEEP.append((a, b, r))
    return r


def transitivity(a, b, d):
    k = (key(a), key(b), key(d))
    r = ARITH.get(k)
    if r is None:
        r = z3.And(
            z3.Implies(z3.And(FM(b, d) == 0, b > 0, d > 0), FM(FM(a, b), d) == FM(a, d)),
            z3.Implies(z3.And(FM(b, d) == 0, FM(a, b) == 0, b > 0, d > 0), FM(a, d) == 0))
        ARITH[k] = r
        KEEP.append((a, b, d, r))
    return r


def linear(facts, triples=True):
    """(linear facts, lemmas), or (None, None) if nothing is non-linear"""
    prods = set()
    out = []
    for f in facts:
        i = info(f)
        out.append(i.lin)
        prods |= i.prods
    if not prods:
        return None, None
    lem = []
    by = {}
    for pk in prods:
        x, y, p = PRODS[pk]
        by.setdefault(key(x), (x, []))[1].append((y, p))
        if not x.eq(y):
            by.setdefault(key(y), (y, []))[1].append((x, p))
    for w, qs in by.values():
        qs.sort(key=lambda e: key(e[1]))
        for q, p in qs:
            lem.append(lem1(w, q, p))
        for a, b in itertools.combinations(qs, 2):
            lem.append(lem2(w, a, b))
        if triples and len(qs) <= 14:
            for a, b in itertools.combinations_with_replacement(qs, 2):
                for c in qs:
                    if c[0].eq(a[0]) or c[0].eq(b[0]):
                        continue
                    lem.append(lem3(w, a, b, c))
        if triples and len(qs) <= 10:
            for a, b, c in itertools.combinations(qs, 3):
                lem.append(lem3z(w, a, b, c))
    return out, lem


def cached(f):
    def g(w, *qs):
        k = (f.__name__, key(w)) + tuple(key(q) if isinstance(q, z3.ExprRef) else key(q[1]) for q in qs)
        r = LEM.get(k)
        if r is None:
            r = LEM[k] = f(w, *qs)
        return r

    return g


@cached
def lem1(w, q, p):
    return z3.And(z3.Implies(q == 0, p == 0), z3.Implies(w > 0, z3.And(
        z3.Implies(q > 0, p >= w), z3.Implies(q < 0, p <= -w),
        z3.Implies(q > 1, p >= 2 * w), z3.Implies(q < -1, p <= -2 * w))))


@cached
def lem2(w, a, b):
    (q1, p1), (q2, p2) = a, b
    return z3.And(
        z3.Implies(q1 == q2, p1 == p2), z3.Implies(q1 + 1 == q2, p1 + w == p2), z3.Implies(q1 == q2 + 1, p1 == p2 + w),
        z3.Implies(q1 + q2 == 0, p1 + p2 == 0),
        z3.Implies(w > 0, z3.And(
            z3.Implies(q1 + q2 < 0, p1 + p2 + w <= 0), z3.Implies(q1 + q2 > 0, p1 + p2 >= w),
            z3.Implies(q1 < q2, p1 + w <= p2), z3.Implies(q1 > q2, p1 >= p2 + w),
            z3.Implies(q1 + 1 < q2, p1 + 2 * w <= p2), z3.Implies(q1 > q2 + 1, p1 >= p2 + 2 * w))))


@cached
def lem3(w, a, b, c):
    (q1, p1), (q2, p2), (q3, p3) = a, b, c
    return z3.And(z3.Implies(q1 + q2 == q3, p1 + p2 == p3), z3.Implies(w > 0, z3.And(
        z3.Implies(q1 + q2 < q3, p1 + p2 + w <= p3), z3.Implies(q1 + q2 > q3, p1 + p2 >= p3 + w))))


@cached
def lem3z(w, a, b, c):
    (q1, p1), (q2, p2), (q3, p3) = a, b, c
    q, p = q1 + q2 + q3, p1 + p2 + p3
    return z3.And(z3.Implies(q == 0, p == 0),
                  z3.Implies(w > 0, z3.And(z3.Implies(q < 0, p + w <= 0), z3.Implies(q > 0, p >= w))))
