"""ReadySurface: which blocks become available, and which are orphaned.

Blocks are elements of an uninterpreted sort; Up(x, y) means that y is upstream of x. The contracts of the dependency
graph that are assumed here (proved by layer A): downstream is the inverse of upstream, no block is reported twice.
"""
from .harness import *
from . import fol
from .fol import NSet, SymNode, Node, forall, exists, FALSE, TRUE, SymTask

install()
Up = z3.Function("Up", Node, Node, z3.BoolSort())
Reach = z3.Function("Reach", Node, Node, z3.BoolSort())  # y is (transitively) downstream of x
Rank = z3.Function("Rank", Node, z3.IntSort())


def up(x):
    n = E.const("u", Node)
    return Coll([Case([n], [Up(x.t, n)], SymNode(n))], unique=True)


def down(x):
    n = E.const("d", Node)
    return Coll([Case([n], [Up(n, x.t)], SymNode(n))], unique=True)


def graph_facts():
    E.assume(forall([Node, Node], lambda x, y: z3.Implies(Up(x, y), Rank(y) < Rank(x))))  # no cycles
    E.assume(forall([Node, Node], lambda x, y: z3.Implies(Up(y, x), Reach(x, y))))
    E.assume(forall([Node, Node], lambda x, y: z3.Implies(Reach(x, y), Rank(x) < Rank(y))))
    E.assume(forall([Node, Node, Node], lambda x, y, z: z3.Implies(z3.And(Reach(x, y), Up(z, y)), Reach(x, z))))


def standard(nodes, tasks):
    """intended models: Reach is exactly the transitive closure"""
    r = {(i, j): Up(y, x) for i, x in enumerate(nodes) for j, y in enumerate(nodes)}
    n = range(len(nodes))
    for k in n:
        r = {(i, j): z3.Or(r[i, j], z3.And(r[i, k], r[k, j])) for i in n for j in n}
    return [Reach(nodes[i], nodes[j]) == r[i, j] for i in n for j in n]


def reach_induction(x, P):
    """Reach is the smallest relation: everything that is closed contains what is reachable"""
    closed = z3.And(forall([Node], lambda y: z3.Implies(Up(y, x), P(y))),
                    forall([Node, Node], lambda y, z: z3.Implies(z3.And(P(y), Up(z, y)), P(z))))
    return z3.Implies(closed, forall([Node], lambda y: z3.Implies(Reach(x, y), P(y))))


def inv(S, B, Succ, Failed):
    """the invariant of the ready surface; S: surface, B: boundary, ghosts: Succ, Failed"""
    I = z3.Implies
    return [
        ("surface holds successful blocks only", forall([Node], lambda x: I(S(x), Succ(x)))),
        ("successful blocks stay in the surface while needed",
         forall([Node, Node], lambda u, d: I(z3.And(Succ(u), z3.Not(S(u)), Up(d, u)), z3.Or(Succ(d), B(d))))),
        ("everything downstream of the boundary is in the boundary",
         forall([Node, Node], lambda x, y: I(z3.And(B(x), Up(y, x)), B(y)))),
        ("no successful block in the boundary", forall([Node], lambda x: z3.Not(z3.And(Succ(x), B(x))))),
        ("upstream blocks of successful blocks are successful",
         forall([Node, Node], lambda x, u: I(z3.And(Succ(x), Up(x, u)), Succ(u)))),
        ("blocks in the boundary failed or depend on the boundary",
         forall([Node], lambda x: I(B(x), z3.Or(Failed(x), exists([Node], lambda u: z3.And(Up(x, u), B(u))))))),
        ("failed blocks are in the boundary, their upstream blocks successful",
         forall([Node], lambda x: I(Failed(x), z3.And(B(x), forall([Node], lambda u: I(Up(x, u), Succ(u))))))),
    ]


def make():
    from daisy.ready_surface import ReadySurface

    rs = ReadySurface(down, up)
    known = {"surface", "boundary"}
    for k, v in rs.__dict__.items():
        if k.startswith("_dv_") or callable(v):
            continue
        if k not in known:
            raise Unsupported(f"state {k} of ReadySurface is not known")
    if not known <= set(rs.__dict__):
        raise Unsupported("state of ReadySurface is not known")
    return rs


def templates(node, ghosts):
    I = z3.Implies

    def t(lp, v0, sets, svars):
        S, B = ghosts["S"], ghosts["B"]
        out = []
        if lp.modifies(S) or lp.modifies(B):
            n = len(inv(S.val, B.val, ghosts["Succ1"], ghosts["Failed1"]))
            for i in range(n):
                out.append(("inv", lambda v, i=i: inv(v[S], v[B], ghosts["Succ1"], ghosts["Failed1"])[i][1]))
        B0 = ghosts["B0"]
        if lp.modifies(B):
            out.append(("boundary grows by reachable blocks", lambda v: forall([Node], lambda x: I(
                v[B](x), z3.Or(B0(x), x == node, Reach(node, x))))))
            out.append(("node is in the boundary", lambda v: v[B](node)))
        for k in [x for x in sets if x is not S and x is not B] + svars:
            out.append(("work depends on the boundary", lambda v, k=k: forall([Node], lambda x: I(
                v[k](x), exists([Node], lambda u: z3.And(Up(x, u), v[B](u)))))))
            out.append(("work is reachable", lambda v, k=k: forall([Node], lambda x: I(v[k](x), Reach(node, x)))))
            out.append(("boundary is closed up to the work", lambda v, k=k: forall([Node, Node], lambda x, y: I(
                z3.And(v[B](x), Up(y, x)), z3.Or(v[B](y), v[k](y))))))
            out.append(("collected blocks are the new ones in the boundary", lambda v, k=k: forall([Node], lambda x: v[k](
                x) == z3.And(v[B](x), z3.Not(B0(x)), x != node))))
            out.append(("collected blocks are in the boundary", lambda v, k=k: forall([Node], lambda x: I(
                v[k](x), v[B](x)))))
        return out

    return t


def setup():
    """a ready surface in an arbitrary state that satisfies the invariant, and a block that is being processed"""
    graph_facts()
    rs = make()
    S, B = NSet("S"), NSet("B")
    rs.__dict__["surface"], rs.__dict__["boundary"] = S, B
    E.locs = [S, B]
    f = lambda n: (lambda x, g=z3.Function(n, Node, z3.BoolSort()): g(x))
    Succ, Failed = f("Succ"), f("Failed")
    for _, g in inv(S.val, B.val, Succ, Failed):
        E.assume(g)
    node = z3.Const("node", Node)
    E.assume(z3.Not(z3.Or(Succ(node), B.val(node))))
    E.assume(forall([Node], lambda u: z3.Implies(Up(node, u), Succ(u))))
    return rs, S, B, Succ, Failed, node


def initial(prop):
    fol.enable(lambda: NSet("set", lambda x: FALSE))
    E.standard = standard

    def path():
        graph_facts()
        with no_raise(f"{prop}/ReadySurface.__init__: never raises"):
            rs = make()
        no = lambda x: FALSE
        S, B = fol.membership(rs.surface, Node), fol.membership(rs.boundary, Node)
        for nm, g in inv(S, B, no, no):
            E.prove(f"{prop}/ReadySurface.__init__: {nm}", g)
        E.cover("constructed")

    E.explore(path)


def success(prop):
    fol.enable(lambda: NSet("set", lambda x: FALSE))
    E.standard = standard
    nm = f"{prop}/mark_success"

    def path():
        rs, S, B, Succ, Failed, node = setup()
        Succ1 = lambda x: z3.Or(Succ(x), x == node)
        E.templates = [templates(node, dict(S=S, B=B, Succ1=Succ1, Failed1=Failed, B0=B.val))]
        B0 = B.val
        with no_raise(f"{nm}: never raises for a block whose upstream blocks succeeded"):
            r = rs.mark_success(SymNode(node))
        same_sets(nm, rs, S, B)
        for n, g in inv(rs.surface.val, rs.boundary.val, Succ1, Failed):
            E.prove(f"{nm}: {n}", g)
        x = E.fresh("x", Node)
        E.prove(f"{nm}: nothing fails", rs.boundary.val(x) == B0(x))
        ready = z3.And(Up(x, node), forall([Node], lambda u: z3.Implies(Up(x, u), Succ1(u))))
        p = fol.membership(r, Node)(x)
        E.prove(f"{nm}: only blocks whose last missing dependency it was are returned", z3.Implies(p, ready))
        E.prove(f"{nm}: every block whose last missing dependency it was is returned", z3.Implies(ready, p))
        once(f"{nm}: no block is returned twice", r)
        E.cover("succeeded")
        with E.scope():
            E.assume(p)
            E.cover("a block becomes available")

    E.explore(path)


def same_sets(nm, rs, S, B):
    for k in ("surface", "boundary"):
        if not isinstance(rs.__dict__.get(k), NSet):
            raise Unsupported("state of ReadySurface is not known")
    make_known = {k for k in rs.__dict__ if not k.startswith("_dv_") and not callable(rs.__dict__[k])}
    if make_known != {"surface", "boundary"}:
        raise Unsupported("state of ReadySurface is not known")


def once(name, r):
    """the collection r holds no block twice"""
    if isinstance(r, NSet):
        if r.exact:
            E.ok(name)
            return
        raise Unsupported("list of unknown multiplicity")
    cs = []
    for k, s in segments(r):
        if k == "item":
            cs.append(Case([], [], s))
        else:
            cs.extend(coll.elems(s))
    for i, c in enumerate(cs):
        if c.binders and not (len(c.binders) == 1 and c.value.t.eq(c.binders[0])):
            raise Unsupported("multiplicity of elements")
        for d in cs[:i]:
            with E.scope():
                _, e1, v1 = c.fresh(lambda n, s: E.fresh(n, s))
                _, e2, v2 = d.fresh(lambda n, s: E.fresh(n, s))
                E.assume_all(fol.plain(e1) + fol.plain(e2))
                E.prove(name, v1.t != v2.t)
    E.ok(name)


def failure(prop):
    fol.enable(lambda: NSet("set", lambda x: FALSE))
    E.standard = standard
    nm = f"{prop}/mark_failure"

    def path():
        rs, S, B, Succ, Failed, node = setup()
        Failed1 = lambda x: z3.Or(Failed(x), x == node)
        B0 = B.val
        E.templates = [templates(node, dict(S=S, B=B, Succ1=Succ, Failed1=Failed1, B0=B0))]
        with no_raise(f"{nm}: never raises for a block whose upstream blocks succeeded"):
            r = rs.mark_failure(SymNode(node), count_all_orphans=True)
        same_sets(nm, rs, S, B)
        B1 = rs.boundary.val
        for n, g in inv(rs.surface.val, B1, Succ, Failed1):
            E.prove(f"{nm}: {n}", g)
        x = E.fresh("x", Node)
        p = fol.membership(r, Node)(x)
        E.assume(reach_induction(node, B1))
        E.prove(f"{nm}: only blocks that depend on it are orphaned", z3.Implies(p, z3.And(Reach(node, x), z3.Not(B0(x)))))
        E.prove(f"{nm}: every block that depends on it is orphaned (or was before)",
                z3.Implies(Reach(node, x), z3.Or(p, B0(x))))
        E.prove(f"{nm}: exactly the block and its orphans are added to the boundary",
                B1(x) == z3.Or(B0(x), x == node, p))
        once(f"{nm}: no orphan is reported twice", r)
        E.cover("failed")
        with E.scope():
            E.assume(p)
            E.cover("an orphan")

    E.while_variants = [("v", lambda lp, head, v: variant(nm, lp, head, v))]
    E.explore(path)


def variant(nm, lp, head, v):
    """every iteration adds a block to the boundary, or takes one from the work without adding any"""
    B = E.locs[1]
    b0, b1 = head[B], v[B]
    grows = z3.And(forall([Node], lambda x: z3.Implies(b0(x), b1(x))), exists([Node], lambda x: z3.And(b1(x), z3.Not(b0(x)))))
    works = []
    for k in list(lp.hv_vars) + [l for l in lp.hv_locs if l is not B and l is not E.locs[0]]:
        w0, w1 = head.get(k), v.get(k)
        if callable(w0) and callable(w1):
            try:
                works.append(z3.And(forall([Node], lambda x: z3.Implies(w1(x), w0(x))),
                                    exists([Node], lambda x: z3.And(w0(x), z3.Not(w1(x))))))
            except (z3.Z3Exception, TypeError):
                pass
    with E.soften():
        E.soft = True
        E.prove(f"{nm}: the propagation of failures ends", z3.Or(grows, *works))
