"""Block grid: BlockwiseDependencyGraph, Block, grid helpers.

The dimensionality is arbitrary: a coordinate is a term in the generic axis K.
Symbols: t = total ROI, r = block read ROI, w = block write ROI (b: offset, s: shape).
"""
from .harness import *

install()

tb, ts_, rb, rs, wb, ws = (axfun(n) for n in ("tb", "ts", "rb", "rs", "wb", "ws"))
CL, CR = wb - rb, (rb + rs) - (wb + ws)  # context
W0 = tb + CL  # beginning of the writable area
T = ts_ - CL - CR  # size of the writable area
TOTAL, READ, WRITE = roi("t"), roi("r"), roi("w")
MAXC = z3.If(CL >= CR, CL, CR)


def pre():
    E.assume(Ax(ws > 0))
    E.assume(Ax(rb <= wb))
    E.assume(Ax(wb + ws <= rb + rs))
    E.assume(Ax(ts_ >= 0))


def zmin(a, b):
    return z3.If(a <= b, a, b)


class Spec:
    def __init__(self, fit, conflict=True):
        self.fit, self.conflict = fit, conflict
        self.r = ws if fit == "valid" else z3.IntVal(1)

    def cell(self, c):
        """c (relative to the writable area) is the beginning of a grid cell that holds a block"""
        return z3.And(c >= 0, FM(c, ws) == 0, c + self.r <= T)

    def wshape(self, c):
        return zmin(ws, T - c) if self.fit == "shrink" else ws

    def write(self, c):
        return W0 + c, self.wshape(c)

    def read(self, c):
        return tb + c, self.wshape(c) + CL + CR

    def idterm(self, c):
        """index the identity of the block at c is computed from, according to Block.__init__"""
        from daisy.block import Block

        b = Block(TOTAL, SymRoi(SymCoord(tb + c), SymCoord(rs)), SymRoi(SymCoord(W0 + c), SymCoord(ws)), task_id="t")
        return self.bid(b)

    def bid(self, b):
        i = b.block_id
        if not (isinstance(i, tuple) and len(i) == 2 and i[0] == "t" and isinstance(i[1], SymId)):
            raise Unsupported("block identity of unknown form")
        return i[1].t


def off(b):
    """beginning of the block's write ROI relative to the writable area"""
    return z3.simplify(b.write_roi.begin.t - W0)


STRIDE = axfun("S")


def stride_contract(sp, S):
    """what compute_level_stride promises (proved by `stride`, assumed by everything else)"""
    if not sp.conflict:
        return [("strides without conflicts are the write shape", S == ws)]
    tot = T - FM(T, ws) if sp.fit == "valid" else T + FM(-T, ws)
    return [("the stride is a multiple of the write shape", FM(S, ws) == 0),
            ("the stride is positive if a block fits", z3.Or(S > 0, T < sp.r)),
            ("blocks one stride apart are independent", z3.Or(S >= ws + MAXC, S >= tot)),
            ("every level holds a block", S <= tot)]


def graph(sp, contract=True):
    from daisy.dependency_graph import BlockwiseDependencyGraph as G

    if contract and sp.conflict and hasattr(G, "compute_level_stride"):
        class G(G):
            def compute_level_stride(self):
                for _, f in stride_contract(sp, STRIDE):
                    E.assume(Ax(f))
                return SymCoord(STRIDE)

    return G("t", READ, WRITE, sp.conflict, sp.fit, total_read_roi=TOTAL)


def stride(prop, fit, conflict):
    """compute_level_stride against its contract"""
    sp = Spec(fit, conflict)
    pre()

    def path():
        with no_raise(f"{prop}/compute_level_stride: never raises"):
            g = graph(sp, False)
            S = g.compute_level_stride().t
        for nm, f in stride_contract(sp, S):
            E.prove(f"{prop}/compute_level_stride: {nm}", Ax(f))
        E.cover("stride")

    E.explore(path)


def is_block(nm, sp, b, what):
    """b is exactly the block of the grid cell at off(b)"""
    c = off(b)
    E.have(f"{nm}: {what} lies on the grid and is part of the enumeration", Ax(sp.cell(c)))
    wo, wsz = sp.write(c)
    ro, rsz = sp.read(c)
    E.have(f"{nm}: {what} has the promised write ROI", Ax(b.write_roi.shape.t == wsz))
    E.have(f"{nm}: {what} has the promised read ROI",
           Ax(z3.And(b.read_roi.begin.t == ro, b.read_roi.shape.t == rsz)))
    E.prove(f"{nm}: {what} has the identity of its cell", Ax(sp.bid(b) == sp.idterm(c)))
    E.prove(f"{nm}: {what} belongs to the task", b.task_id == "t")


def pick_level(g, name="level"):
    """an arbitrary level of the graph"""
    n = g.num_levels
    i = E.fresh(name)
    E.indices.append(i)
    E.assume(i >= 0)
    E.assume(i < sym.zi(n))
    if not E.feasible([]):
        raise Infeasible()
    return i


def level_offset(g, i):
    lo = g._level_offsets
    ic = lo.single() if isinstance(lo, DList) else lo
    if not isinstance(ic, IdxColl) or "LO" not in ic.__dict__:
        raise Unsupported("level offsets of unknown form")
    return ic, ic.get(i)


def small_or_graph(nm, sp):
    """constructs the graph; on paths without levels proves that there is no cell at all"""
    with no_raise(f"{nm}/BlockwiseDependencyGraph.__init__ accepts every task"):
        g = graph(sp)
        n = g.num_levels
    if isinstance(n, int) and n == 0 or bool(n == 0):
        y = E.fresh("y", Pt)
        with E.scope():
            E.assume(Ax(sp.cell(at(y, K))))
            E.prove_unreachable(f"{nm}/num_levels: no levels only if no cell fits")
        E.cover("total ROI too small")
        return g, None
    E.cover("graph with blocks")
    return g, n


# --------------------------------------------------------------------- levels
def levels(prop, fit, conflict):
    nm, sp = f"{prop}/level_blocks", Spec(fit, conflict)
    pre()

    def path():
        g, n = small_or_graph(prop, sp)
        if n is None:
            with no_raise(f"{prop}/root_gen yields nothing if there are no levels"):
                r = g.root_gen()
            E.prove(f"{prop}/root_gen yields nothing if there are no levels", len(cases_of(r)) == 0)
            return
        S = g._level_stride.t
        # every cell has a level
        y = E.fresh("y", Pt)
        i = pick_level(g)
        ic, lo = level_offset(g, i)
        with E.scope():
            E.assume(Ax(sp.cell(at(y, K))))
            q = E.fresh("q", Pt)
            E.assume(Ax(at(q, K) == FM(at(y, K), S)))
            es, _ = ic.dom.inst([q])
            for e in es:
                E.prove(f"{prop}/compute_level_offsets: every cell belongs to a level", e)
        # the blocks of a level are exactly its cells
        with no_raise(f"{nm}: never raises"):
            bs = g.level_blocks(SymInt(i))

        def elem(b):
            E.have(f"{nm}: generated blocks belong to the level", Ax(FM(off(b), S) == lo.t))
            is_block(nm, sp, b, "every generated block")
            E.cover("a generated block")

        each(bs, elem)
        with E.scope():
            E.assume(Ax(sp.cell(at(y, K))))
            E.assume(Ax(FM(at(y, K), S) == lo.t))
            complete(f"{nm}: every cell of the level is generated", bs, off, at(y, K))
        distinct(f"{nm}: no block is generated twice within a level", bs, off)
        # different levels share no cell
        j = pick_level(g, "level2")
        with E.scope():
            ic.get(j)
            E.assume(i != j)
            E.assume(Ax(FM(at(y, K), S) == at(ic.LO(i), K)))
            E.assume(Ax(FM(at(y, K), S) == at(ic.LO(j), K)))
            E.prove_unreachable(f"{nm}: levels have no block in common")

    E.explore(path)
    E.explore(lambda: roots(prop, sp))


def roots(prop, sp):
    g, n = small_or_graph(prop, sp)
    if n is None:
        return
    nm = f"{prop}/root_gen"
    S = g._level_stride.t
    z = z3.IntVal(0)
    E.indices.append(z)
    ic, lo = level_offset(g, z)
    with no_raise(f"{nm}: never raises"):
        bs = g.root_gen()
    y = E.fresh("y", Pt)

    def elem(b):
        E.have(f"{nm}: initial blocks belong to the first level", Ax(FM(off(b), S) == lo.t))
        is_block(nm, sp, b, "every initial block")

    each(bs, elem)
    with E.scope():
        E.assume(Ax(sp.cell(at(y, K))))
        E.assume(Ax(FM(at(y, K), S) == lo.t))
        complete(f"{nm}: every block of the first level is generated", bs, off, at(y, K))
    distinct(f"{nm}: no block is generated twice", bs, off)


# ----------------------------------------------------------- upstream/downstream
def block_of_level(g, sp, i, lo, S):
    """an arbitrary block of level i, as promised by level_blocks"""
    x = block_at(sp, E.fresh("x", Pt))
    E.assume(Ax(FM(off(x), S) == lo.t))
    if not E.feasible([]):
        raise Infeasible()
    return x


def block_at(sp, p):
    """the block of an arbitrary cell p, as promised by level_blocks (ROIs and identity)"""
    from daisy.block import Block

    c = at(p, K)
    E.assume(Ax(sp.cell(c)))
    x = Block(TOTAL, SymRoi(SymCoord(tb + c), SymCoord(rs)), SymRoi(SymCoord(W0 + c), SymCoord(ws)), task_id="t")
    (wo, wsz), (ro, rsz) = sp.write(c), sp.read(c)
    x.__dict__["write_roi"] = SymRoi(SymCoord(wo), SymCoord(wsz))
    x.__dict__["read_roi"] = SymRoi(SymCoord(ro), SymCoord(rsz))
    return x


def level_contract(g, x, i, lo, S):
    """replaces g._level by its contract for the block x of level i (proved by level_of)"""
    if not hasattr(g, "_level"):
        return

    def _level(b):
        E.prove("_level: precondition", Ax(FM(off(b), S) == lo.t))
        return SymInt(i)

    g.__dict__["_level"] = _level


def level_of(prop, fit, conflict):
    """_level finds the level of every block"""
    sp = Spec(fit, conflict)
    nm = f"{prop}/_level"
    pre()

    def path():
        g, n = small_or_graph(prop, sp)
        if n is None:
            return
        S = g._level_stride.t
        i = pick_level(g)
        ic, lo = level_offset(g, i)
        x = block_of_level(g, sp, i, lo, S)
        with no_raise(f"{nm}: never raises for a block of the graph"):
            l = g._level(x)
        E.indices.append(sym.zi(l))
        E.prove(f"{nm}: is the level the block was generated in", l == SymInt(i))
        E.cover("level found")

    E.explore(path)


def zabs_lt(a, b):
    return z3.And(a < b, -a < b)


def upstream(prop, fit, conflict, down=False):
    sp = Spec(fit, conflict)
    what = "downstream" if down else "upstream"
    nm = f"{prop}/{what}"
    pre()

    def path():
        g, n = small_or_graph(prop, sp)
        if n is None:
            return
        S = g._level_stride.t
        i = pick_level(g)
        ic, lo = level_offset(g, i)
        x = block_of_level(g, sp, i, lo, S)
        xo = off(x)
        j = z3.simplify(i + 1 if down else i - 1)
        E.indices.append(j)
        level_contract(g, x, i, lo, S)
        with no_raise(f"{nm}: never raises"):
            us = g.downstream(x) if down else g.upstream(x)
        inrange = j < sym.zi(n) if down else j >= 0
        some = conflict and E.branch(inrange)
        if not some:
            E.prove(f"{nm}: blocks of the {'last' if down else 'first'} level (or without conflict) have none",
                    each(us, lambda b: E.prove_unreachable(f"{nm}: blocks of the {'last' if down else 'first'} level "
                                                           "(or without conflict) have none")) == 0)
            E.cover("no dependencies")
            return
        _, lo2 = level_offset(g, j)

        def elem(b):
            c = off(b)
            E.have(f"{nm}: reported blocks belong to the {'next' if down else 'previous'} level",
                   Ax(FM(c, S) == lo2.t))
            E.have(f"{nm}: reported blocks are closer than the level stride", Ax(zabs_lt(c - xo, S)))
            is_block(nm, sp, b, "every reported block")
            E.cover("a reported block")

        each(us, elem)
        y = E.fresh("y", Pt)
        with E.scope():
            E.assume(Ax(sp.cell(at(y, K))))
            E.assume(Ax(FM(at(y, K), S) == lo2.t))
            E.assume(Ax(zabs_lt(at(y, K) - xo, S)))
            complete(f"{nm}: every block of that level closer than the level stride is reported", us, off, at(y, K))
        distinct(f"{nm}: no block is reported twice", us, off)

    E.explore(path)


def downstream(prop, fit, conflict):
    return upstream(prop, fit, conflict, down=True)


# ------------------------------------------------------------------ subgraphs
def subgraph(prop, fit, read):
    sp = Spec(fit, False)
    nm = f"{prop}/get_subgraph_blocks({'read' if read else 'write'})"
    pre()
    sub = roi("x")
    xb, xs = axfun("xb"), axfun("xs")
    E.assume(Ax(xs > 0))

    def overlaps(c):
        o, s = sp.read(c) if read else sp.write(c)
        return z3.And(o < xb + xs, xb < o + s)

    def path():
        g = graph(sp)
        with no_raise(f"{nm}: never raises"):
            bs = g.get_subgraph_blocks(sub, read_roi=read)

        def elem(b):
            is_block(nm, sp, b, "every reported block")
            E.have(f"{nm}: reported blocks overlap the given ROI", Ax(overlaps(off(b))))
            E.cover("a reported block")

        each(bs, elem)
        y = E.fresh("y", Pt)
        with E.scope():
            E.assume(Ax(sp.cell(at(y, K))))
            E.assume(Ax(overlaps(at(y, K))))
            complete(f"{nm}: every overlapping block is reported", bs, off, at(y, K))
        distinct(f"{nm}: no block is reported twice", bs, off)

    E.explore(path)


# --------------------------------------------------------------------- counts
def axes_of(x):
    segs = segments(x)
    if len(segs) == 1 and isinstance(segs[0][1], Coll) and segs[0][1].axes is not None:
        return segs[0][1].axes.value
    raise Unsupported("enumeration that is not a product over the axes")


def counts(prop, fit, conflict):
    sp = Spec(fit, conflict)
    pre()

    def path():
        g, n = small_or_graph(prop, sp)
        with no_raise(f"{prop}/num_blocks: never raises"):
            nb = g.num_blocks
        with no_raise(f"{prop}/num_roots: never raises"):
            nr = g.num_roots()
        if n is None:
            E.prove(f"{prop}/num_blocks: zero without levels", total(nb) == ([], 0))
            E.prove(f"{prop}/num_roots: zero without levels", total(nr) == ([], 0))
            return
        sums, c0 = total(nb)
        name = f"{prop}/num_blocks: sum over all levels of the number of blocks of the level"
        if len(sums) != 1 or c0 != 0 or len(sums[0].binders) != 1:
            raise Unsupported("number of blocks of unknown form")
        case = sums[0]
        i = pick_level(g)
        es, t = case.inst([i])
        if not isinstance(t, coll.Prod):
            raise Unsupported("number of blocks of unknown form")
        for e in es:
            if isinstance(e, Def):
                E.assume(e.e)
            elif not isinstance(e, Univ):
                E.prove(name, e)
        j = case.binders[0]
        with E.scope():
            E.assume_all(case.entries)
            E.prove(f"{prop}/num_blocks: only existing levels are counted",
                    z3.And(j >= 0, j < sym.zi(n)))
        r = axes_of(g.level_blocks(SymInt(i)))
        E.prove(name, Ax(t.t == r.length()))
        E.cover("level counted")
        z = z3.IntVal(0)
        E.indices.append(z)
        if not isinstance(nr, coll.Prod):
            raise Unsupported("number of roots of unknown form")
        r0 = axes_of(g.root_gen())
        E.prove(f"{prop}/num_roots: number of blocks of the first level", Ax(nr.t == r0.length()))

    E.explore(path)


def total(x):
    """(cases of the sum, constant)"""
    if isinstance(x, int):
        return [], x
    if isinstance(x, coll.FormalSum):
        cs, c = [], 0
        for p in x.parts:
            if isinstance(p, int):
                c += p
            elif isinstance(p, tuple):
                cs.extend(p[1])
            else:
                raise Unsupported("sum of unknown form")
        return cs, c
    if isinstance(x, SymInt) and z3.is_int_value(z3.simplify(x.e)):
        return [], z3.simplify(x.e).as_long()
    raise Unsupported("sum of unknown form")


# --------------------------------------------------------------------- lemmas
def lemmas(prop, fit):
    """consequences of the contracts: what the properties state"""
    pre()
    sp = Spec(fit)
    nm = f"{prop}/lemma"
    c, d = z3.Function("c", Axis, z3.IntSort())(K), z3.Function("d", Axis, z3.IntSort())(K)
    x = z3.Function("x", Axis, z3.IntSort())(K)

    def path():
        E.assume(Ax(sp.cell(c)))
        wo, wsz = sp.write(c)
        ro, rsz = sp.read(c)
        if prop == "C01":
            k = E.fresh("ax", Axis)
            with E.scope():
                E.assume(Ax(sp.cell(d)))
                wo2, wsz2 = sp.write(d)
                E.assume(z3.substitute(c != d, (K, k)))
                E.assume(Ax(z3.And(wo < wo2 + wsz2, wo2 < wo + wsz)))
                E.prove_unreachable(f"{nm}: write ROIs of different cells do not overlap")
            with E.scope():
                # a point of the writable area; its cell
                E.assume(Ax(z3.And(x >= 0, x < T)))
                cx = x - FM(x, ws)
                if fit == "valid":
                    E.assume(Ax(cx + ws <= T))
                E.prove(f"{nm}: every point (of a complete cell) is covered",
                        Ax(z3.And(sp.cell(cx), cx <= x, x < cx + sp.wshape(cx))))
                E.cover("a covered point")
        if prop == "C02":
            E.prove(f"{nm}: read ROI is the write ROI grown by the context", Ax(z3.And(ro == wo - CL, ro + rsz == wo + wsz + CR)))
            if fit != "overhang":
                E.prove(f"{nm}: ROIs lie inside of the total ROI", Ax(z3.And(
                    ro >= tb, ro + rsz <= tb + ts_, wo >= W0, wo + wsz <= W0 + T)))
            if fit != "shrink":
                E.prove(f"{nm}: ROIs have the size of the task", Ax(z3.And(wsz == ws, rsz == rs)))
            else:
                E.prove(f"{nm}: write ROI is the part of the cell inside", Ax(z3.And(
                    wsz == zmin(wo + ws, W0 + T) - wo, wsz > 0)))
        if prop == "C06":
            with E.scope():
                E.assume(Ax(sp.cell(d)))
                k = E.fresh("ax", Axis)
                i, j = sp.idterm(c), sp.idterm(d)
                E.prove(f"{nm}: identities are computed from indices that are not negative", Ax(i >= 0))
                E.assume(z3.substitute(c != d, (K, k)))
                E.assume(Ax(i == j))
                E.prove_unreachable(f"{nm}: different cells have different identities")
        if prop == "C03":
            c03(nm, sp, c, d)

    E.explore(path)


def c03(nm, sp, a, b):
    """Blocks in conflict are ordered.

    By induction over the difference of their levels, every block a is an ancestor of every block b of a higher
    level that is closer than the stride: `step` yields an upstream block c of b (upstream: exactly the closer blocks
    of the previous level) that is close to a as well, and is a itself if its level is that of a.
    """
    S = STRIDE
    for _, f in stride_contract(sp, S):
        E.assume(Ax(f))
    E.assume(Ax(sp.cell(a)))
    E.assume(Ax(sp.cell(b)))
    E.have(f"{nm}: the stride is positive", Ax(S > 0))
    near = zabs_lt(a - b, S)
    with E.scope():
        (wo, wsz), (ro, rsz) = sp.write(a), sp.read(b)
        E.assume(Ax(z3.And(wo < ro + rsz, ro < wo + wsz)))
        E.prove(f"{nm}: blocks in conflict are closer than the stride", Ax(near))
        E.cover("two blocks in conflict")
    with E.scope():
        k = E.fresh("ax", Axis)
        E.assume(Ax(near))
        E.assume(Ax(FM(a, S) == FM(b, S)))
        E.assume(z3.substitute(a != b, (K, k)))
        E.prove_unreachable(f"{nm}: different blocks closer than the stride have different levels")
    with E.scope():
        E.assume(Ax(near))
        q = at(E.fresh("q", Pt), K)  # offset of the level before that of b
        E.assume(Ax(z3.And(0 <= q, q < S, FM(q, ws) == 0)))
        m = z3.If(a >= b, a, b)
        p0, p = E.fresh("c", Pt), E.fresh("c", Pt)
        c0, c = at(p0, K), at(p, K)
        E.assume(Ax(c0 == m - FM(m - q, S)))
        E.assume(Ax(c == z3.If(c0 < 0, q, c0)))
        E.have(f"{nm}: step: the intermediate block is of the level before", Ax(FM(c, S) == q))
        E.have(f"{nm}: step: the intermediate block is close to both", Ax(z3.And(zabs_lt(c - a, S), zabs_lt(c - b, S))))
        E.have(f"{nm}: step: the intermediate block exists", Ax(sp.cell(c)))
        E.cover("intermediate block")


# ------------------------------------------------------------------------ C22
def c22(prop, fn):
    import daisy.blocks as B

    E.assume(Ax(ws > 0))
    sub = roi("x")
    xb, xs = axfun("xb"), axfun("xs")
    E.assume(Ax(xs >= 0))
    nm = f"{prop}/{fn}"

    def path():
        with no_raise(f"{nm}: never raises"):
            if fn == "expand_write_roi_to_grid":
                r, G, a, b = B.expand_write_roi_to_grid(sub, WRITE), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
            elif fn == "expand_roi_to_grid":
                r, G, a, b = B.expand_roi_to_grid(sub, TOTAL, READ, WRITE), W0, z3.IntVal(0), z3.IntVal(0)
            else:
                r, G, a, b = B.expand_request_roi_to_grid(sub, TOTAL, READ, WRITE), W0, CL, CR
        lo, hi = r.begin.t + a, r.end.t - b
        # the aligned ROI [lo, hi) (for requests: what remains without context)
        E.prove(f"{nm}: contains the given ROI", Ax(z3.And(lo <= xb, xb + xs <= hi)))
        E.prove(f"{nm}: begins on the grid", Ax(FM(lo - G, ws) == 0))
        E.prove(f"{nm}: ends on the grid", Ax(FM(hi - G, ws) == 0))
        E.prove(f"{nm}: begins as late as possible", Ax(xb - lo < ws))
        E.prove(f"{nm}: ends as early as possible", Ax(hi - (xb + xs) < ws))
        E.cover("returned")

    E.explore(path)


# ------------------------------------------------------------- initial blocks
def initial(prop, fit):
    """What the combination of tasks relies on: which blocks have no upstream block within their task, and that a block
    that only reads from the area covered by another task overlaps a block of it."""
    sp = Spec(fit)
    nm = f"{prop}/lemma"
    pre()
    b = z3.Function("c", Axis, z3.IntSort())(K)

    def path():
        S = STRIDE
        for _, f in stride_contract(sp, S):
            E.assume(Ax(f))
        E.assume(Ax(sp.cell(b)))
        E.have(f"{nm}: the stride is positive", Ax(S > 0))
        q = at(E.fresh("q", Pt), K)  # offset of any level
        E.assume(Ax(z3.And(0 <= q, q < S, FM(q, ws) == 0)))
        p0, p = E.fresh("c", Pt), E.fresh("c", Pt)
        c0, c = at(p0, K), at(p, K)
        E.assume(Ax(c0 == b - FM(b - q, S)))
        E.assume(Ax(c == z3.If(c0 < 0, q, c0)))
        E.have(f"{nm}: near every block there is one of every level", Ax(z3.And(FM(c, S) == q, zabs_lt(c - b, S))))
        E.have(f"{nm}: this block exists", Ax(sp.cell(c)))
        E.cover("block of another level")

    E.explore(path)
    zb_, zs = axfun("zb"), axfun("zs")
    other = roi("z")

    def covered():
        E.assume(Ax(zs > 0))
        g = graph(sp)
        with no_raise(f"{prop}/covered_write_roi: never raises"):
            cov = g.covered_write_roi
            inside = bool(cov.contains(other))
        if not inside:
            return
        # a block of the other task begins to read at x; x is a point of the total ROI of that task
        x = at(E.fresh("x", Pt), K)
        E.assume(Ax(z3.And(zb_ <= x, x < zb_ + zs)))
        y = x - W0 - FM(x - W0, ws)
        o, s = sp.write(y)
        E.prove(f"{prop}/covered_write_roi: every point of it is written by a block", Ax(z3.And(sp.cell(y), o <= x, x < o + s)))
        E.cover("covered point")

    E.explore(covered)

    def begins():
        E.assume(Ax(sp.cell(b)))
        ro, rsz = sp.read(b)
        E.prove(f"{nm}: every block reads at least one point of the total ROI", Ax(z3.And(tb <= ro, ro < tb + ts_, rsz > 0)))

    E.explore(begins)


# ----------------------------------------------------------------- identities
def identity(prop):
    """Block: equality, hash, copies"""
    import copy as _copy
    from daisy.block import Block, BlockStatus

    nm = f"{prop}/Block"
    pre()

    def block(n, task):
        b = z3.Function("cell_" + n, Axis, z3.IntSort())(K)
        E.assume(Ax(Spec("overhang").cell(b)))
        return Block(TOTAL, SymRoi(SymCoord(tb + b), SymCoord(rs)), SymRoi(SymCoord(W0 + b), SymCoord(ws)), task_id=task)

    def processed(b):
        """everything that happens to a block while it is processed"""
        for k in list(vars(b)):
            if k in ("status",):
                b.status = BlockStatus.FAILED
            elif k.startswith(("started", "stopped")):
                setattr(b, k, 12.5)
            elif k == "requested_write_roi":
                b.requested_write_roi = SymRoi(SymCoord(tb), SymCoord(ws))
        return b

    def path():
        with no_raise(f"{nm}: never raises"):
            a, b, c = block("a", "t"), block("b", "t"), block("b", "u")
        same = SymBool(Ax(a.block_id[1].t == b.block_id[1].t))
        with no_raise(f"{nm}.__eq__: never raises"):
            eq = a == b
        if bool(same):
            E.prove(f"{nm}.__eq__: blocks with the same identity are equal", bool(eq))
        else:
            E.prove(f"{nm}.__eq__: blocks with different identities are not equal", not bool(eq))
        E.prove(f"{nm}.__eq__: blocks of different tasks are never equal", not bool(b == c) and not bool(a == c))
        E.prove(f"{nm}.__ne__: is the opposite of equality", bool(a != b) == (not bool(eq)))
        E.prove(f"{nm}.__eq__: no block equals None", not bool(a == None))  # noqa: E711
        import daisy.block as bm

        ids = []
        old = bm.__dict__.get("hash")
        bm.hash = lambda x: ids.append(x) or 7
        try:
            with no_raise(f"{nm}.__hash__: never raises"):
                h = a.__hash__()
                processed(a)
                h2 = a.__hash__()
        finally:
            if old is None:
                del bm.hash
            else:
                bm.hash = old
        if h != 7 or h2 != 7 or len(ids) != 2:
            raise Unsupported("hash")

        def of_identity(x):
            if x is a.block_id or x is a.block_id[1] or isinstance(x, str) and x == "t":
                return True
            return isinstance(x, tuple) and all(of_identity(y) for y in x)

        if not all(of_identity(x) for x in ids):
            def sameparts(x, y):
                return x is y or type(x) is type(y) and (isinstance(x, tuple) and len(x) == len(y) and all(
                    sameparts(p, q) for p, q in zip(x, y)) or isinstance(x, SymId) and x.t.eq(y.t) or not isinstance(
                        x, (Sym, tuple)) and x == y)

            E.prove(f"{nm}.__hash__: does not change while the block is processed", sameparts(*ids))
            raise Unsupported("hash of something else than the identity")
        E.ok(f"{nm}.__hash__: does not change while the block is processed")
        E.ok(f"{nm}.__hash__: depends on the identity only")
        i = a.block_id

        def kept(x, what):
            j = x.block_id
            ok = isinstance(j, tuple) and len(j) == 2 and j[0] == "t" and isinstance(j[1], SymId) and x.task_id == "t"
            E.prove(f"{nm}: {what} keeps the identity", ok and Ax(j[1].t == i[1].t))
            E.prove(f"{nm}: {what} keeps the ROIs", isinstance(x.read_roi, SymRoi) and Ax(z3.And(
                x.read_roi.begin.t == a.read_roi.begin.t, x.read_roi.shape.t == a.read_roi.shape.t,
                x.write_roi.begin.t == a.write_roi.begin.t, x.write_roi.shape.t == a.write_roi.shape.t)))
            E.prove(f"{nm}: {what} keeps the status", x.status == a.status)

        with no_raise(f"{nm}.copy: never raises"):
            x = a.copy()
        E.prove(f"{nm}.copy: is another block", x is not a)
        kept(x, "copying a block")
        # what pickle does: __reduce_ex__, then reconstruction
        with no_raise(f"{nm}: can be sent"):
            r = a.__reduce_ex__(4)
            y = _copy._reconstruct(a, None, *r)
        kept(y, "sending a block")
        E.cover("blocks")

    E.explore(path)


# ----------------------------------------------------------------------- Task
def task(prop):
    """Task: keeps what it is given; the other contracts refer to these attributes"""
    import contextlib
    import daisy.task as tm
    from .layer_d import patched, enable

    enable()
    nm = f"{prop}/Task"
    KEEP = dict(C02=("total_roi", "read_roi", "write_roi", "fit"), C03=("read_write_conflict",), C05=("total_roi", "read_roi",
                "write_roi", "fit"), C09=("max_retries",), C21=("check_function",), C19=("num_workers", "spawn"), C16=("spawn",),
                C20=("process_function",), C15=("init_callback_fn",))[prop]
    DEFAULT = dict(check_function=None, read_write_conflict=True, num_workers=1, max_retries=2, fit="valid")

    class Obj:
        def __init__(self):
            self.task_id = "other"

    def path():
        spawn = E.choose(2, "process function starts a worker") == 1
        calls, answer = [], Obj()
        fn = (lambda: calls.append("spawn")) if spawn else (lambda block: calls.append(block))
        given = dict(total_roi=TOTAL, read_roi=READ, write_roi=WRITE, process_function=fn)
        opt = dict(check_function=lambda b: (answer, b), read_write_conflict=False, num_workers=7, max_retries=(0, 5)[E.choose(
            2, "retries")], fit="shrink", init_callback_fn=lambda c: (answer, c), timeout=12)
        if E.choose(2, "options given") == 1:
            given.update(opt)
        ups = [None, [], [Obj(), Obj()]][E.choose(3, "upstream tasks")]
        if ups is not None:
            given["upstream_tasks"] = ups
        with no_raise(f"{nm}.__init__: never raises"):
            t = tm.Task("name", **given)
            r = t.requires()
        segs = segments(r)
        if any(k != "item" for k, _ in segs):
            raise Unsupported("list of required tasks")
        req = [x for _, x in segs]

        def same(x, y):
            if x is y:
                return True
            if isinstance(y, SymRoi):
                return isinstance(x, SymRoi) and Ax(z3.And(x.begin.t == y.begin.t, x.shape.t == y.shape.t))
            if callable(y):
                if not callable(x):
                    return False
                b = Obj()
                r = x(b)
                return calls == [b] if y is fn else r == (answer, b)
            return type(x) is type(y) and x == y

        for a in KEEP:
            if a == "spawn":
                b = Obj()

                class Conn:
                    left = [b]

                    def __init__(self, *a, **k):
                        pass

                    @contextlib.contextmanager
                    def acquire_block(self):
                        yield self.left.pop() if self.left else None

                with patched(tm, Client=Conn), no_raise(f"{nm}: the function that starts a worker never raises"):
                    t.spawn_worker_function()
                if spawn:
                    E.prove(f"{nm}: a function without arguments starts the worker", calls == ["spawn"])
                else:
                    E.prove(f"{nm}: otherwise the worker processes blocks", calls == [b])
            elif a == "process_function" and spawn:
                continue
            elif a in given:
                E.prove(f"{nm}: keeps the given {a}", same(getattr(t, a), given[a]))
            elif a in DEFAULT:
                E.prove(f"{nm}: default of {a}", getattr(t, a) == DEFAULT[a])
            else:
                with no_raise(f"{nm}: default of {a} never raises"):
                    getattr(t, a)(Obj())
        if prop == "C05":
            E.prove(f"{nm}: requires exactly the given upstream tasks", {id(x) for x in req} == {
                id(x) for x in ups or []})
        E.prove(f"{nm}: keeps its name", t.task_id == "name")
        E.cover("task")

    E.explore(path)
