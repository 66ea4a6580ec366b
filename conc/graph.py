"""C01-C07, C22: dependency graph contracts evaluated on concrete tasks."""
import copy, pickle
from common import *

KINDS = {
    "C01": {"tiling", "dup", "crash-enum"},
    "C02": {"shape", "crash-enum", "crash-query"},
    "C03": {"order", "cycle", "crash-enum", "crash-query"},
    "C04": {"inverse", "ghost", "dupquery", "crash-query"},
    "C05": {"cross", "roots", "undeclared", "crash-query", "crash-roots"},
    "C06": {"identity", "eq", "crash-id", "crash-enum"},
    "C07": {"count", "rootcount", "crash-count", "crash-enum"},
}


def guarded(kind, f, *a, **k):
    try:
        return f(*a, **k)
    except (Viol, CaseTimeout):
        raise
    except Exception as e:
        raise Viol(kind, exc_text(e))


def build(cfgs):
    from daisy.dependency_graph import DependencyGraph

    tasks = make_tasks(cfgs)
    g = guarded("crash-enum", DependencyGraph, list(tasks.values()))
    return tasks, g


def enum(g, name):
    tg = g.task_dependency_graphs[name]
    return guarded("crash-enum", lambda: [b for l in range(tg.num_levels) for b in tg.level_blocks(l)])


def check_tiling(cfgs):
    tasks, g = build(cfgs)
    for c in cfgs:
        exp = {cell_rois(c, cell)[1]: cell for cell in cells(c)}
        got = [be(b.write_roi) for b in enum(g, c["name"])]
        if len(set(got)) != len(got):
            raise Viol("dup", f"{c['name']}: a block is generated more than once: {sorted(got)}")
        if set(got) != set(exp):
            raise Viol("tiling", f"{c['name']}: missing write ROIs {sorted(set(exp) - set(got))[:4]}, unexpected {sorted(set(got) - set(exp))[:4]}")
    return any(cells(c) for c in cfgs)


def all_queries(g, cfgs):
    """(how, block) for every way to obtain a block"""
    for c in cfgs:
        bs = enum(g, c["name"])
        tg = g.task_dependency_graphs[c["name"]]
        for b in bs:
            yield "level_blocks", b
        for b in guarded("crash-query", lambda: list(g.root_gen(c["name"]))):
            yield "root_gen", b
        for b in bs:
            for u in guarded("crash-query", g.upstream, b):
                yield "upstream", u
            for u in guarded("crash-query", g.downstream, b):
                yield "downstream", u
        import daisy

        total = daisy.Roi(*rois(c)[0])
        if all(s > 0 for s in total.shape):
            for rr in (False, True):
                for b in guarded("crash-query", tg.get_subgraph_blocks, total, read_roi=rr):
                    yield "get_subgraph_blocks", b


def check_shape(cfgs):
    tasks, g = build(cfgs)
    w = World(cfgs)
    for how, b in all_queries(g, cfgs):
        k = w.key(b)
        if k is None:
            raise Viol("shape", f"block {b!r} from {how} is not a cell of the grid of {b.task_id}")
        exp = w.blocks[k]
        if (be(b.read_roi), be(b.write_roi)) != exp:
            raise Viol("shape", f"block {b.block_id} from {how}: read {be(b.read_roi)} write {be(b.write_roi)}, expected {exp}")
    return bool(w.blocks)


def up_map(g, w, cfgs):
    bs = {}
    for c in cfgs:
        for b in enum(g, c["name"]):
            bs[w.key(b)] = b
    up = {k: guarded("crash-query", g.upstream, b) for k, b in bs.items()}
    down = {k: guarded("crash-query", g.downstream, b) for k, b in bs.items()}
    return bs, up, down


def check_order(cfgs):
    tasks, g = build(cfgs)
    w = World(cfgs)
    bs, up, _ = up_map(g, w, cfgs)
    upk = {k: {w.key(u) for u in us} for k, us in up.items()}
    anc = {}
    state = {}

    def visit(k):
        stack = [(k, iter(upk.get(k, ())))]
        state[k] = 1
        anc[k] = set()
        while stack:
            n, it = stack[-1]
            for m in it:
                if state.get(m) == 1:
                    raise Viol("cycle", f"dependency cycle through {m} and {n}")
                if m not in state:
                    state[m] = 1
                    anc[m] = set()
                    stack.append((m, iter(upk.get(m, ()))))
                    break
                anc[n] |= anc[m] | {m}
            else:
                state[n] = 2
                stack.pop()
                if stack:
                    p = stack[-1][0]
                    anc[p] |= anc[n] | {n}

    for k in upk:
        if k not in state:
            visit(k)
    found = False
    for c in cfgs:
        if not c["conflict"]:
            continue
        ks = [k for k in w.blocks if k[0] == c["name"]]
        for a, b in itertools.combinations(ks, 2):
            ra, rb = w.blocks[a], w.blocks[b]
            if overlap(ra[1], rb[0]) or overlap(rb[1], ra[0]):
                found = True
                if a not in anc.get(b, ()) and b not in anc.get(a, ()):
                    raise Viol("order", f"blocks {a} and {b} conflict (write {ra[1]} / read {rb[0]}) but neither is upstream of the other")
    return found


def check_inverse(cfgs):
    tasks, g = build(cfgs)
    w = World(cfgs)
    bs, up, down = up_map(g, w, cfgs)
    ids = {}
    for k, b in bs.items():
        ids[b.block_id] = (k, b)
    res = {}
    for nm, m in (("upstream", up), ("downstream", down)):
        res[nm] = {}
        for k, us in m.items():
            seen = set()
            for u in us:
                if u.block_id not in ids or (be(ids[u.block_id][1].read_roi), be(ids[u.block_id][1].write_roi)) != (be(u.read_roi), be(u.write_roi)):
                    raise Viol("ghost", f"{nm} of {k} reports {u!r}, which is not an enumerated block")
                if u.block_id in seen:
                    raise Viol("dupquery", f"{nm} of {k} reports {u!r} twice")
                seen.add(u.block_id)
            res[nm][bs[k].block_id] = seen
    for a, us in res["upstream"].items():
        for u in us:
            if a not in res["downstream"][u]:
                raise Viol("inverse", f"{u} is upstream of {a}, but {a} is not downstream of {u}")
    for a, us in res["downstream"].items():
        for u in us:
            if a not in res["upstream"][u]:
                raise Viol("inverse", f"{u} is downstream of {a}, but {a} is not upstream of {u}")
    return any(res["upstream"].values())


def check_cross(cfgs):
    tasks, g = build(cfgs)
    w = World(cfgs)
    bs, up, down = up_map(g, w, cfgs)
    for k, b in bs.items():
        if k is None:
            raise Viol("cross", f"unknown block {b!r}")
        for nm, m, exp, allowed in (
            ("upstream", up, w.cross_up(k), set(w.cfgs[k[0]]["ups"])),
            ("downstream", down, w.cross_down(k), {t for t, c in w.cfgs.items() if k[0] in c["ups"]}),
        ):
            got = {w.key(u) for u in m[k] if u.task_id != k[0]}
            if {u.task_id for u in m[k]} - allowed - {k[0]}:
                raise Viol("undeclared", f"{nm} of {k} contains blocks of {sorted({u.task_id for u in m[k]} - allowed - {k[0]})}")
            if got != exp:
                raise Viol("cross", f"{nm} of {k} in other tasks: got {sorted(got, key=str)[:5]}, expected {sorted(exp, key=str)[:5]} (missing {sorted(exp - got, key=str)[:3]}, extra {sorted(got - exp, key=str)[:3]})")
    roots = guarded("crash-roots", g.roots)
    got = []
    for t, (n, gen) in roots.items():
        got += guarded("crash-roots", lambda: [w.key(b) for b in gen])
    exp = {k for k in bs if not up[k]}
    if len(got) != len(set(got)) or set(got) != exp:
        raise Viol("roots", f"initially available blocks differ from the blocks without upstream blocks: missing {sorted(exp - set(got), key=str)[:4]}, extra {sorted(set(got) - exp, key=str)[:4]}")
    return any(w.cross_up(k) for k in bs)


def check_identity(cfgs):
    if isinstance(cfgs, dict):
        return check_far_identity(cfgs["far"])
    tasks, g = build(cfgs)
    w = World(cfgs)
    by_cell, by_id = {}, {}
    blocks = []
    for how, b in all_queries(g, cfgs):
        k = w.key(b)
        i = b.block_id
        if by_cell.setdefault(k, i) != i:
            raise Viol("identity", f"cell {k} has identities {by_cell[k]} and {i} (from {how})")
        if by_id.setdefault(i, k) != k:
            raise Viol("identity", f"identity {i} is used for {by_id[i]} and {k}")
        if len(blocks) < 12 or len(blocks) % 7 == 0:
            blocks.append(b)
    from daisy.block import BlockStatus

    for b in blocks[:12]:
        try:
            c1, c2, c3 = b.copy(), pickle.loads(pickle.dumps(b)), copy.deepcopy(b)
            i = b.block_id
            for st in BlockStatus:
                c1.status = st
            # what the bookkeeper and the user code do to a block
            c1.started_processing, c1.stopped_processing = 1.5, 2.5
            c1.requested_write_roi = c1.read_roi
            for c in (c1, c2, c3):
                if c.block_id != i or c != b or hash(c) != hash(b) or be(c.write_roi) != be(b.write_roi) or be(c.read_roi) != be(b.read_roi):
                    raise Viol("identity", f"copy/transfer changed block {b!r} into {c!r}")
        except Viol:
            raise
        except Exception as e:
            raise Viol("crash-id", exc_text(e))
    for a, b in itertools.product(blocks[:30], blocks[:30]):
        if (a == b) != (a.block_id == b.block_id) or (a == b and hash(a) != hash(b)):
            raise Viol("eq", f"{a!r} == {b!r} is {a == b}, although the identities are {a.block_id} and {b.block_id}")
    return len(by_id) > 1


def check_far_identity(c):
    """cells far apart, and adjacent cells far from the origin, in volumes too large to enumerate"""
    from daisy import Roi

    tasks, g = build([c["task"]])
    tg = g.task_dependency_graphs["t0"]
    t = c["task"]
    seen = {}
    for cell in map(tuple, c["cells"]):
        begin = [o + l + i * w for o, l, i, w in zip(t["off"], t["cl"], cell, t["w"])]
        bs = guarded("crash-id", lambda: tg.get_subgraph_blocks(Roi(begin, t["w"]), read_roi=False))
        if len(bs) != 1 or list(bs[0].write_roi.offset) != begin:
            return False  # decided by C05
        i = bs[0].block_id
        if seen.setdefault(i, cell) != cell:
            raise Viol("identity", f"cells {seen[i]} and {cell} have the same identity {i}")
    return True


def far_case(rng):
    """pairs of cells whose numbers agree modulo a power of two, if blocks are numbered by the Cantor number"""
    from math import isqrt

    m = 2 ** rng.choice([16, 24, 31, 32])
    cs = []
    for _ in range(40000):
        s, x = rng.randint(isqrt(2 * m), 4 * isqrt(2 * m)), rng.randint(0, 7)
        r = (s * (s + 1) // 2 + x) % m
        q = (isqrt(8 * r + 1) - 1) // 2
        y = r - q * (q + 1) // 2
        if y <= min(7, q):
            cs += [(x, s - x), (y, q - y)]
            if len(cs) > 6:
                break
    n = 4 * isqrt(2 * m) + 10
    for _ in range(4):
        a, b = rng.randint(0, 6), rng.randint(n // 2, n - 12)
        cs += [(a, b), (a + 1, b), (a, b + 1), (a + 1, b - 1)]
    w = [rng.choice([1, 2, 50]), rng.choice([1, 3, 64])]
    cs = list(dict.fromkeys(cs))
    return dict(far=dict(cells=[list(x) for x in cs], task=dict(name="t0", w=w, cl=[0, 0], cr=[0, 2], off=[rng.choice([
        0, -3, 10]), 5], T=[8 * w[0], n * w[1]], roff=[0, 0], fit=rng.choice(FITS), conflict=False, retries=1, ups=[])))


def check_count(cfgs):
    if isinstance(cfgs, dict):
        return check_big_count(cfgs["big"])
    tasks, g = build(cfgs)
    w = World(cfgs)
    for c in cfgs:
        n = c["name"]
        got = len(enum(g, n))
        ann = guarded("crash-count", g.num_blocks, n)
        if ann != got:
            raise Viol("count", f"{n}: announced {ann} blocks, enumerated {got}")
        ann = guarded("crash-count", g.num_roots, n)
        got = guarded("crash-count", lambda: len(list(g.root_gen(n))))
        if ann != got:
            raise Viol("rootcount", f"{n}: announced {ann} root blocks, generated {got}")
        if not cells(c) and (ann or got):
            raise Viol("count", f"{n}: the total ROI holds no block, but counts are {ann}/{got}")
    roots = guarded("crash-count", g.roots)
    for t, (n, gen) in roots.items():
        got = guarded("crash-count", lambda: len(list(gen)))
        if n != got:
            raise Viol("rootcount", f"{t}: announced {n} initially available blocks, handed out {got}")
    from daisy.scheduler import Scheduler

    s = guarded("crash-count", Scheduler, list(tasks.values()))
    for c in cfgs:
        e = len(cells(c))
        if s.task_states[c["name"]].total_block_count != e:
            raise Viol("count", f"{c['name']}: scheduler announces {s.task_states[c['name']].total_block_count} blocks instead of {e}")
    return bool(w.blocks)


def check_big_count(c):
    """counts of volumes too large to enumerate: the number of grid cells by definition"""
    tasks, g = build([c])
    exp = 1
    for T, w in zip(c["T"], c["w"]):
        exp *= T // w if c["fit"] == "valid" else -(-T // w)
    ann = guarded("crash-count", g.num_blocks, c["name"])
    if ann != exp:
        raise Viol("count", f"announced {ann} blocks, the grid has {exp} cells")
    n = guarded("crash-count", g.num_roots, c["name"])
    if not c["conflict"] and n != exp:
        raise Viol("rootcount", f"announced {n} initially available blocks, the grid has {exp} cells")
    return True


def big_task(rng):
    d = rng.choice([2, 3, 3, 4])
    w = [rng.choice([1, 2, 7, 64, 100]) for _ in range(d)]
    m = int(10 ** (rng.uniform(8, 17) / d))
    return dict(name="t0", w=w, cl=[rng.choice([0, 0, 1, a]) for a in w], cr=[rng.choice([0, 0, 1, a]) for a in w],
                off=[rng.choice([0, -5, 1000]) for _ in w], T=[a * rng.randint(m, 2 * m) + rng.randint(0, a - 1) for a in w],
                roff=[0] * d, fit=rng.choice(FITS), conflict=rng.random() < 0.4, retries=1, ups=[])


CHECK = dict(C01=check_tiling, C02=check_shape, C03=check_order, C04=check_inverse, C05=check_cross, C06=check_identity, C07=check_count)


def cases(prop, seed, thorough):
    rng = random.Random(f"{prop}-{seed}")
    small = list(grid_1d(9 if thorough else 7))
    rng.shuffle(small)
    # interleave exhaustive small cases with random larger ones
    it = iter(small)
    while True:
        if prop == "C07" and rng.random() < 0.2:
            yield dict(big=big_task(rng))
        if prop == "C06" and rng.random() < 0.2:
            yield far_case(rng)
        if prop != "C05":
            for _ in range(3):
                c = next(it, None)
                if c is not None:
                    yield c
        while True:
            c = rand_tasks(rng, ntasks=rng.choice([2, 2, 3]) if prop == "C05" else rng.choice([1, 1, 2, 3]))
            lim = 90 if prop in ("C03", "C04", "C05") else 160
            if small_enough(c, lim * (3 if thorough else 1)):
                break
        yield c


# ------------------------------------------------------------------ C22
def check_grid(case):
    import daisy
    from daisy.blocks import expand_roi_to_grid, expand_request_roi_to_grid, expand_write_roi_to_grid

    c = case["task"]
    so, ss = case["sub"]
    t, r, w = rois(c)
    sub = daisy.Roi(so, ss)
    T, R, W = daisy.Roi(*t), daisy.Roi(*r), daisy.Roi(*w)

    def expect(b, e, off, sz):
        lo = off + ((b - off) // sz) * sz
        hi = off - ((off - e) // sz) * sz
        return lo, hi

    d = len(so)
    sb, se = list(so), [o + s for o, s in zip(so, ss)]
    e1 = [expect(sb[i], se[i], c["off"][i], c["w"][i]) for i in range(d)]
    e2 = [expect(sb[i], se[i], 0, c["w"][i]) for i in range(d)]
    e3 = [(lo - c["cl"][i], hi + c["cr"][i]) for i, (lo, hi) in enumerate(e1)]
    for nm, f, args, e in (
        ("expand_roi_to_grid", expand_roi_to_grid, (sub, T, R, W), e1),
        ("expand_write_roi_to_grid", expand_write_roi_to_grid, (sub, W), e2),
        ("expand_request_roi_to_grid", expand_request_roi_to_grid, (sub, T, R, W), e3),
    ):
        try:
            got = f(*args)
        except Exception as ex:
            raise Viol("grid", f"{nm}: {exc_text(ex)}")
        g = list(zip(got.begin, got.end))
        if g != e:
            raise Viol("grid", f"{nm} of {sub}: got {g}, smallest aligned enclosing ROI is {e}")
    return True


def grid_cases(seed, thorough):
    rng = random.Random(f"C22-{seed}")
    while True:
        d = rng.choice([1, 1, 2, 3])
        c = rand_task(rng, "t", d)
        m = 9
        if rng.random() < 0.3:
            c, m = scaled(rng, [c])[0], rng.choice([50, 2000, 2 * 10**6])
        yield dict(task=c, sub=([rng.randint(-m, m) for _ in range(d)], [rng.randint(0, m) for _ in range(d)]))


def search(prop, seed, budget, thorough):
    if prop == "C22":
        return drive(grid_cases(seed, thorough), check_grid, {"grid", "hang"}, budget, seed, max_cases=None if thorough else 20000)
    return drive(cases(prop, seed, thorough), CHECK[prop], KINDS[prop] | {"hang"}, budget, seed)


def replay(prop, case):
    return check_grid(case) if prop == "C22" else CHECK[prop](case)
