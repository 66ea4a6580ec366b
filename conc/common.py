"""Shared parts of the concrete (run-time) contract checks: they run the *uninstrumented* daisy from /repo.

A concrete check enumerates/samples cases, evaluates the property's contract on
the real code, and returns the first violating case, which can be replayed.
"""
import logging, os, random, signal, sys, time, itertools

REPO = os.environ.get("DV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class case_limit:
    """Limits a single case (changed code may loop forever)."""

    def __init__(self, seconds=20):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Viol(Exception):
    """A contract does not hold. kind selects the properties it belongs to."""

    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg
        super().__init__(f"[{kind}] {msg}")


def exc_text(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/daisy/" in f.filename]
    return f"{type(e).__name__}: {e} (in {' > '.join(where[-4:])})"


# ---------------------------------------------------------------- task configs
FITS = ["valid", "overhang", "shrink"]


def rand_task(rng, name, dims, ups=(), base=None, maxT=7, big=False):
    w = [rng.randint(1, 3) for _ in range(dims)]
    mode = rng.random()
    cl = [rng.randint(0, 4) for _ in range(dims)]
    if mode < 0.3:
        cr = list(cl)
    elif mode < 0.4:
        cl = [0] * dims
        cr = [0] * dims
    elif mode < 0.5:
        cr = [0] * dims
    else:
        cr = [rng.randint(0, 4) for _ in range(dims)]
    if base is not None and rng.random() < 0.6:
        off = [o + rng.choice([0, 0, 0, 1, -1, 2]) for o in base["off"]]
        T = [max(0, t + rng.choice([0, 0, 0, 1, -1, 3, -2])) for t in base["T"]]
    else:
        off = [rng.randint(-5, 5) for _ in range(dims)]
        T = [rng.randint(1, maxT) for _ in range(dims)]
    if rng.random() < 0.04:
        T[rng.randrange(dims)] = rng.choice([0, 0, -1, -3])
    roff = [rng.choice([0, 0, -c, rng.randint(-3, 3)]) for c in cl]
    return dict(
        name=name, w=w, cl=cl, cr=cr, off=off, T=T, roff=roff,
        fit=rng.choice(FITS), conflict=rng.random() < 0.75,
        retries=rng.randint(0, 2), ups=list(ups),
    )


def scaled(rng, cfgs):
    """the same kind of configuration in other units (voxel sizes): sizes, contexts and offsets of realistic magnitude"""
    d = len(cfgs[0]["w"])
    f = [rng.choice([2, 3, 4, 5, 7, 10, 16, 40, 100]) for _ in range(d)]
    jit = rng.choice([0, 0, 1, 2])
    shift = [rng.choice([0, 0, 1000, -1000, 10**6, 12345]) for _ in range(d)]
    j = lambda v, lo: max(lo, v + rng.randint(-jit, jit)) if jit else v
    for c in cfgs:
        for k, lo in (("w", 1), ("cl", 0), ("cr", 0)):
            c[k] = [j(v * a, lo) if v else 0 for v, a in zip(c[k], f)]
        c["T"] = [j(v * a, 0) if v > 0 else v for v, a in zip(c["T"], f)]
        c["off"] = [v * a + s for v, a, s in zip(c["off"], f, shift)]
        c["roff"] = [v * a for v, a in zip(c["roff"], f)]
    return cfgs


def rand_tasks(rng, ntasks=None, dims=None, maxT=None):
    cfgs = rand_tasks_small(rng, ntasks, dims, maxT)
    return scaled(rng, cfgs) if rng.random() < 0.3 else cfgs


def rand_tasks_small(rng, ntasks=None, dims=None, maxT=None):
    n = ntasks or rng.choice([1, 1, 2, 2, 3, 4])
    d = dims or rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 4] if n < 3 else [1, 1, 2])
    mT = maxT or {1: 11, 2: 6, 3: 4, 4: 3}[d]
    res = []
    for i in range(n):
        ups = [t["name"] for t in res if rng.random() < 0.7]
        res.append(rand_task(rng, f"t{i}", d, ups, res[-1] if res else None, mT))
    return res


def grid_1d(tmax=7):
    """Exhaustive small 1D single-task configurations."""
    for w in (1, 2, 3):
        for cl in range(4):
            for cr in range(4):
                for T in range(0, tmax + 1):
                    for fit in FITS:
                        for conf in (True, False):
                            yield [dict(name="t0", w=[w], cl=[cl], cr=[cr], off=[(T + cl) % 5 - 2], T=[T],
                                        roff=[-cl if cr % 2 else 0], fit=fit, conflict=conf, retries=1, ups=[])]


def rois(c):
    """total, read, write ROI as plain (offset, shape) lists"""
    total = ([o - l for o, l in zip(c["off"], c["cl"])], [t + l + r for t, l, r in zip(c["T"], c["cl"], c["cr"])])
    read = (list(c["roff"]), [a + b + d for a, b, d in zip(c["cl"], c["w"], c["cr"])])
    write = ([o + l for o, l in zip(c["roff"], c["cl"])], list(c["w"]))
    return total, read, write


def make_tasks(cfgs, process=None, check=None):
    import daisy

    tasks = {}
    for c in cfgs:
        t, r, w = rois(c)
        tasks[c["name"]] = daisy.Task(
            c["name"], daisy.Roi(*t), daisy.Roi(*r), daisy.Roi(*w),
            process_function=(process(c["name"]) if process else (lambda b: None)),
            check_function=(check(c["name"]) if check else None),
            read_write_conflict=c["conflict"], fit=c["fit"], max_retries=c["retries"],
            num_workers=c.get("workers", 1), upstream_tasks=[tasks[u] for u in c["ups"]],
        )
    return tasks


# ---------------------------------------------------------------- oracle
def cells(c):
    """All grid cells (index tuples) of a task, by definition of fit."""
    ns = []
    for T, w in zip(c["T"], c["w"]):
        if c["fit"] == "valid":
            n = T // w if T > 0 else 0
        else:
            n = -(-T // w) if T > 0 else 0
        ns.append(n)
    return list(itertools.product(*[range(n) for n in ns]))


def cell_rois(c, cell):
    """(read, write) of a cell, as ((begin, end), (begin, end)) tuples."""
    wb = [o + i * w for o, i, w in zip(c["off"], cell, c["w"])]
    we = [b + w for b, w in zip(wb, c["w"])]
    if c["fit"] == "shrink":
        we = [min(e, o + T) for e, o, T in zip(we, c["off"], c["T"])]
    rb = [b - l for b, l in zip(wb, c["cl"])]
    re = [e + r for e, r in zip(we, c["cr"])]
    return (tuple(rb), tuple(re)), (tuple(wb), tuple(we))


def overlap(a, b):
    return all(x < f and y < e for x, e, y, f in zip(a[0], a[1], b[0], b[1]))


def be(roi):
    return tuple(roi.begin), tuple(roi.end)


class World:
    """Oracle view of a set of tasks: all blocks keyed (task, cell)."""

    def __init__(self, cfgs):
        self.cfgs = {c["name"]: c for c in cfgs}
        self.blocks = {}
        for c in cfgs:
            for cell in cells(c):
                self.blocks[(c["name"], cell)] = cell_rois(c, cell)
        self.by_write_begin = {(k[0], v[1][0]): k for k, v in self.blocks.items()}

    def key(self, block):
        """which block is this (by position of its write ROI)"""
        return self.by_write_begin.get((block.task_id, tuple(block.write_roi.begin)))

    def cross_up(self, key):
        t, _ = key
        read = self.blocks[key][0]
        return {k for k, v in self.blocks.items() if k[0] in self.cfgs[t]["ups"] and overlap(v[1], read)}

    def cross_down(self, key):
        t, _ = key
        write = self.blocks[key][1]
        return {k for k, v in self.blocks.items() if t in self.cfgs[k[0]]["ups"] and overlap(v[0], write)}


def small_enough(cfgs, limit=400):
    return sum(len(cells(c)) for c in cfgs) <= limit


# ---------------------------------------------------------------- driver
def drive(cases, run_case, kinds, budget, seed, limit=20, max_cases=None, min_cases=40):
    """run cases until a violation of one of ``kinds`` (None: any) or the budget is used up"""
    t0 = time.time()
    n = 0
    nontrivial = 0
    samples = []
    other = {}
    for case in cases:
        if (time.time() - t0 > budget and n >= min_cases) or (max_cases and n >= max_cases):
            break
        n += 1
        try:
            with case_limit(limit):
                r = run_case(case)
            if r:
                nontrivial += 1
                if len(samples) < 2:
                    samples.append(case)
        except Viol as v:
            if kinds is None or v.kind in kinds:
                return dict(violation=dict(kind=v.kind, message=v.msg, case=case), evaluations=n, distinct_nontrivial=nontrivial, samples=samples)
            other[v.kind] = other.get(v.kind, 0) + 1
        except CaseTimeout:
            if kinds is None or "hang" in kinds:
                return dict(violation=dict(kind="hang", message=f"no answer within {limit} s", case=case), evaluations=n, distinct_nontrivial=nontrivial, samples=samples)
    return dict(violation=None, evaluations=n, distinct_nontrivial=nontrivial, samples=samples, other=other)
