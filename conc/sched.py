"""C08-C12, C21: random schedules against a model of the block life cycle."""
from common import *

KINDS = {
    "C08": {"early", "dead-handout", "ready-count", "ready-missing", "crash"},
    "C09": {"dup", "retry-count", "retry-missing", "again", "crash"},
    "C10": {"ready-count", "retry-count", "count", "orphan-count", "skip-count", "done", "pending", "crash"},
    "C11": {"orphan-count", "dead-handout", "orphan-temp", "crash"},
    "C12": {"ready-missing", "retry-missing", "stall", "ready-tasks", "done", "crash"},
    "C21": {"skip", "skip-count", "skip-ready", "precheck", "crash"},
}
P, R, X, D, F, O = "pending ready processing done failed orphaned".split()


class Sim:
    def __init__(self, case, kinds):
        from daisy.dependency_graph import DependencyGraph
        from daisy.scheduler import Scheduler

        self.kinds = kinds
        self.rng = random.Random(case["seed"])
        self.pf = case["pfail"]
        self.cfgs = case["tasks"]
        self.w = World(self.cfgs)
        self.behave = {}
        self.calls = []
        self.off = set()
        self.noted = []
        self.deferred = None
        checks = case["checks"]
        tasks = make_tasks(self.cfgs, check=lambda n: (self.checker if checks.get(n) else None))
        self.checks = checks
        self.tasks = tasks
        g = self.call("crash", DependencyGraph, list(tasks.values()))
        self.up, self.down = {}, {}
        for c in self.cfgs:
            tg = g.task_dependency_graphs[c["name"]]
            for b in self.call("crash", lambda: [b for l in range(tg.num_levels) for b in tg.level_blocks(l)]):
                k = self.w.key(b)
                self.up[k] = {self.w.key(u) for u in self.call("crash", g.upstream, b)}
                self.down[k] = {self.w.key(u) for u in self.call("crash", g.downstream, b)}
        for k in self.up:
            if checks.get(k[0]):
                self.behave[k] = self.rng.choice(["true", "false", "raise", "none"] if checks[k[0]] == 1 else ["true"])
        self.state = {k: (R if not u else P) for k, u in self.up.items()}
        self.retries = {k: 0 for k in self.up}
        self.handed = {k: 0 for k in self.up}
        self.skipped = set()
        self.procs = {}
        given = list(tasks.values())
        if case["leaf"]:
            needed = {u for c in self.cfgs for u in c["ups"]}
            given = [t for n, t in tasks.items() if n not in needed]
        self.s = self.call("crash", Scheduler, given)

    # -- reporting
    def flag(self, kind, msg):
        if kind in self.kinds:
            raise Viol(kind, msg)
        self.off.add(kind)
        self.noted.append((kind, msg))

    def call(self, kind, f, *a, **k):
        try:
            return f(*a, **k)
        except (Viol, CaseTimeout):
            raise
        except Exception as e:
            raise Viol(kind, exc_text(e))

    # -- model transitions
    def succeed(self, k):
        self.state[k] = D
        for d in self.down[k]:
            if d in self.state and self.state[d] == P and all(self.state[u] == D for u in self.up[d]):
                self.state[d] = R

    def fail(self, k):
        self.state[k] = F
        work = [k]
        while work:
            for d in self.down[work.pop()]:
                if d in self.state and self.state[d] in (P,):
                    self.state[d] = O
                    work.append(d)

    def checker(self, block):
        try:
            return self.checker_(block)
        except Viol as v:  # the scheduler swallows exceptions of check functions
            self.deferred = v
            raise

    def checker_(self, block):
        k = self.w.key(block)
        self.calls.append(k)
        if k not in self.state:
            self.flag("early", f"check function called for unknown block {block!r}")
            return False
        if self.state[k] != R:
            self.not_ready(k, "check function called")
        b = self.behave[k]
        if b == "true":
            self.skipped.add(k)
            self.succeed(k)
            return self.rng.choice([True, 1])
        if b == "raise":
            raise RuntimeError("check")
        return None if b == "none" else False

    def not_ready(self, k, what):
        st = self.state[k]
        if st == P:
            bad = [u for u in self.up[k] if self.state[u] != D]
            self.flag("early", f"{what} for {k}, although upstream blocks {bad[:3]} did not succeed ({[self.state[u] for u in bad[:3]]})")
        elif st in (F, O):
            self.flag("dead-handout" if st == O else "dup", f"{what} for {k}, which is {st}")
        else:
            self.flag("dup", f"{what} for {k}, which is {st}")

    # -- checks after every operation
    def compare(self, after):
        for c in self.cfgs:
            t = c["name"]
            ts = self.s.task_states[t]
            st = [self.state[k] for k in self.state if k[0] == t]
            exp = {x: st.count(x) for x in (P, R, X, D, F, O)}
            for attr, val, kind in (
                ("ready_count", exp[R], "retry-count" if after == "retry" else "skip-ready" if after == "skip" else "ready-count"),
                ("processing_count", exp[X], "count"),
                ("completed_count", exp[D], "count"),
                ("failed_count", exp[F], "retry-count" if after in ("retry", "fail") else "count"),
                ("orphaned_count", exp[O], "orphan-temp" if after == "retry" else "orphan-count"),
                ("skipped_count", len([k for k in self.skipped if k[0] == t]), "skip-count"),
                ("total_block_count", len(st), "count"),
                ("pending_count", exp[P], "pending"),
            ):
                got = getattr(ts, attr)
                if got != val:
                    for kd in {kind, "count" if kind not in ("skip-count", "orphan-count", "ready-count", "pending") else kind, "orphan-count" if kind == "orphan-temp" else kind, "ready-count" if kind == "skip-ready" else kind}:
                        if kd not in self.off:
                            self.flag(kd, f"{t}: {attr} is {got} instead of {val} after {self.last}")
            if bool(ts.is_done()) != (exp[D] + exp[F] + exp[O] == len(st)):
                if "done" not in self.off:
                    self.flag("done", f"{t}: is_done() is {ts.is_done()} with blocks {exp} after {self.last}")
        got = sorted(t.task_id for t in self.call("crash", self.s.get_ready_tasks))
        exp = sorted({k[0] for k, v in self.state.items() if v == R})
        if got != exp and "ready-tasks" not in self.off:
            self.flag("ready-tasks", f"tasks with ready blocks reported: {got}, expected {exp} after {self.last}")

    def acquire(self, t):
        before = dict(self.state)
        self.calls = []
        nskip = len(self.skipped)
        b = self.call("crash", self.s.acquire_block, t)
        if self.deferred:
            raise self.deferred
        skipped = len(self.skipped) > nskip
        self.last = f"acquire_block({t}) -> {b.block_id if b else None}" + (" with skipped blocks" if skipped else "")
        if b is None:
            left = [k for k, v in self.state.items() if v == R and k[0] == t]
            if left:
                kind = "retry-missing" if any(self.retries[k] for k in left) else "ready-missing"
                self.flag(kind, f"acquire_block({t}) returned nothing although {left[:3]} are ready")
                if skipped:
                    self.flag("skip-ready", f"acquire_block({t}) skipped blocks and returned nothing although {left[:3]} are ready")
            self.compare("skip" if skipped else "acquire")
            return
        k = self.w.key(b)
        if k is None or k not in self.state:
            self.flag("early", f"unknown block {b!r} handed out")
            return
        if k[0] != t:
            self.flag("early", f"request for {t} answered with {k}")
        if k in self.skipped:
            self.flag("skip", f"block {k} passed its check but was handed out")
        if self.checks.get(t) and (not self.calls or self.calls[-1] != k or self.calls.count(k) != 1):
            self.flag("precheck", f"block {k} handed out, check function calls: {self.calls[-3:]}")
        if self.state[k] != R:
            self.not_ready(k, "block handed out")
        self.handed[k] += 1
        if self.handed[k] > 1 + self.w.cfgs[t]["retries"]:
            self.flag("again", f"block {k} handed out {self.handed[k]} times with max_retries {self.w.cfgs[t]['retries']}")
        self.state[k] = X
        if self.s.task_states[t].started is not True:
            self.flag("count", f"task {t} not marked as started")
        self.procs[k] = b
        self.compare("skip" if skipped else "acquire")

    def release(self, k, ok):
        from daisy.block import BlockStatus

        b = self.procs.pop(k)
        if self.rng.random() < 0.3:
            b = b.copy()
        b.status = BlockStatus.SUCCESS if ok else BlockStatus.FAILED
        self.last = f"release_block({k}, {'success' if ok else 'failed'})"
        if ok:
            self.succeed(k)
            after = "ok"
        elif self.retries[k] >= self.w.cfgs[k[0]]["retries"]:
            self.fail(k)
            after = "fail"
        else:
            self.retries[k] += 1
            self.state[k] = R
            after = "retry"
        self.call("crash", self.s.release_block, b)
        self.compare(after)

    def run(self):
        self.last = "construction"
        self.compare("init")
        steps = 0
        tasks = [c["name"] for c in self.cfgs]
        width = self.rng.choice([1, 2, 3, 8, 1000])
        while True:
            steps += 1
            und = [k for k, v in self.state.items() if v in (P, R, X)]
            if not und:
                break
            ready = sorted({k[0] for k, v in self.state.items() if v == R})
            ops = []
            if len(self.procs) < width:
                ops += [("a", t) for t in ready]
                if self.rng.random() < 0.05:
                    ops += [("a", t) for t in tasks]
            ops += [("r", k) for k in sorted(self.procs, key=str)]
            if not ops:
                if ready:
                    ops = [("a", t) for t in ready]
                else:
                    raise Viol("stall", f"no block is ready or being processed but {und[:4]} are undecided")
            op, x = self.rng.choice(ops)
            if op == "a":
                self.acquire(x)
            else:
                self.release(x, self.rng.random() >= self.pf)
            if steps > 5000:
                raise Viol("stall", "no end after 5000 operations")
        for t in tasks:
            self.acquire(t)
        return len(self.state) > 1


class SurfaceNode(int):
    """a node as far as ReadySurface is concerned: hashable, and (like a block) with a task and an identity"""

    task_id = property(lambda s: f"t{int(s) % 2}")
    block_id = property(lambda s: (s.task_id, int(s)))


def surface_case(case):
    """ReadySurface on a random dependency graph, with nodes decided in a random order"""
    import inspect
    from daisy.ready_surface import ReadySurface

    try:
        inspect.signature(ReadySurface).bind(0, 0)
        inspect.signature(ReadySurface.mark_success).bind(0, 0)
        inspect.signature(ReadySurface.mark_failure).bind(0, 0, count_all_orphans=True)
    except (TypeError, AttributeError):
        return False  # not the interface this case was written for: the scheduler is still exercised
    rng = random.Random(case["seed"])
    up = {int(k): v for k, v in case["up"].items()}
    up = {SurfaceNode(k): [SurfaceNode(j) for j in v] for k, v in up.items()}
    down = {k: [j for j in up if k in up[j]] for k in up}
    try:
        rs = ReadySurface(lambda n: [d for d in down[n]], lambda n: [u for u in up[n]])
    except Exception as e:
        raise Viol("crash", exc_text(e))
    state = {k: (R if not up[k] else P) for k in up}
    while True:
        ready = [k for k in state if state[k] == R]
        if not ready:
            break
        k = rng.choice(ready)
        ok = rng.random() >= case["pfail"]
        try:
            got = list(rs.mark_success(k)) if ok else list(rs.mark_failure(k, count_all_orphans=True))
        except (CaseTimeout, Viol):
            raise
        except Exception as e:
            raise Viol("crash", f"{'success' if ok else 'failure'} of {k} in state {state}: {exc_text(e)}")
        if ok:
            state[k] = D
            exp = [d for d in down[k] if state[d] == P and all(state[u] == D for u in up[d])]
            for d in exp:
                state[d] = R
            if sorted(got) != sorted(exp):
                raise Viol("ready-count" if set(exp) <= set(got) else "ready-missing", f"success of {k} makes {sorted(got)} available, expected {sorted(exp)} in {state}")
        else:
            state[k] = F
            exp, work = set(), [k]
            while work:
                for d in down[work.pop()]:
                    if state[d] == P:
                        state[d] = O
                        exp.add(d)
                        work.append(d)
            if sorted(got) != sorted(exp):
                raise Viol("orphan-count", f"failure of {k} orphans {sorted(got)}, expected {sorted(exp)} in {state}")
    left = [k for k in state if state[k] == P]
    if left:
        raise Viol("stall", f"{left} undecided")
    return len(up) > 2


def rand_dag(rng):
    n = rng.randint(2, 8)
    p = rng.choice([0.2, 0.35, 0.6])
    return {i: [j for j in range(i) if rng.random() < p] for i in range(n)}


def run_case(kinds):
    def f(case):
        if "up" in case:
            return surface_case(case)
        return Sim(case, kinds).run()

    return f


def cases(prop, seed, thorough):
    rng = random.Random(f"{prop}-{seed}")
    while True:
        if prop in ("C08", "C10", "C11", "C12"):
            for _ in range(12):
                yield dict(up=rand_dag(rng), seed=rng.randrange(10**9), pfail=rng.choice([0, 0.2, 0.5]))
        tasks = rand_tasks(rng, ntasks=rng.choice([1, 1, 2, 2, 3, 4]))
        if prop in ("C10", "C11") and rng.random() < 0.7:
            # permanent failures of several upstream blocks of the same block
            tasks = rand_tasks(rng, ntasks=rng.choice([1, 2, 2]), dims=rng.choice([1, 1, 2]))
            for t in tasks:
                t["retries"] = rng.choice([0, 0, 0, 1])
                t["conflict"] = rng.random() < 0.85
        if not small_enough(tasks, 120 if thorough else 70):
            continue
        pc = 1.0 if prop == "C21" else 0.35
        checks = {t["name"]: rng.choice([0, 1, 1, 2]) for t in tasks} if rng.random() < pc else {}
        yield dict(tasks=tasks, seed=rng.randrange(10**9), pfail=rng.choice([0, 0.1, 0.3, 0.3, 0.7] if prop not in ("C11", "C09") else [0.1, 0.3, 0.3, 0.5, 0.9]), checks=checks, leaf=rng.random() < 0.3)


def search(prop, seed, budget, thorough):
    kinds = KINDS[prop] | {"hang"}
    return drive(cases(prop, seed, thorough), run_case(kinds), kinds, budget, seed)


def replay(prop, case):
    return run_case(KINDS[prop] | {"hang"})(case)
