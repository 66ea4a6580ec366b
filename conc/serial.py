"""C20: SerialServer runs against a model."""
from common import *

KINDS = {"missed", "wrongfunc", "release", "status", "states", "crash", "early", "extra", "hang"}


def run_case(case):
    import daisy
    from daisy.block import BlockStatus
    from daisy.dependency_graph import DependencyGraph
    from daisy.scheduler import Scheduler
    from daisy.serial_server import SerialServer

    rng = random.Random(case["seed"])
    cfgs = case["tasks"]
    w = World(cfgs)
    g0 = DependencyGraph(list(make_tasks(cfgs).values()))
    up, down = {}, {}
    for c in cfgs:
        tg = g0.task_dependency_graphs[c["name"]]
        for l in range(tg.num_levels):
            for b in tg.level_blocks(l):
                k = w.key(b)
                up[k] = {w.key(u) for u in g0.upstream(b)}
                down[k] = {w.key(u) for u in g0.downstream(b)}
    # fixed outcomes: number of failing attempts, or skipped
    nfail, skip, outcome = {}, set(), {}
    for k in up:
        nfail[k] = rng.choice([0] * 6 + [1, 2, 3]) if case["fails"] else 0
        if case["checks"].get(k[0]) and rng.random() < (1.0 if case["checks"][k[0]] == 2 else 0.5):
            skip.add(k)
    order = []
    seen = set()

    def topo(k):
        st = [(k, iter(up[k]))]
        seen.add(k)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(up[m])))
                    break
            else:
                st.pop()
                order.append(n)

    for k in up:
        if k not in seen:
            topo(k)
    exp_calls, final = {}, {}
    for k in order:
        ret = w.cfgs[k[0]]["retries"]
        if any(final[u] != "done" for u in up[k]):
            final[k] = "orphaned"
            exp_calls[k] = 0
        elif k in skip:
            final[k] = "done"
            exp_calls[k] = 0
        else:
            exp_calls[k] = min(nfail[k], ret) + 1
            final[k] = "done" if nfail[k] <= ret else "failed"
    calls = {k: 0 for k in up}
    log = []
    bad = []

    def proc(name):
        def f(block):
            k = w.key(block)
            log.append(("call", k))
            if block.task_id != name:
                bad.append(("wrongfunc", f"process function of {name} called with block of {block.task_id}"))
            if k not in calls:
                bad.append(("extra", f"unknown block {block!r} processed"))
                return
            if block.status == BlockStatus.FAILED or block.status == BlockStatus.SUCCESS:
                bad.append(("status", f"{k} passed to the process function with status {block.status}"))
            calls[k] += 1
            if case.get("stamps"):
                # user code may note times in the block
                block.started_processing = rng.choice([0.0, 1.5, None])
                block.stopped_processing = rng.choice([2.5, None])
            if calls[k] <= nfail[k]:
                block.status = BlockStatus.FAILED
            elif case["setok"]:
                block.status = rng.choice([BlockStatus.SUCCESS, block.status, BlockStatus.CREATED])

        return f

    def check(name):
        return (lambda b: w.key(b) in skip) if case["checks"].get(name) else None

    tasks = make_tasks(cfgs, process=proc, check=check)

    class Rec(Scheduler):
        def acquire_block(self, t):
            b = super().acquire_block(t)
            if b is not None:
                log.append(("acquire", w.key(b)))
            return b

        def release_block(self, b):
            if not (self.__dict__.get("_in")):
                log.append(("release", w.key(b), b.status.name))
            self._in = True
            try:
                return super().release_block(b)
            finally:
                self._in = False

    notes = []

    class Obs:
        def __getattr__(self, n):
            return lambda *a: notes.append((n, a[0] if a else None))

    try:
        s = SerialServer()
        s.register_observer(Obs())
        ts = list(tasks.values())
        if case["given"]:
            states = s.run_blockwise(ts, scheduler=Rec(ts))
        else:
            states = s.run_blockwise(ts)
    except (Viol, CaseTimeout):
        raise
    except Exception as e:
        raise Viol("crash", exc_text(e))
    if bad:
        raise Viol(*bad[0])
    for k in up:
        if calls[k] != exp_calls[k]:
            kind = "missed" if calls[k] < exp_calls[k] else "extra"
            raise Viol(kind, f"process function called {calls[k]} times for {k} (fails {nfail[k]} times, skip {k in skip}, final {final[k]}), expected {exp_calls[k]}")
    if set(states) != set(tasks):
        raise Viol("states", f"states returned for {sorted(states)}, tasks are {sorted(tasks)}")
    for t in tasks:
        st = states[t]
        for attr, val in (("completed_count", "done"), ("failed_count", "failed"), ("orphaned_count", "orphaned")):
            n = sum(1 for k in final if k[0] == t and final[k] == val)
            if getattr(st, attr) != n:
                raise Viol("states", f"{t}: {attr} {getattr(st, attr)} after the run, expected {n}")
    if case["given"]:
        # acquire, call, release strictly alternate
        i = 0
        seq = [e for e in log if not (e[0] == "release" and e[1] in skip)]
        att = {}
        while i < len(seq):
            grp = seq[i : i + 3]
            if [x[0] for x in grp] != ["acquire", "call", "release"] or len({x[1] for x in grp}) != 1:
                raise Viol("release", f"unexpected order of operations: {grp}")
            k = grp[0][1]
            att[k] = att.get(k, 0) + 1
            e = "FAILED" if att[k] <= nfail[k] else "SUCCESS"
            if grp[2][2] != e:
                raise Viol("release", f"{k} released as {grp[2][2]} in attempt {att[k]}, expected {e}")
            i += 3
    return len(up) > 1


def cases(seed, thorough):
    rng = random.Random(f"C20-{seed}")
    while True:
        tasks = rand_tasks(rng, ntasks=rng.choice([1, 2, 2, 3]))
        if not small_enough(tasks, 100 if thorough else 50):
            continue
        checks = {t["name"]: rng.choice([0, 1, 2]) for t in tasks} if rng.random() < 0.6 else {}
        yield dict(tasks=tasks, seed=rng.randrange(10**9), fails=rng.random() < 0.6, checks=checks, given=rng.random() < 0.5, setok=rng.random() < 0.5, stamps=rng.random() < 0.3)


def search(prop, seed, budget, thorough):
    return drive(cases(seed, thorough), run_case, KINDS, budget, seed)


def replay(prop, case):
    return run_case(case)
