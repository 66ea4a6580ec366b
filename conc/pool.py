"""C19: worker pools with recorded processes."""
import multiprocessing as real_mp, queue
from common import *

KINDS = {"pool", "ids", "hang"}


class Proc:
    pids = 1000

    def __init__(self, target=None, **k):
        Proc.pids += 1
        self.pid = Proc.pids
        self.target = target
        self.started = 0
        self.terminated = 0
        self.joined = 0
        self.alive = False
        self.exitcode = None

    def start(self):
        self.started += 1
        self.alive = True

    def is_alive(self):
        return self.alive

    def terminate(self):
        self.terminated += 1
        self.alive = False
        if self.exitcode is None:
            self.exitcode = -15

    kill = terminate

    def join(self, timeout=None):
        self.joined += 1

    def close(self):
        pass

    def die(self, code):
        self.alive = False
        self.exitcode = code


class MP:
    Process = Proc

    @staticmethod
    def Queue(n=0):
        return queue.Queue(n)

    def __getattr__(self, n):
        return getattr(real_mp, n)


class Model:
    """ordered workers: id -> [process, state]; state: alive, dead, exited (not yet reaped), normal"""

    def __init__(self, pool):
        self.pool = pool
        self.w = {}
        self.lastid = -1

    def sync_new(self, n, what):
        """n new workers must have appeared at the end"""
        ids = list(self.pool.workers.keys())
        old = list(self.w)
        if ids[: len(old)] != old or len(ids) != len(old) + n:
            raise Viol("pool", f"{what}: workers {ids}, expected {old} and {n} new ones")
        for i in ids[len(old) :]:
            wk = self.pool.workers[i]
            p = wk.process
            if wk.worker_id != i:
                raise Viol("pool", f"{what}: worker {wk.worker_id} registered as {i}")
            if p is None or p.started != 1 or not p.alive:
                raise Viol("pool", f"{what}: new worker {i} is not running")
            self.w[i] = [p, "alive", wk]

    def check(self, what):
        ids = list(self.pool.workers.keys())
        if ids != list(self.w):
            raise Viol("pool", f"{what}: workers {ids}, expected {list(self.w)}")
        for i, (p, st, wk) in self.w.items():
            if self.pool.workers[i] is not wk:
                raise Viol("pool", f"{what}: worker {i} was exchanged")
            if st == "alive" and (wk.process is not p or p.terminated or p.started != 1):
                raise Viol("pool", f"{what}: living worker {i} was touched (terminated {p.terminated}, started {p.started})")
            if st in ("normal", "exited") and wk.process is not None and wk.process is not p:
                raise Viol("pool", f"{what}: worker {i}, which finished normally, was restarted")

    def remove(self, ids, what):
        for i in ids:
            p, st, wk = self.w.pop(i)
            if st == "alive" and (p.alive or not p.terminated or not p.joined):
                raise Viol("pool", f"{what}: worker {i} was removed but not stopped (terminated {p.terminated}, joined {p.joined})")


def run_case(case):
    import daisy
    import daisy.worker as dw, daisy.worker_pool as dp, daisy.task_worker_pools as tp

    rng = random.Random(case["seed"])
    saved = (dw.multiprocessing, dp.multiprocessing)
    dw.multiprocessing = dp.multiprocessing = MP()
    allids = []
    try:
        class Server:
            hostname, port = "h", 1

            def __init__(self):
                self.observers = []

            def register_observer(self, o):
                self.observers.append(o)

        class T:
            def __init__(self, t, n):
                self.task_id, self.num_workers = t, n
                self.spawn_worker_function = int

        tasks = {t: T(t, rng.randint(1, 3)) for t in ["a", "b"][: case["ntasks"]]}
        mf = case["maxfail"]
        tw = tp.TaskWorkerPools(list(tasks.values()), Server(), max_block_failures=mf) if mf is not None else tp.TaskWorkerPools(list(tasks.values()), Server())
        mf = 3 if mf is None else mf
        pools = {t: tw.worker_pools[t] for t in tasks}
        models = {t: Model(p) for t, p in pools.items()}
        fails = {}
        for _ in range(case["steps"]):
            t = rng.choice(sorted(tasks))
            m, p = models[t], pools[t]
            op = rng.choice(["set", "inc", "stop1", "stopall", "die", "die", "die", "health", "health", "recruit", "fail", "fail", "fail", "fail", "stoptw"] if case["steps"] > 5 else ["set", "die", "reap", "inc", "stop1"])
            what = op
            try:
                if op == "set":
                    n = rng.randint(0, 5)
                    what = f"set_num_workers({n}) with {len(m.w)} workers"
                    p.set_num_workers(n)
                    d = n - len(m.w)
                    if d < 0:
                        m.remove(list(m.w)[d:], what)
                    else:
                        m.sync_new(d, what)
                elif op == "inc":
                    n = rng.randint(0, 2)
                    p.inc_num_workers(n)
                    m.sync_new(n, f"inc_num_workers({n})")
                elif op == "stop1":
                    i = rng.choice(list(m.w) + [10**6])
                    p.stop(i)
                    if i in m.w:
                        m.remove([i], f"stop({i})")
                elif op == "stopall":
                    if rng.random() < 0.3:
                        p.stop()
                        m.remove(list(m.w), "stop()")
                elif op == "stoptw":
                    if rng.random() < 0.2:
                        tw.stop()
                        for mm in models.values():
                            mm.remove(list(mm.w), "TaskWorkerPools.stop()")
                elif op == "die":
                    al = [i for i, x in m.w.items() if x[1] == "alive"]
                    if al:
                        i = rng.choice(al)
                        code = rng.choice([0, 0, 1, -9, 3])
                        m.w[i][0].die(code)
                        m.w[i][1] = "exited" if code == 0 else "dead"
                elif op in ("health", "reap"):
                    dead = {u: [i for i, x in mm.w.items() if x[1] == "dead"] for u, mm in models.items()}
                    if op == "health":
                        tw.check_worker_health()
                    else:
                        n = p.reap_dead_workers()
                        if n != len(dead[t]):
                            raise Viol("pool", f"reap_dead_workers() returned {n}, {len(dead[t])} workers died")
                    for u, mm in models.items():
                        if op == "reap" and u != t:
                            continue
                        for i in dead[u]:
                            mm.w.pop(i)
                        if op == "health":
                            mm.sync_new(len(dead[u]), f"check_worker_health() with {len(dead[u])} dead workers")
                        for x in mm.w.values():
                            if x[1] == "exited":
                                x[1] = "normal"
                elif op == "recruit":
                    rt = {u: x for u, x in tasks.items() if rng.random() < 0.6}
                    tw.recruit_workers(rt)
                    for u in rt:
                        mm, n = models[u], tasks[u].num_workers
                        d = n - len(mm.w)
                        if d < 0:
                            mm.remove(list(mm.w)[d:], "recruit_workers")
                        else:
                            mm.sync_new(d, "recruit_workers")
                elif op == "fail":
                    wid = rng.choice(list(m.w)[:2] + [10**6])
                    c = daisy.Context(task_id=t)
                    c["worker_id"] = wid
                    tw.on_block_failure(None, RuntimeError("x"), c)
                    k = (t, wid)
                    fails[k] = fails.get(k, 0) + 1
                    if fails[k] > mf:
                        fails[k] = 0
                        if wid in m.w:
                            m.remove([wid], f"worker {wid} failed more than {mf} times")
                            m.sync_new(1, f"worker {wid} failed more than {mf} times")
                what = f"{what} on pool {t}"
                top = max(allids, default=-1)
                for u, mm in models.items():
                    mm.check(what)
                    for i in mm.w:
                        if i not in allids:
                            if i <= top:
                                raise Viol("ids", f"worker ID {i} is reused (seen {allids[-5:]})")
                            allids.append(i)
                s = [i for mm in models.values() for i in mm.w]
                if len(s) != len(set(s)):
                    raise Viol("ids", f"worker IDs {s} are not unique")
            except (Viol, CaseTimeout):
                raise
            except Exception as e:
                raise Viol("pool", f"{what}: {exc_text(e)}")
    except (Viol, CaseTimeout):
        raise
    except Exception as e:
        raise Viol("pool", exc_text(e))
    finally:
        dw.multiprocessing, dp.multiprocessing = saved
    return bool(allids)


def cases(seed, thorough):
    rng = random.Random(f"C19-{seed}")
    while True:
        yield dict(seed=rng.randrange(10**9), ntasks=rng.choice([1, 2]), steps=rng.choice([4, 12, 30]), maxfail=rng.choice([None, 0, 1, 2]))


def search(prop, seed, budget, thorough):
    return drive(cases(seed, thorough), run_case, KINDS, budget, seed, max_cases=None if thorough else 3000)


def replay(prop, case):
    return run_case(case)
