"""C13-C15: the real Server event loop, driven by a scripted transport."""
import contextlib, io, pickle, tempfile
from common import *

KINDS = {
    "C13": {"release", "lost", "late", "bookkeeping", "crash", "unit-bookkeeper"},
    "C14": {"answer", "shutdown", "dropped", "starved", "unexpected", "release", "crash", "stuck"},
    "C15": {"stop-early", "stop-late", "announce", "cleanup", "report", "crash", "stuck"},
}


class Stop(Exception):
    pass


class Stream:
    n = 0

    def __init__(self, log):
        Stream.n += 1
        self.name = f"s{Stream.n}"
        self.is_closed = False
        self.log = log
        self.address = ("127.0.0.1", 40000 + Stream.n % 20000)

    def closed(self):
        return self.is_closed

    def close(self):
        self.is_closed = True

    def send_message(self, m):
        from daisy.tcp.exceptions import StreamClosedError

        self.log.append(("send", self, m))
        if self.is_closed:
            raise StreamClosedError("x", 0)

    def __repr__(self):
        return self.name


class W:
    def __init__(self, task, stream, wid):
        self.task, self.stream, self.wid = task, stream, wid
        self.state = "idle"  # idle, waiting, holding, gone
        self.block = None
        self.outbox = []


class Sim:
    def __init__(self, case, kinds):
        import daisy
        import daisy.server as srv
        from daisy.scheduler import Scheduler

        self.case, self.kinds = case, kinds
        self.rng = random.Random(case["seed"])
        self.tasks = make_tasks(case["tasks"])
        self.tl = list(self.tasks.values())
        if case["rev"]:
            self.tl.reverse()
        self.log = []
        self.noted = []
        sim = self

        class Rec(Scheduler):
            depth = 0

            def acquire_block(self, t):
                self.depth += 1
                try:
                    b = super().acquire_block(t)
                finally:
                    self.depth -= 1
                sim.log.append(("acq", t, b))
                return b

            def release_block(self, b):
                if self.depth == 0:
                    sim.log.append(("rel", b.block_id, b.status.name))
                return super().release_block(b)

        self.sched = Rec(self.tl)

        class Pools:
            def __init__(self, tasks, server, *a, **k):
                pass

            def recruit_workers(self, tasks):
                sim.log.append(("recruit", tuple(tasks)))

            def stop(self):
                sim.log.append(("pools.stop",))

            def check_worker_health(self):
                if sim.case["inject"] == "health" and sim.rng.random() < 0.02:
                    raise Stop("worker error")

        class TCP:
            def __init__(self, *a, **k):
                self.address = ("127.0.0.1", 1)

            def get_message(self, timeout=None):
                return sim.next_message()

            def disconnect(self):
                sim.log.append(("tcp.disconnect",))

        self.clock = 0.0

        def now():
            sim.clock += 0.3
            return sim.clock

        saved = {}
        for n, v in (("TCPServer", TCP), ("TaskWorkerPools", Pools), ("time", now)):
            if hasattr(srv, n):
                saved[n] = getattr(srv, n)
                setattr(srv, n, v)
        self.saved = saved
        self.srv = srv

        class Obs:
            def on_task_start(self, t, s):
                sim.log.append(("start", t))

            def on_task_done(self, t, s):
                sim.log.append(("done", t, s.completed_count + s.failed_count + s.orphaned_count == s.total_block_count))

            def on_server_exit(self):
                sim.log.append(("exit",))

            def on_acquire_block(self, *a):
                pass

            on_release_block = on_acquire_block

            def on_block_failure(self, *a):
                sim.log.append(("blockfailure", a[0].block_id))

        import threading

        self.stop_event = threading.Event()
        self.server = srv.Server(stop_event=self.stop_event)
        self.server.register_observer(Obs())
        self.workers = []
        self.out = {}  # block id -> worker
        self.history = []  # old returns
        self.delayed = []
        self.pos = 0
        self.current = None
        self.idle = 0
        self.calls = 0
        self.donecalls = 0
        self.ended = None
        self.pending_stop = False
        self.interrupted = False
        for t in self.tl:
            for _ in range(case["workers"]):
                self.new_worker(t.task_id)

    def new_worker(self, task):
        w = W(task, Stream(self.log), len(self.workers))
        self.workers.append(w)
        return w

    def flag(self, kind, msg):
        if kind in self.kinds:
            raise Viol(kind, msg)
        self.noted.append((kind, msg))

    def all_done(self):
        return all(s.is_done() for s in self.sched.task_states.values())

    def by_stream(self, s):
        return next(w for w in self.workers if w.stream is s)

    # ---- evaluate what the server did with the last message
    def evaluate(self):
        from daisy.messages import SendBlock, RequestShutdown

        ev = self.log[self.pos :]
        self.pos = len(self.log)
        cur, self.current = self.current, None
        exp_rel = []
        if cur and cur[0] == "return":
            _, w, bid, status = cur
            if self.out.get(bid) is w:
                exp_rel.append((bid, status))
                del self.out[bid]
        acq = [(e[1], e[2]) for e in ev if e[0] == "acq"]
        sends = [(self.by_stream(e[1]), e[2]) for e in ev if e[0] == "send"]
        requester = cur[1] if cur and cur[0] == "request" else None
        may = ([requester] if requester else []) + (self.delayed if not cur else [])
        answered = []
        for w, m in sends:
            if w not in may or w in answered:
                self.flag("answer", f"message {type(m).__name__} sent to {w.stream} (task {w.task}) that had no open request")
                continue
            answered.append(w)
            if isinstance(m, SendBlock):
                ids = [b.block_id for t, b in acq if b is not None and t == w.task]
                if m.block.block_id not in ids or m.block.task_id != w.task:
                    self.flag("answer", f"request for {w.task} answered with {m.block.block_id}, the scheduler handed out {ids}")
                if m.block.block_id in self.out:
                    self.flag("answer", f"{m.block.block_id} sent to {w.stream} while {self.out[m.block.block_id].stream} holds it")
                self.out[m.block.block_id] = w
                w.state, w.block = "holding", pickle.loads(pickle.dumps(m.block))
            elif isinstance(m, RequestShutdown):
                st = self.sched.task_states[w.task]
                if st.ready_count != 0 or st.pending_count != 0:
                    self.flag("shutdown", f"worker of {w.task} asked to shut down with {st.ready_count} ready and {st.pending_count} pending blocks")
                w.state = "gone"
            else:
                self.flag("answer", f"request answered with {type(m).__name__}")
        got = [b for t, b in acq if b is not None]
        if len(got) != sum(1 for w, m in sends if isinstance(m, SendBlock)):
            self.flag("dropped", f"{len(got)} blocks were handed out, {len(sends)} messages sent")
            for b in got:
                if b.block_id not in self.out:
                    self.flag("bookkeeping", f"block {b.block_id} handed out by the scheduler but sent to nobody")
        for w in answered:
            if w in self.delayed:
                self.delayed.remove(w)
        if requester and requester not in answered:
            if not acq:
                self.flag("dropped", f"request for {requester.task} was not passed on")
            self.delayed.append(requester)
        for bid, w in list(self.out.items()):
            if w.stream.is_closed and (w in answered or self.out[bid].stream.is_closed):
                exp_rel.append((bid, "FAILED"))
                del self.out[bid]
        rel = [(e[1], e[2]) for e in ev if e[0] == "rel"]
        if sorted(map(str, rel)) != sorted(map(str, exp_rel)):
            miss = [r for r in exp_rel if r not in rel]
            extra = [r for r in rel if r not in exp_rel]
            kind = "release" if (cur and cur[0] == "return" and not any(m[1] == "FAILED" and m not in extra for m in miss[1:])) else "lost"
            if extra and not miss:
                kind = "late"
            self.flag(kind, f"after {self.describe(cur)}: scheduler got {rel}, expected {exp_rel}")
            for k in {"lost", "late", "release"} - {kind}:
                if kind != "late" or k != "lost":
                    self.flag("release" if k == "release" and exp_rel else kind, f"after {self.describe(cur)}: scheduler got {rel}, expected {exp_rel}")
        # does the server know the holders?
        bk = getattr(self.server, "block_bookkeeper", None)
        if bk is not None and hasattr(bk, "is_valid_return"):
            for bid, w in self.out.items():
                if w.block is not None and w.block.block_id == bid and not bk.is_valid_return(w.block, w.stream):
                    self.flag("bookkeeping", f"{bid} is held by {w.stream}, but the server does not expect it from there")
                for v in self.workers[:4]:
                    if v is not w and w.block is not None and w.block.block_id == bid and bk.is_valid_return(w.block, v.stream):
                        self.flag("bookkeeping", f"{bid} is held by {w.stream}, but the server would accept it from {v.stream}")
            for w, m in self.history[-5:]:
                b = m.block
                if self.out.get(b.block_id) is not w and bk.is_valid_return(b, w.stream):
                    self.flag("bookkeeping", f"{b.block_id} would be accepted from {w.stream}, which does not hold it")
        for e in ev:
            if e[0] == "done" and not e[2]:
                self.flag("announce", f"task {e[1]} announced as done while it is not")
        for what in ("start", "done"):
            ts = [e[1] for e in self.log if e[0] == what]
            if len(ts) != len(set(ts)):
                self.flag("announce", f"a task was announced as {what} more than once: {ts}")

    def describe(self, cur):
        if not cur:
            return "an idle step"
        return f"{cur[0]} {cur[2:]} from {cur[1].stream}" if len(cur) > 1 else cur[0]

    # ---- produce the next event
    def next_message(self):
        from daisy.messages import AcquireBlock, ReleaseBlock, BlockFailed, ClientException
        from daisy.messages.message import Message
        from daisy.block import BlockStatus
        from daisy.tcp.exceptions import StreamClosedError

        self.evaluate()
        self.calls += 1
        rng = self.rng
        if self.calls > 4000:
            raise Stop("endless")
        if self.all_done():
            self.donecalls += 1
            if self.donecalls > 12:
                self.flag("stop-late", "all tasks are done but the server does not stop")
                raise Stop("late")
        if self.pending_stop:
            self.flag("stop-late", "the stop request was ignored")
            raise Stop("late")
        if self.case["inject"] == "stop" and rng.random() < 0.02:
            self.pending_stop = True
            self.stop_event.set()
            return None
        if self.case["inject"] == "interrupt" and not self.interrupted and rng.random() < 0.05:
            self.interrupted = True
            raise KeyboardInterrupt()
        if self.case["inject"] == "error" and rng.random() < 0.02:
            raise Stop("tcp error")
        if self.case["inject"] == "unknown" and rng.random() < 0.02:
            self.ended = "unknown"
            m = Message()
            m.stream = self.workers[0].stream
            return m
        if self.case["inject"] == "clientexc" and rng.random() < 0.02:
            self.ended = "clientexc"
            m = ClientException(Stop("client"), dict(worker_id=0, task_id=self.tl[0].task_id))
            m.stream = self.workers[0].stream
            return m
        ops = ["none"]
        act = [w for w in self.workers if w.state in ("idle", "holding") or w.outbox]
        if act:
            ops += ["act"] * 8
        if self.history and self.case["late"]:
            ops += ["late"]
        if self.out and len(self.workers) > 1 and self.case["late"]:
            ops += ["foreign"]
        if self.case["close"] and rng.random() < 0.2:
            ops += ["close"]
        op = rng.choice(ops)
        if self.idle:
            op = "none"
        if op == "none":
            act = [w for w in self.workers if w.state in ("idle", "holding") or w.outbox]
            if not act and not self.all_done():
                # only delayed requests: the server has to serve them, or we start new workers
                self.idle += 1
                waiting = [w for w in self.delayed if self.sched.task_states[w.task].ready_count > 0 or self.sched.task_states[w.task].pending_count == 0]
                if self.idle > 3 * len(self.delayed) + 6:
                    if waiting:
                        self.flag("starved", f"request for {waiting[0].task} is not answered although {self.sched.task_states[waiting[0].task].ready_count} blocks are ready")
                    self.idle = 0
                    ready = self.sched.get_ready_tasks()
                    if ready:
                        self.new_worker(rng.choice(ready).task_id)
                    else:
                        self.flag("stuck", "no block is ready, but the tasks are not done")
                        raise Stop("stuck")
            if rng.random() < 0.1:
                raise StreamClosedError("x", 0)
            return None
        self.idle = 0
        if op == "close":
            w = rng.choice([w for w in self.workers if w.state != "gone"] or self.workers)
            w.stream.is_closed = True
            if w.state != "gone":
                if w.state != "waiting" or rng.random() < 0.7:
                    # messages already sent may still arrive
                    if rng.random() < 0.5:
                        w.outbox = []
                    w.state = "gone"
                    self.new_worker(w.task)
            if rng.random() < 0.5:
                raise StreamClosedError("x", 0)
            return None
        if op == "late":
            w, m = rng.choice(self.history)
            self.current = ("return", w, m.block.block_id, m.block.status.name)
            return self.deliver(pickle.loads(pickle.dumps(m)), w)
        if op == "foreign":
            bid, holder = rng.choice(sorted(self.out.items(), key=lambda x: str(x[0])))
            others = [v for v in self.workers if v is not holder]
            if holder.block is None or not others:
                return None
            w = rng.choice(others)
            b = holder.block.copy()
            b.status = rng.choice([BlockStatus.SUCCESS, BlockStatus.FAILED])
            self.current = ("return", w, bid, b.status.name)
            return self.deliver(ReleaseBlock(b), w)
        w = rng.choice(act)
        if w.outbox:
            m = w.outbox.pop(0)
            if not w.outbox and w.state == "returned":
                w.state = "idle"
        elif w.state == "idle":
            w.state = "waiting"
            self.current = ("request", w)
            return self.deliver(AcquireBlock(w.task), w)
        else:
            b = w.block
            r = rng.random()
            if r < self.case["pfail"] / 2:
                b.status = BlockStatus.FAILED
                w.outbox = [ReleaseBlock(b)]
                m = BlockFailed(RuntimeError("x"), b, dict(worker_id=str(w.wid), task_id=w.task))
                w.state = "returned"
            else:
                b.status = BlockStatus.FAILED if r < self.case["pfail"] else BlockStatus.SUCCESS
                m = ReleaseBlock(b)
                w.state = "idle"
        self.history.append((w, pickle.loads(pickle.dumps(m))))
        self.current = ("return", w, m.block.block_id, m.block.status.name)
        if isinstance(m, BlockFailed):
            self.current = ("return", w, m.block.block_id, "FAILED")
            if self.case["bfstatus"]:
                m.block = m.block.copy()
                m.block.status = BlockStatus.PROCESSING
        return self.deliver(m, w)

    def deliver(self, m, w):
        m = pickle.loads(pickle.dumps(m))
        m.stream = w.stream
        return m

    def run(self):
        from daisy.messages import UnexpectedMessage

        err = None
        try:
            try:
                states = self.server.run_blockwise(self.tl, scheduler=self.sched)
            finally:
                for n, v in self.saved.items():
                    setattr(self.srv, n, v)
        except (Viol, CaseTimeout):
            raise
        except Stop as e:
            err = e
        except KeyboardInterrupt as e:
            if not self.interrupted:
                raise
            err = e
        except UnexpectedMessage as e:
            if self.ended != "unknown":
                raise Viol("crash", exc_text(e))
            err = e
        except Exception as e:
            raise Viol("crash", exc_text(e))
        ev = [e[0] for e in self.log]
        for need in ("pools.stop", "tcp.disconnect", "exit"):
            if ev.count(need) != 1:
                self.flag("cleanup", f"{need} happened {ev.count(need)} times on exit (error: {err!r})")
        if self.ended and err is None:
            self.flag("unexpected", f"the server ignored a message of kind {self.ended}")
        if err is None:
            if not self.all_done() and not self.pending_stop and not self.interrupted:
                self.flag("stop-early", f"the server stopped with unfinished tasks: {[(t, s.pending_count, s.ready_count, s.processing_count) for t, s in self.sched.task_states.items()]}")
            if states is not self.sched.task_states and dict(states) != dict(self.sched.task_states):
                self.flag("report", "run_blockwise does not return the task states")
        elif str(err) == "stuck":
            pass
        return len(self.log) > 10


def bookkeeper_case(case):
    """random operations on BlockBookkeeper against a map"""
    import daisy.block_bookkeeper as bb
    import daisy

    rng = random.Random(case["seed"])
    clock = [0.0]

    class T:
        @staticmethod
        def time():
            clock[0] += 0.01
            return clock[0]

    saved = bb.time
    bb.time = T if not callable(saved) else T.time
    try:
        to = case["timeout"]
        k = bb.BlockBookkeeper(to) if to is not None else bb.BlockBookkeeper()
        roi = daisy.Roi((0,), (100,))
        blocks = [daisy.Block(roi, daisy.Roi((i,), (1,)), daisy.Roi((i,), (1,)), task_id=f"t{i % 2}") for i in range(6)]
        log = []
        streams = [Stream(log) for _ in range(4)]
        model = {}
        for step in range(60):
            op = rng.choice(["send", "send", "valid", "ret", "lost", "close", "wait"])
            b, s = rng.choice(blocks), rng.choice(streams)
            try:
                if op == "send":
                    if b.block_id not in model:
                        k.notify_block_sent(b, s)
                        model[b.block_id] = (s, clock[0])
                elif op == "valid":
                    exp = b.block_id in model and model[b.block_id][0] is s
                    got = k.is_valid_return(b.copy(), s)
                    if bool(got) != exp:
                        raise Viol("unit-bookkeeper", f"is_valid_return of block {b.block_id} from {s}: {got}, sent to {model.get(b.block_id)}")
                elif op == "ret":
                    c = b.copy()
                    if b.block_id in model and model[b.block_id][0] is s:
                        k.notify_block_returned(c, s)
                        if c.started_processing is None or c.stopped_processing is None or c.stopped_processing < c.started_processing:
                            raise Viol("unit-bookkeeper", "returned block has no processing times")
                        del model[b.block_id]
                    else:
                        try:
                            k.notify_block_returned(c, s)
                        except Exception:
                            pass
                        else:
                            raise Viol("unit-bookkeeper", f"return of block {b.block_id} from {s} accepted, sent to {model.get(b.block_id)}")
                elif op == "close":
                    if rng.random() < 0.3:
                        s.is_closed = True
                        streams[streams.index(s)] = Stream(log)
                elif op == "wait":
                    clock[0] += 5
                else:
                    now = clock[0]
                    got = [x.block_id for x in k.get_lost_blocks()]
                    exp = [i for i, (st, t) in model.items() if st.is_closed or (to is not None and now - t > to)]
                    if sorted(map(str, got)) != sorted(map(str, exp)):
                        raise Viol("unit-bookkeeper", f"lost blocks {got}, expected {exp}")
                    for i in got:
                        del model[i]
            except (Viol, CaseTimeout):
                raise
            except Exception as e:
                raise Viol("unit-bookkeeper", f"{op}: {exc_text(e)}")
    finally:
        bb.time = saved
    return True


def report_case(case):
    """convenience._run_blockwise reports success iff everything completed"""
    import daisy.convenience as cv
    from daisy.task_state import TaskState

    states = {}
    for i, (tot, comp, fail, orph) in enumerate(case["states"]):
        s = TaskState()
        s.total_block_count, s.completed_count, s.failed_count, s.orphaned_count = tot, comp, fail, orph
        states[f"t{i}"] = s
    given = []

    class Srv:
        def __init__(self, stop_event=None, host=None):
            self.observers = []

        def register_observer(self, o):
            pass

        def run_blockwise(self, tasks, scheduler=None):
            given.append(tasks)
            return states

    saved = {n: getattr(cv, n) for n in ("Server", "CLMonitor") if hasattr(cv, n)}
    try:
        cv.Server = Srv
        cv.CLMonitor = lambda s: None
        try:
            got = cv.run_blockwise([make_tasks([rand_task(random.Random(1), "x", 1)])["x"]])
        except Exception as e:
            raise Viol("report", exc_text(e))
    finally:
        for n, v in saved.items():
            setattr(cv, n, v)
    exp = all(t == c for t, c, _, _ in case["states"])
    if got is not exp:
        raise Viol("report", f"task states (total, completed, failed, orphaned) {case['states']} reported as {got}")
    return True


def real_case(case):
    """a real multi-process run in a scratch directory"""
    import daisy

    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            def proc(n):
                def f(block):
                    if n == case["bad"] and block.write_roi.begin[0] % 20 == 0:
                        if case["how"] == "raise":
                            raise RuntimeError("bad")
                        block.status = daisy.BlockStatus.FAILED
                    elif case.get("slow") == n:
                        time.sleep(0.4)

                return f

            def mk(n, ups):
                return daisy.Task(n, daisy.Roi((0,), (20 if case.get("slow") else 40,)), daisy.Roi((0,), (10,)), daisy.Roi((0,), (10,)), process_function=proc(n),
                                  read_write_conflict=False, max_retries=case["retries"], num_workers=case.get("workers", 1), upstream_tasks=ups)

            a = mk("a", [])
            b = mk("b", [a])
            c = mk("c", [b])
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                got = daisy.run_blockwise([c] if case["leaf"] else [a, b, c])
            exp = case["bad"] is None
            if got is not exp:
                raise Viol("report", f"run with failing task {case['bad']} reported {got}")
        except (Viol, CaseTimeout):
            raise
        except Exception as e:
            raise Viol("crash", exc_text(e))
        finally:
            os.chdir(cwd)
    return True


def run_case(kinds):
    def f(case):
        k = case["type"]
        if k == "sim":
            try:
                sim = Sim(case, kinds)
            except (Viol, CaseTimeout):
                raise
            except Exception as e:
                raise Viol("crash", exc_text(e))
            return sim.run()
        if k == "book":
            return bookkeeper_case(case)
        if k == "report":
            return report_case(case)
        if k == "real":
            return real_case(case)

    return f


def cases(prop, seed, thorough):
    rng = random.Random(f"{prop}-{seed}")
    if prop == "C15":
        for st in ([(2, 2, 0, 0)], [(2, 1, 1, 0)], [(2, 1, 0, 1)], [(2, 2, 0, 0), (3, 1, 1, 1)], [(3, 1, 1, 1), (2, 2, 0, 0)], [(0, 0, 0, 0)], [(2, 0, 0, 0)], [(4, 4, 0, 0), (4, 4, 0, 0)], [(2, 0, 2, 0)], [(2, 2, 0, 0), (2, 0, 0, 2)]):
            yield dict(type="report", states=st)
    if prop in ("C14", "C15"):
        reals = [dict(bad=None, how="raise", retries=0, leaf=True, slow="a"), dict(bad="b", how="raise", retries=0, leaf=True)]
        if thorough:
            reals += [dict(bad="a", how="status", retries=1, leaf=False), dict(bad="c", how="raise", retries=1, leaf=True, workers=2), dict(bad=None, how="status", retries=0, leaf=False)]
        for r in reals:
            yield dict(type="real", **r)
    while True:
        if prop == "C13" and rng.random() < 0.4:
            yield dict(type="book", seed=rng.randrange(10**9), timeout=rng.choice([None, None, 1, 8]))
            continue
        tasks = rand_tasks(rng, ntasks=rng.choice([1, 2, 3]), dims=1, maxT=7)
        if not small_enough(tasks, 24):
            continue
        inj = rng.choice([None, None, None, None, "stop", "error", "health", "unknown", "clientexc", "interrupt"]) if prop != "C13" else None
        yield dict(type="sim", tasks=tasks, seed=rng.randrange(10**9), workers=rng.choice([1, 1, 2, 3]), pfail=rng.choice([0, 0.2, 0.5]),
                   close=rng.random() < 0.5, late=rng.random() < 0.5, inject=inj, rev=rng.random() < 0.5, bfstatus=rng.random() < 0.3)


def search(prop, seed, budget, thorough):
    kinds = KINDS[prop] | {"hang"}
    return drive(cases(prop, seed, thorough), run_case(kinds), kinds, budget, seed, limit=20)


def replay(prop, case):
    return run_case(KINDS[prop] | {"hang"})(case)
