"""C16: Client.acquire_block and the worker loop with a recording connection."""
import copy
from common import *

KINDS = {"client", "loop", "crash", "hang"}


class Fake:
    def __init__(self, script):
        self.script = list(script)
        self.sent = []
        self.disconnected = 0

    def send_message(self, m):
        blk = getattr(m, "block", None)
        self.sent.append((type(m).__name__, blk, blk.status.name if blk is not None else None, m))

    def get_message(self, timeout=None):
        if not self.script:
            raise Viol("client", "the client waits for another message")
        m = self.script.pop(0)
        if isinstance(m, BaseException):
            raise m
        return m

    def disconnect(self):
        self.disconnected += 1

    def connected(self):
        return not self.disconnected


def mk_client(script):
    import daisy
    from daisy.client import Client

    c = Client.__new__(Client)
    c.context = daisy.Context(hostname="h", port="1", worker_id="7", task_id="t")
    c.host, c.port, c.worker_id, c.task_id = "h", 1, 7, "t"
    c.tcp_client = Fake(script)
    return c


def mk_block(i=0, status=None):
    import daisy

    b = daisy.Block(daisy.Roi((0,), (100,)), daisy.Roi((i,), (1,)), daisy.Roi((i,), (1,)), task_id="t")
    if status:
        b.status = daisy.BlockStatus[status]
    return b


class Custom(Exception):
    pass


EXC = dict(ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt, SystemExit=SystemExit, StopIteration=StopIteration,
           GeneratorExit=GeneratorExit, Custom=Custom, AssertionError=AssertionError, RuntimeError=RuntimeError, BaseException=BaseException)


def one(case):
    from daisy.block import BlockStatus
    from daisy.messages import SendBlock, RequestShutdown, UnexpectedMessage
    from daisy.messages.message import Message
    from daisy.tcp import StreamClosedError

    first = case["first"]
    nones = [None] * case["nones"]
    b = mk_block(3, case["initial"])
    ident = b.block_id
    msg = dict(block=SendBlock(b), shutdown=RequestShutdown(), closed=StreamClosedError("h", 1), other=Message())[first]
    c = mk_client(nones + [msg])
    tcp = c.tcp_client
    seen = []
    escaped = None
    exc = EXC[case["exc"]]("x") if case["exc"] else None
    try:
        with c.acquire_block() as blk:
            seen.append(blk)
            if blk is not None:
                if blk.status != BlockStatus.PROCESSING:
                    raise Viol("client", f"block handed to user code with status {blk.status}")
                if case["set"]:
                    blk.status = BlockStatus[case["set"]]
            if [s for s in tcp.sent if s[0] != "AcquireBlock"]:
                seen.append("sent early")
            if exc:
                raise exc
    except Viol:
        raise
    except BaseException as e:
        escaped = e
    d = f"case {case}: seen {seen}, sent {[(s[0], s[2]) for s in tcp.sent]}, escaped {escaped!r}"
    sent = tcp.sent
    if not sent or sent[0][0] != "AcquireBlock" or sent[0][3].task_id != "t" or [s[0] for s in sent].count("AcquireBlock") != 1:
        raise Viol("client", "no proper request was sent: " + d)
    sent = sent[1:]
    early = any(isinstance(x, str) for x in seen)
    seen = [x for x in seen if not isinstance(x, str)]
    if early:
        raise Viol("client", "block returned before the user code finished: " + d)
    if first == "other":
        if not isinstance(escaped, UnexpectedMessage) or sent or seen:
            raise Viol("client", "unexpected message not rejected: " + d)
        return True
    if first in ("shutdown", "closed"):
        if seen != [None] or sent:
            raise Viol("client", "user code sees a block or something is returned: " + d)
        if first == "shutdown" and tcp.disconnected != 1:
            raise Viol("client", "client did not disconnect: " + d)
        if (escaped is not exc) and not (isinstance(exc, StopIteration) and isinstance(escaped, RuntimeError)):
            raise Viol("client", "unexpected exception: " + d)
        return True
    if seen != [b] or seen[0].block_id != ident:
        raise Viol("client", "user code did not see the block: " + d)
    rel = [s for s in sent if s[0] == "ReleaseBlock"]
    fail = [s for s in sent if s[0] == "BlockFailed"]
    if len(rel) != 1 or sent[-1][0] != "ReleaseBlock" or len(sent) != len(rel) + len(fail) or rel[0][1].block_id != ident:
        raise Viol("client", "block not returned exactly once, at the end: " + d)
    ok = exc is None and case["set"] in (None, "SUCCESS", "PROCESSING")
    if exc is not None and not isinstance(exc, Exception) and case["set"] == "SUCCESS":
        ok = None  # the user code declared success before the interrupt
    if ok is not None and rel[0][2] != ("SUCCESS" if ok else "FAILED"):
        raise Viol("client", f"block returned as {rel[0][2]}: " + d)
    if isinstance(exc, Exception):
        if len(fail) != 1 or fail[0][1].block_id != ident or fail[0][3].exception is not exc or fail[0][3].context is None or fail[0][3].context["worker_id"] != "7":
            raise Viol("client", "exception not reported with its block: " + d)
        if escaped is not None:
            raise Viol("client", "exception of user code escapes: " + d)
    else:
        if fail:
            raise Viol("client", "failure reported without an exception: " + d)
        if escaped is not exc:
            raise Viol("client", "interrupt swallowed or other exception raised: " + d)
    return True


def loop(case):
    """Task._process_blocks: every received block is processed once and returned, until shutdown"""
    import daisy
    import daisy.task as dt
    from daisy.block import BlockStatus
    from daisy.messages import SendBlock, RequestShutdown
    from daisy.tcp import StreamClosedError

    blocks = [mk_block(i) for i in range(len(case["plan"]))]
    script = []
    for b in blocks:
        script += [None] * case["nones"] + [SendBlock(b)]
    script.append(RequestShutdown() if case["end"] == "shutdown" else StreamClosedError("h", 1))
    c = mk_client(script)
    called = []

    def proc(block):
        i = blocks.index(block)
        called.append(i)
        p = case["plan"][i]
        if p == "raise":
            raise RuntimeError("x")
        if p == "fail":
            block.status = BlockStatus.FAILED

    t = make_tasks([rand_task(random.Random(1), "t", 1)], process=lambda n: proc)["t"]
    saved = getattr(dt, "Client", None)
    dt.Client = lambda *a, **k: c
    try:
        t.spawn_worker_function()
    except Viol:
        raise
    except BaseException as e:
        raise Viol("loop", f"worker loop left by {e!r} for {case}")
    finally:
        dt.Client = saved
    rel = [(s[1].block_id[1], s[2]) for s in c.tcp_client.sent if s[0] == "ReleaseBlock"]
    exp = [(b.block_id[1], "SUCCESS" if p == "ok" else "FAILED") for b, p in zip(blocks, case["plan"])]
    if called != list(range(len(blocks))) or rel != exp:
        raise Viol("loop", f"{case}: processed {called}, returned {rel}, expected {exp}")
    return True


def run_case(case):
    try:
        return one(case) if "first" in case else loop(case)
    except (Viol, CaseTimeout):
        raise
    except Exception as e:
        raise Viol("crash", exc_text(e))


def cases(seed, thorough):
    rng = random.Random(seed)
    al = []
    for first in ("block", "shutdown", "closed", "other"):
        for nones in (0, 2):
            for initial in ("CREATED", "FAILED", "SUCCESS", "PROCESSING"):
                for st in (None, "SUCCESS", "FAILED", "PROCESSING", "CREATED"):
                    for exc in [None] + list(EXC):
                        if first != "block" and (st or initial != "CREATED"):
                            continue
                        al.append(dict(first=first, nones=nones, initial=initial, set=st, exc=exc))
    yield from al
    for _ in range(60):
        yield dict(plan=[rng.choice(["ok", "ok", "fail", "raise"]) for _ in range(rng.randint(0, 5))], nones=rng.choice([0, 1]), end=rng.choice(["shutdown", "closed"]))


def search(prop, seed, budget, thorough):
    return drive(cases(seed, thorough), run_case, KINDS, budget, seed)


def replay(prop, case):
    return run_case(case)
