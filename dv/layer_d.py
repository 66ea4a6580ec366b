"""Client and connections: contracts of Client.acquire_block, TCPStream, TCPClient and TCPServer.

The real methods run with their collaborators replaced by contracts that may do everything their documentation allows;
all choices are explored. Byte strings are symbolic (atoms of symbolic length), so framing is proved for all messages.
Loops that wait end when the state repeats; the loops that receive messages are verified by one generic iteration.
"""
import contextlib
from .harness import *
from . import fol
from .rt import truth, DV

DVawait = DV.await_

install()
Int = z3.IntSort()


class Trace:
    def __init__(self):
        self.ev = []

    def note(self, *e):
        self.ev.append(e)
        E.effect("trace", None, None, lambda: self.ev.pop())

    def of(self, *kinds):
        return [e for e in self.ev if e[0] in kinds]

    def clear(self):
        self.ev = []


T = Trace()


def ensure(name, cond, why=""):
    """an obligation that is decided by evaluation on this path"""
    if isinstance(cond, SymBool):
        return E.prove(name, cond)
    if cond:
        E.ok(name)
        return True
    E.fail(name, f"{why} events: {[show(e) for e in T.ev]}")
    return False


def show(e):
    return tuple(x if isinstance(x, (str, int, bool, type(None))) else type(x).__name__ if not isinstance(
        x, BaseException) else repr(x) for x in e)


def waiting(test, body, names, get, set_, where):
    """loops that wait: an iteration that changes nothing leads to the same state again"""
    for _ in range(12):
        if not truth(test()):
            return None
        before, n = get(), len(E.journal)
        r = body()
        if r is not None:
            return r
        after = get()
        same = len(before) == len(after) and all(a is b for a, b in zip(before, after))
        if same and not any(e.kind not in ("cache",) for e in E.journal[n:]):
            raise Infeasible()  # same state: whatever follows is covered by the first visit
    raise Unsupported(f"while loop that does not repeat its state ({where})")


def enable():
    E.fol_while = waiting
    E.while_rules = {}


@contextlib.contextmanager
def patched(mod, **kw):
    old = {k: mod.__dict__.get(k) for k in kw}
    missing = [k for k in kw if k not in mod.__dict__]
    if missing:
        raise Unsupported(f"{mod.__name__} does not use {missing}")
    mod.__dict__.update(kw)
    try:
        yield
    finally:
        mod.__dict__.update(old)


# ------------------------------------------------------------------------ client
class Blk:
    def __init__(self, nm):
        self.__dict__.update(block_id=("task", nm), task_id="task", status=None, read_roi=None, write_roi=None)

    def __eq__(self, o):
        return isinstance(o, Blk) and o.block_id == self.block_id

    __hash__ = None

    def __repr__(self):
        return "block"


class Ctx:
    d = dict(logdir=None, hostname="host", port="7", worker_id="5", task_id="task")

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, v=None):
        return self.d.get(k, v)


def client(prop):
    enable()
    import daisy.client as cm
    from daisy.messages import AcquireBlock, BlockFailed, ReleaseBlock, RequestShutdown, SendBlock, UnexpectedMessage, Message
    from daisy.block import BlockStatus as BS
    from daisy.tcp.exceptions import StreamClosedError, NotConnected

    nm = f"{prop}/acquire_block"

    def path():
        T.clear()
        blk = Blk(3)
        blk.__dict__["status"] = (BS.CREATED, BS.FAILED, BS.SUCCESS)[E.choose(3, "status on arrival")]
        alive = E.choose(2, "connection stays open") == 0
        st = dict(seen=[], msgs=0)

        class Conn:
            def __init__(s, host, port):
                T.note("connect", host, port)

            def send_message(s, m):
                if not alive and T.of("send") and E.choose(2, "send fails"):
                    T.note("send failed")
                    raise NotConnected()
                b = getattr(m, "block", None)
                T.note("send", m, b.status if b is not None else None)

            def get_message(s, timeout=None):
                if T.of("got"):
                    T.note("second message read")
                    return None
                k = E.choose(6, "message")
                if k == 0:
                    return None
                if k == 4:
                    T.note("got", "closed")
                    raise StreamClosedError("host", 7)
                if k == 5:
                    T.note("got", "unknown")
                    return Message()
                T.note("got", ("", "block", "shutdown", "block")[k])
                return RequestShutdown() if k == 2 else SendBlock(blk)

            def disconnect(s):
                T.note("disconnect")

            def connected(s):
                return True

        ctx = Ctx()

        class Env:
            @staticmethod
            def from_env():
                T.note("context of the environment")
                return ctx

        inherit = E.choose(2, "context of the environment") == 1
        with patched(cm, TCPClient=Conn, set_log_basedir=lambda p: None, Context=Env):
            c = cm.Client() if inherit else cm.Client(ctx)
            ensure(f"{prop}/Client.__init__: connects once, to the server named in its context", T.of("connect") == [(
                "connect", "host", 7)])
            ensure(f"{prop}/Client.__init__: uses the given context, or the one of the environment", c.context is ctx and len(
                T.of("context of the environment")) == inherit)
            out = None
            err = None
            user = ValueError("user")
            try:
                with c.acquire_block() as b:
                    st["seen"].append((b, b.status if b is not None else None))
                    if b is not None:
                        T.note("user code")
                        k = E.choose(4, "status set")
                        if k:
                            b.__dict__["status"] = (BS.SUCCESS, BS.FAILED, BS.CREATED)[k - 1]
                        out = ("status", b.status)
                        st["set"] = b.status
                        k = E.choose(5, "end of user code")
                        if k:
                            out = ("exception", (user, StreamClosedError("x", 1), KeyboardInterrupt(), SystemExit(1))[k - 1])
                            raise out[1]
                    else:
                        T.note("user code without block")
            except Control:
                raise
            except BaseException as e:
                check_engine_error(e)
                err = e
        got = T.of("got")[0][1] if T.of("got") else None
        sent = T.of("send")
        kinds = [type(e[1]) for e in sent]
        ensure(f"{nm}: one request for the own task is sent first", kinds[:1] == [AcquireBlock] and kinds.count(
            AcquireBlock) == 1 and sent[0][1].task_id == "task")
        ensure(f"{nm}: at most one message is taken from the connection", not T.of("second message read"))
        if got != "block":
            ensure(f"{nm}: without a block nothing is returned", kinds == [AcquireBlock])
            if got == "unknown":
                ensure(f"{nm}: unknown messages are rejected", isinstance(err, UnexpectedMessage) and not st["seen"])
                E.cover("unknown message")
            elif got in ("closed", "shutdown"):
                ensure(f"{nm}: user code sees no block on shutdown or when the connection is closed", st["seen"] == [(
                    None, None)] and err is None)
                if got == "shutdown":
                    ensure(f"{nm}: the client disconnects on shutdown", len(T.of("disconnect")) == 1)
                E.cover(got)
            return
        ensure(f"{nm}: user code sees the received block, marked as being processed", len(st["seen"]) == 1 and st["seen"][
            0][0] is blk and st["seen"][0][1] is BS.PROCESSING)
        ensure(f"{nm}: the connection stays open while there are blocks", not T.of("disconnect"))
        if T.of("send failed"):
            ensure(f"{nm}: a block is returned at most once", kinds.count(ReleaseBlock) <= 1)
            E.cover("connection fails")
            return
        raised = out[0] == "exception" and isinstance(out[1], Exception)
        interrupted = out[0] == "exception" and not raised
        # an interrupt after the user code declared the block successful does not undo that
        ok = out == ("status", BS.PROCESSING) or out == ("status", BS.SUCCESS) or (interrupted and st["set"] is BS.SUCCESS)
        rel = [e for e in sent if isinstance(e[1], ReleaseBlock)]
        ensure(f"{nm}: the block is returned exactly once, after the user code", len(rel) == 1 and rel[0][
            1].block is blk and T.ev.index(rel[0]) > T.ev.index(("user code",)))
        ensure(f"{nm}: the returned status is the true outcome", len(rel) == 1 and rel[0][2] is (
            BS.SUCCESS if ok else BS.FAILED), f"outcome {out}, returned {rel and rel[0][2]}")
        bf = [e for e in sent if isinstance(e[1], BlockFailed)]
        if raised:
            ensure(f"{nm}: an exception of the user code is reported with its block before the block is returned", len(
                bf) == 1 and bf[0][1].exception is out[1] and bf[0][1].block is blk and bf[0][1].context is ctx and bf[0][
                2] is BS.FAILED and len(rel) == 1 and T.ev.index(bf[0]) < T.ev.index(rel[0]))
            ensure(f"{nm}: an exception of the user code does not escape", err is None, f"{err!r}")
        else:
            ensure(f"{nm}: only exceptions of the user code are reported", not bf)
            if interrupted:
                ensure(f"{nm}: interrupts escape", err is out[1])
            else:
                ensure(f"{nm}: no exception without one in the user code", err is None, f"{err!r}")
        ensure(f"{nm}: nothing else is sent", len(sent) == 2 + len(bf))
        ensure(f"{nm}: a block is not changed after it was passed to the connection", blk.status is (
            BS.SUCCESS if ok else BS.FAILED))
        E.cover("block returned")

    E.explore(path)


def worker_loop(prop):
    """what a worker does that was started with a function for blocks"""
    enable()
    E.fol_while = receiving
    import daisy.task as tm

    nm = f"{prop}/Task._process_blocks"

    def path():
        T.clear()
        st = dict(inside=None)
        user = (ValueError("user"), KeyboardInterrupt(), SystemExit(1))

        class Conn:
            """contract of Client (unit client): exceptions of user code do not escape, interrupts do"""

            def __init__(s, *a, **k):
                T.note("client", len(a) + len(k))

            @contextlib.contextmanager
            def acquire_block(s):
                T.note("acquire")
                b = Blk(3) if E.choose(2, "there is a block") else None
                st["inside"] = b
                try:
                    yield b
                except Exception as e:
                    if b is None:
                        raise
                    T.note("swallowed")
                finally:
                    st["inside"] = None
                    T.note("returned")

        class Self(tm.Task):
            def __init__(self):
                pass

            def process_function(self, block):
                T.note("process", block is not None and block is st["inside"])
                k = E.choose(4, "user code")
                if k:
                    T.note("raised", k)
                    raise user[k - 1]

        err = None
        end = "ends"
        with patched(tm, Client=Conn):
            try:
                Self()._process_blocks()
            except Again:
                end = "continues"
            except Control:
                raise
            except BaseException as e:
                check_engine_error(e)
                err = e
                end = "raises"
        ensure(f"{nm}: one connection for all blocks, with the context of the worker", T.ev[:1] == [("client", 0)] and len(
            T.of("client")) == 1)
        ensure(f"{nm}: blocks are acquired one at a time", len(T.of("acquire")) == 1)
        got = [e for e in T.of("process")]
        if not got:
            ensure(f"{nm}: the worker ends exactly if there is no block", end == "ends", f"{end} {err!r}")
            E.cover("no block")
            return
        ensure(f"{nm}: every block is passed to the process function once, before it is returned", got == [("process", True)])
        k = T.of("raised")
        if not k or k[0][1] == 1:
            ensure(f"{nm}: the next block is processed, also after an exception in user code", end == "continues", f"{err!r}")
        else:
            ensure(f"{nm}: interrupts end the worker", err is user[k[0][1] - 1])
        E.cover("block processed")

    E.explore(path)


# ----------------------------------------------------------------------- framing
Len = z3.Function("len", z3.DeclareSort("Data"), Int)
Data = Len.domain(0)


class Bytes(Sym):
    """byte strings: sequences of atoms; an atom is ("pickle", message, term), ("pack", format, number) or ("rest", term)"""

    def __init__(self, atoms):
        self.atoms = tuple(atoms)

    def sub(self, m):
        return self

    def __add__(self, o):
        return Bytes(self.atoms + o.atoms) if isinstance(o, Bytes) else NotImplemented

    def dv_len(self):
        return SymInt(z3.Sum(*[size(a) for a in self.atoms], z3.IntVal(0)))

    def __eq__(self, o):
        return isinstance(o, Bytes) and same(self.atoms, o.atoms)

    def __bool__(self):
        return bool(SymBool(self.dv_len().t > 0))

    __hash__ = Sym.__hash__


def size(a):
    if a[0] == "pack":
        import struct

        return z3.IntVal(struct.calcsize(a[1]))
    return Len(a[-1])


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and (x[1] is y[1] or x[1] == y[1]) for x, y in zip(a, b))


class Pickle:
    @staticmethod
    def dumps(m, *a, **k):
        t = E.fresh("pickled", Data)
        E.assume(Len(t) > 0)
        return Bytes([("pickle", m, t)])

    @staticmethod
    def loads(b, *a, **k):
        if isinstance(b, Bytes) and len(b.atoms) == 1 and b.atoms[0][0] == "pickle":
            return Copy(b.atoms[0][1])
        T.note("unpickled something that is not one message")
        raise ValueError("unpickling fails")


class Copy:
    """an equal copy of a message"""

    def __init__(self, of):
        self.__dict__["of"] = of


def in_range(fmt, n):
    """struct.pack raises for sizes that do not fit (messages of at least 4 GB for "I"): not covered"""
    import struct

    E.assume(z3.And(sym.zi(n) >= 0, sym.zi(n) < 2 ** (8 * struct.calcsize(fmt))))


class Struct:
    error = type("error", (Exception,), {})

    @staticmethod
    def pack(fmt, *v):
        if len(v) != 1:
            raise Unsupported("struct")
        if isinstance(v[0], int):
            raise Unsupported("packing of a constant")
        in_range(fmt, v[0])
        return Bytes([("pack", fmt, v[0])])

    @staticmethod
    def unpack(fmt, b):
        if isinstance(b, Bytes) and len(b.atoms) == 1 and b.atoms[0][0] == "pack" and b.atoms[0][1] == fmt:
            return (b.atoms[0][2],)
        T.note("unpacked something that is not a size")
        raise Struct.error()

    @staticmethod
    def calcsize(fmt):
        import struct

        return struct.calcsize(fmt)

    def Struct(fmt):
        raise Unsupported("struct.Struct")


def tornado_error():
    import daisy.tcp.tcp_stream as ts

    return ts.tornado.iostream.StreamClosedError


class Stream:
    def __init__(self, inp=(), mode="open"):
        self.__dict__.update(inp=list(inp), mode=mode, isclosed=False)

    def write(self, b):
        if not isinstance(b, Bytes):
            raise Unsupported("write of something else than bytes")
        if self.mode == "write fails":
            T.note("write fails")
            raise tornado_error()()
        T.note("write", b)
        return Written(self)

    def read_bytes(self, n, partial=False):
        T.note("read")
        if self.mode == "read fails" or (self.mode == "second read fails" and len(T.of("read")) == 2):
            raise tornado_error()()
        if not self.inp:
            T.note("read beyond the message")
            raise Infeasible()
        a = self.inp[0]
        ok = E.prove(f"{Stream.nm}: reads exactly the bytes of one message", sym.zi(n) == size(a))
        if not ok:
            raise Infeasible()
        old = list(self.inp)
        E.effect("trace", None, None, lambda: self.__dict__.__setitem__("inp", old))
        if bool(partial) and E.choose(2, "partial read"):
            # as many bytes as there are
            if a[0] == "pack":
                raise Unsupported("partial read of a number")
            t, r = E.fresh("part", Data), E.fresh("part", Data)
            E.assume(z3.And(Len(t) > 0, Len(r) > 0, Len(t) + Len(r) == size(a)))
            self.__dict__["inp"] = [("part", a, r)] + self.inp[1:]
            return Bytes([("part", a, t)])
        self.__dict__["inp"] = self.inp[1:]
        return Bytes([a])

    def close(self):
        T.note("close")
        self.__dict__["isclosed"] = True
        E.effect("trace", None, None, lambda: self.__dict__.__setitem__("isclosed", False))

    def closed(self):
        return self.isclosed or self.mode == "closed"


class Written:
    def __init__(self, s):
        self.s = s

    def dv_await(self):
        T.note("await")
        if self.s.mode == "await fails":
            raise tornado_error()()


class Loop_:
    """contract of the IO loop: callbacks run once each, in the order they were added"""

    def __init__(self, *a, **k):
        pass

    def add_callback(self, f, *a, **k):
        T.note("callback", f, a, k)

    def start(self):
        pass


class Thread_:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass


@contextlib.contextmanager
def loop_patched():
    import types as _t
    import daisy.tcp.io_looper as io

    th = _t.SimpleNamespace(Thread=Thread_, Lock=None)
    to = _t.SimpleNamespace(ioloop=_t.SimpleNamespace(IOLoop=Loop_))
    with patched(io, threading=th, tornado=to):
        io.IOLooper.threads, io.IOLooper.ioloops = {}, {}
        yield


def streams(prop):
    enable()
    import daisy.tcp.tcp_stream as ts
    from daisy.tcp.exceptions import StreamClosedError

    nm = f"{prop}/TCPStream"
    Stream.nm = nm
    addr = ("host", 7)

    def make(*a):
        s = Stream(*a)
        return ts.TCPStream(s, addr), s

    def run_callbacks():
        """what is written when the IO loop runs the callbacks"""
        for c in T.of("callback"):
            with no_raise(f"{nm}._send_message: never raises"):
                DVawait(c[1](*c[2], **c[3]))
        return tuple(x for e in T.ev if e[0] == "write" for x in e[1].atoms)

    def path():
        T.clear()
        with loop_patched(), patched(ts, pickle=Pickle, struct=Struct):
            k = E.choose(9, "scenario")
            m = Copy("message")
            if k == 0:
                # send, transmit, receive: any number of further bytes may follow
                a, sa = make()
                with no_raise(f"{nm}.send_message: never raises on an open stream"):
                    a.send_message(m)
                cb = T.of("callback")
                ensure(f"{nm}.send_message: sends the message once", len(cb) == 1)
                ensure(f"{nm}.send_message: does not write itself", not T.of("write"))
                frame, whole = run_callbacks(), True
                for i, e in enumerate(T.ev):
                    if e[0] == "await":
                        sofar = tuple(x for f in T.ev[:i] if f[0] == "write" for x in f[1].atoms)
                        whole = whole and (same(sofar, frame) or not sofar)
                ensure(f"{nm}._send_message: no other message can be sent in between the parts of a message", whole)
                ensure(f"{nm}._send_message: something is written", bool(frame))
                rest = ("rest", "bytes that follow", E.fresh("rest", Data))
                E.assume(Len(rest[2]) >= 0)
                b, sb = make(list(frame) + [rest])
                with no_raise(f"{nm}._get_message: never raises on a complete message"):
                    r = b._get_message()
                ensure(f"{nm}: the message that was sent is received", isinstance(r, Copy) and r.of is m)
                ensure(f"{nm}: all bytes of the message are consumed, and no others", sb.inp == [rest])
                ensure(f"{nm}: a received message knows its stream", getattr(r, "stream", None) is b)
                E.cover("round trip")
            elif k in (1, 2):
                # the connection closes before or within a message
                a, sa = make()
                a.send_message(m)
                b, sb = make(list(run_callbacks()), "read fails" if k == 1 else "second read fails")
                r = err = None
                Stream.nm = nm
                try:
                    r = b._get_message()
                except Exception as e:
                    check_engine_error(e)
                    err = e
                ensure(f"{nm}._get_message: reports a closed connection, without a message", isinstance(
                    err, StreamClosedError) and r is None, f"{err!r}")
                ensure(f"{nm}: is closed after a failed read", b.closed() is True)
                E.cover("closed while reading")
            elif k == 3:
                b, sb = make([], "closed")
                ensure(f"{nm}.closed: true if the connection is closed", b.closed() is True)
                a, sa = make()
                ensure(f"{nm}.closed: false if the connection is open", a.closed() is False)
            elif k in (4, 5):
                a, sa = make([], "write fails" if k == 4 else "await fails")
                with no_raise(f"{nm}._send_message: a closed connection does not raise"):
                    a._send_message(m)
                ensure(f"{nm}: is closed after a failed write", a.closed() is True)
                E.cover("closed while writing")
            elif k == 6:
                a, sa = make()
                a.close()
                ensure(f"{nm}.close: closes the connection", len(T.of("close")) == 1 and a.closed() is True)
                err = None
                try:
                    a.send_message(m)
                except Exception as e:
                    check_engine_error(e)
                    err = e
                ensure(f"{nm}.send_message: reports a closed connection", isinstance(err, StreamClosedError) and not T.of(
                    "callback"), f"{err!r}")
                err = None
                try:
                    a._get_message()
                except Exception as e:
                    check_engine_error(e)
                    err = e
                ensure(f"{nm}._get_message: reports a closed connection, without a message", isinstance(
                    err, StreamClosedError), f"{err!r}")
            elif k == 7:
                # closed between send_message and its callback
                a, sa = make()
                a.send_message(m)
                a.close()
                with no_raise(f"{nm}._send_message: a closed connection does not raise"):
                    run_callbacks()
                ensure(f"{nm}: nothing is written to a closed stream", not T.of("write"))
            else:
                # order: messages are sent in the order of the calls
                a, sa = make()
                m2 = Copy("message 2")
                a.send_message(m)
                a.send_message(m2)
                ms = [x[1] for x in run_callbacks() if x[0] == "pickle"]
                ensure(f"{nm}.send_message: messages keep their order", len(ms) == 2 and ms[0] is m and ms[1] is m2)

    E.explore(path)


# ------------------------------------------------------------------- TCP server/client
class Empty(Exception):
    pass


class Q:
    """queue with unknown contents: get returns the oldest element"""

    def __init__(self, *a, **k):
        self.__dict__.update(nm=None, known=False)

    def put(self, x, *a, **k):
        T.note("put", self.nm, x)

    put_nowait = put

    def get(self, block=True, timeout=None):
        k = 0 if self.known else E.choose(2, f"get {self.nm}")
        self.__dict__["known"] = False
        T.note("get", self.nm, "empty" if k else "item")
        if k:
            if block and timeout is None:
                raise Infeasible()  # waits until there is an element
            raise Empty()
        x = Item("from " + str(self.nm)) if self.nm != "exception" else ItemError()
        T.note("item", self.nm, x)
        return x

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        if self.known:
            return False
        k = E.choose(2, f"empty {self.nm}")
        if k == 0:
            self.__dict__["known"] = True  # only this thread takes elements out
            return False
        if self.nm == "exception":
            T.note("get", self.nm, "empty")
        return True


class Item:
    def __init__(self, nm):
        self.nm = nm


class ItemError(Exception):
    pass


def queue_stub():
    import types as _t

    return _t.SimpleNamespace(Queue=Q, Empty=Empty, SimpleQueue=Q)


def name_queues(o):
    """the queues by what they hold: told apart by their use below"""
    qs = {k: v for k, v in o.__dict__.items() if isinstance(v, Q)}
    if set(qs) != {"message_queue", "exception_queue"}:
        raise Unsupported("queues of the connection")
    qs["message_queue"].__dict__["nm"] = "message"
    qs["exception_queue"].__dict__["nm"] = "exception"


class Peer:
    """contract of TCPStream"""

    def __init__(self, stream=None, address=None, script=None):
        self.__dict__.update(of=stream, address=address, script=script)

    def _get_message(self):
        from daisy.tcp.internal_messages import AckClientDisconnect, NotifyClientDisconnect
        from daisy.tcp.exceptions import StreamClosedError

        if T.of("received", "receive fails"):
            T.note("next iteration")
        k = E.choose(4, "incoming")
        if k == 3 or k == 2:
            e = StreamClosedError("host", 7) if k == 3 else ValueError("unpickling")
            T.note("receive fails", e)
            raise e
        m = Item("message") if k == 0 else Peer.internal()
        T.note("received", m)
        return m

    def send_message(self, m):
        if Peer.sends_fail and E.choose(2, "send fails"):
            from daisy.tcp.exceptions import StreamClosedError

            T.note("send fails")
            raise StreamClosedError("host", 7)
        T.note("sent", self, m)

    def close(self):
        T.note("close", self)

    def closed(self):
        raise Unsupported("closed")

    sends_fail = False
    __hash__ = object.__hash__


def receiving(test, body, names, get, set_, where):
    """one generic iteration of a receiving loop: the next one starts in the same state"""
    if not truth(test()):
        return None
    before, n = get(), len(E.journal)
    r = body()
    if r is not None:
        return r
    T.note("continues")
    raise Again()


class Again(BaseException):
    pass


def tcp_server(prop):
    enable()
    import daisy.tcp.tcp_server as tm
    from daisy.tcp.internal_messages import AckClientDisconnect, NotifyClientDisconnect

    nm = f"{prop}/TCPServer"

    def make():
        with loop_patched(), patched(tm, queue=queue_stub()):
            base = tm.tornado.tcpserver.TCPServer
            base.listen = lambda self, *a, **k: None
            tm.TCPServer._get_address = lambda self, host=None: ("host", 7)
            s = tm.TCPServer()
        name_queues(s)
        if {k for k in s.__dict__ if not k.startswith("_dv_")} - {"message_queue", "exception_queue", "client_streams",
                                                               "address", "ioloop"}:
            raise Unsupported("fields of TCPServer")
        return s

    def handle():
        T.clear()
        s = make()
        Peer.internal, Peer.sends_fail = NotifyClientDisconnect, True
        io = object()
        E.fol_while = receiving
        again = False
        with patched(tm, TCPStream=Peer, queue=queue_stub()):
            try:
                with no_raise(f"{nm}.handle_stream: never raises"):
                    s.handle_stream(io, ("host", 9))
            except Again:
                again = True
        got, failed = T.of("received"), T.of("receive fails")
        puts = T.of("put")
        mine = [x for x in s.client_streams if isinstance(x, Peer)]
        ensure(f"{nm}.handle_stream: reads from the accepted connection", len(got) + len(failed) == 1)
        if failed:
            ensure(f"{nm}.handle_stream: connection errors are passed on once", [(e[1], e[2]) for e in puts] == [(
                "exception", failed[0][1])] and not again)
            ensure(f"{nm}.handle_stream: a closed stream is not listed anymore", not mine)
            E.cover("connection error")
        elif isinstance(got[0][1], Item):
            ensure(f"{nm}.handle_stream: every message is handed over exactly once", [(e[1], e[2]) for e in puts] == [(
                "message", got[0][1])])
            ensure(f"{nm}.handle_stream: goes on after a message", again and len(mine) == 1 and mine[0].of is io)
            ensure(f"{nm}.handle_stream: nothing is sent", not T.of("sent"))
            E.cover("message")
        else:
            ensure(f"{nm}.handle_stream: internal messages are never handed over", not [e for e in puts if e[1] == "message"])
            ensure(f"{nm}.handle_stream: a disconnect ends the connection", not again and not mine)
            if not T.of("send fails"):
                ensure(f"{nm}.handle_stream: a disconnect is acknowledged", [type(e[2]) for e in T.of("sent")] == [
                    AckClientDisconnect] and T.of("sent")[0][1].of is io and not puts)
            E.cover("disconnect")

    E.explore(handle)

    def get():
        T.clear()
        E.fol_while = waiting
        s = make()
        with patched(tm, queue=queue_stub()):
            getting(nm, lambda t: s.get_message(timeout=t))

    E.explore(get)


def getting(nm, get):
    """get_message: connection errors first, then messages in their order"""
    t = (None, 1)[E.choose(2, "timeout")]
    err = r = None
    try:
        r = get(t)
    except Exception as e:
        check_engine_error(e)
        err = e
    items = T.of("item")
    if items and items[0][1] == "exception":
        ensure(f"{nm}.get_message: connection errors are raised first", err is items[0][2] and len(items) == 1,
               f"{err!r}")
        E.cover("connection error raised")
        return
    ensure(f"{nm}.get_message: looks for connection errors before messages", [e[1] for e in T.of("get")][:1] == [
        "exception"] or err is not None)
    if items:
        ensure(f"{nm}.get_message: returns the oldest message and no other", len(items) == 1 and r is items[0][2] and err is None)
        E.cover("message returned")
    else:
        ensure(f"{nm}.get_message: None without a message", r is None and err is None, f"{err!r}")
    ensure(f"{nm}.get_message: puts nothing back", not T.of("put"))


def tcp_client(prop):
    enable()
    import daisy.tcp.tcp_client as tm
    from daisy.tcp.internal_messages import AckClientDisconnect, NotifyClientDisconnect
    from daisy.tcp.exceptions import NotConnected

    nm = f"{prop}/TCPClient"
    real_del = tm.TCPClient.__dict__.get("__del__")
    if real_del is not None:
        del tm.TCPClient.__del__

    def make(connected=True):
        real = tm.TCPClient.connect
        tm.TCPClient.connect = lambda self: None
        try:
            with loop_patched(), patched(tm, queue=queue_stub()):
                s = tm.TCPClient("host", 7)
        finally:
            tm.TCPClient.connect = real
        name_queues(s)
        if {k for k in s.__dict__ if not k.startswith("_dv_")} - {"message_queue", "exception_queue", "stream",
                                                               "host", "port", "client", "ioloop"}:
            raise Unsupported("fields of TCPClient")
        if connected:
            s.__dict__["stream"] = Peer("io")
        return s

    def receive():
        T.clear()
        s = make()
        p = s.stream
        Peer.internal, Peer.sends_fail = AckClientDisconnect, False
        E.fol_while = receiving
        again = False
        with patched(tm, queue=queue_stub()):
            try:
                with no_raise(f"{nm}._receive: never raises"):
                    s._receive()
            except Again:
                again = True
        got, failed = T.of("received"), T.of("receive fails")
        puts = T.of("put")
        if failed:
            ensure(f"{nm}._receive: connection errors are passed on once", [(e[1], e[2]) for e in puts] == [(
                "exception", failed[0][1])] and not again)
            ensure(f"{nm}._receive: not connected after an error", s.connected() is False)
            E.cover("connection error")
        elif isinstance(got[0][1], Item):
            ensure(f"{nm}._receive: every message is handed over exactly once", [(e[1], e[2]) for e in puts] == [(
                "message", got[0][1])])
            ensure(f"{nm}._receive: goes on after a message", again and s.stream is p and not T.of("close"))
            E.cover("message")
        else:
            ensure(f"{nm}._receive: internal messages are never handed over", not puts)
            ensure(f"{nm}._receive: the connection is closed when the server acknowledged", not again and s.connected(
            ) is False and len(T.of("close")) == 1)
            E.cover("disconnect")

    E.explore(receive)

    def get():
        T.clear()
        E.fol_while = waiting
        s = make()
        with patched(tm, queue=queue_stub()):
            getting(nm, lambda t: s.get_message(timeout=t))

    E.explore(get)

    def send():
        T.clear()
        s = make(E.choose(2, "connected") == 0)
        con = s.stream is not None
        m = Item("m")
        err = None
        with patched(tm, queue=queue_stub()):
            try:
                if E.choose(2, "operation") == 0:
                    op = "send"
                    s.send_message(m)
                else:
                    op = "get"
                    s.get_message(timeout=1)
            except Exception as e:
                check_engine_error(e)
                err = e
        items = T.of("item")
        if items and items[0][1] == "exception":
            ensure(f"{nm}.{op}_message: connection errors are raised first", err is items[0][2] and not T.of("sent"))
        elif not con:
            ensure(f"{nm}.{op}_message: a missing connection is reported", isinstance(err, NotConnected) and not T.of(
                "sent"), f"{err!r}")
            E.cover("not connected")
        elif op == "send":
            ensure(f"{nm}.send_message: the message is sent once", err is None and [(e[1], e[2]) for e in T.of(
                "sent")] == [(s.stream, m)])
            E.cover("sent")

    E.explore(send)

    def disconnect():
        T.clear()
        s = make(E.choose(2, "connected") == 0)
        con = s.stream is not None
        E.fol_while = waiting

        class Time:
            @staticmethod
            def sleep(t):
                if E.choose(2, "acknowledged"):
                    s.__dict__["stream"] = None
                    E.effect("trace", None, None, lambda: None)

            time = staticmethod(lambda: 0.0)

        import types as _t

        with patched(tm, queue=queue_stub(), time=Time):
            with no_raise(f"{nm}.disconnect: never raises"):
                s.disconnect()
        if con:
            ensure(f"{nm}.disconnect: the server is notified once", [type(e[2]) for e in T.of("sent")] == [
                NotifyClientDisconnect])
            ensure(f"{nm}.disconnect: returns when the connection is closed", s.connected() is False)
            E.cover("disconnected")
        else:
            ensure(f"{nm}.disconnect: nothing is sent without connection", not T.of("sent"))

    E.explore(disconnect)
