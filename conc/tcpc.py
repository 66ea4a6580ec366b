"""C17: real TCPServer and TCPClient over loopback, through a proxy that chops, delays and cuts the byte stream."""
import contextlib, io, pickle, queue, select, socket, threading
from common import *

KINDS = {"tcp", "hang"}


class Proxy(threading.Thread):
    """forwards one connection; plan: chunk sizes, and an optional number of bytes after which it is cut"""

    def __init__(self, target, seed, cut_up=None, cut_down=None, tiny=False):
        super().__init__(daemon=True)
        self.rng = random.Random(seed)
        self.target, self.cut, self.tiny = target, {"up": cut_up, "down": cut_down}, tiny
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(1)
        self.port = self.sock.getsockname()[1]
        self.done = {"up": 0, "down": 0}
        self.stopped = False

    def run(self):
        try:
            a, _ = self.sock.accept()
            b = socket.create_connection(self.target)
            for s in (a, b):
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            while not self.stopped:
                r, _, _ = select.select([a, b], [], [], 0.1)
                for s in r:
                    d, o = ("up", b) if s is a else ("down", a)
                    n = self.rng.choice([1, 2, 3, 5, 7]) if self.tiny and self.done[d] < 400 else self.rng.choice([1, 3, 100, 5000, 65536])
                    if self.cut[d] is not None:
                        n = min(n, self.cut[d] - self.done[d])
                        if n <= 0:
                            return
                    data = s.recv(n)
                    if not data:
                        return
                    self.done[d] += len(data)
                    o.sendall(data)
                    if self.cut[d] is not None and self.done[d] >= self.cut[d]:
                        return
        except OSError:
            pass
        finally:
            for s in (locals().get("a"), locals().get("b"), self.sock):
                if s is not None:
                    s.close()


def payload(rng, i, size):
    return (i, rng.randbytes(size), {"x": [i, None, "é"]})


_server = None


def wait_for(f, what, limit=8):
    t0 = time.time()
    while True:
        r = f()
        if r:
            return r
        if time.time() - t0 > limit:
            raise Viol("tcp", what)
        time.sleep(0.01)


def next_message(end, what, limit=8):
    t0 = time.time()
    while time.time() - t0 < limit:
        m = end.get_message(timeout=0.2)
        if m is not None:
            return m
    raise Viol("tcp", f"{what}: no message arrived")


def e2e(case):
    from daisy.tcp import TCPServer, TCPClient, TCPMessage, StreamClosedError
    from daisy.messages.message import Message

    rng = random.Random(case["seed"])
    server = TCPServer(host="127.0.0.1")
    proxies, clients = [], []
    try:
        for c in range(case["clients"]):
            p = Proxy(("127.0.0.1", server.address[1]), rng.random(), tiny=case["tiny"])
            p.start()
            proxies.append(p)
            clients.append(TCPClient("127.0.0.1", p.port))
        sent = {c: [payload(rng, i, rng.choice(case["sizes"])) for i in range(case["n"])] for c in range(len(clients))}
        order = [(c, i) for c in sent for i in range(case["n"])]
        rng.shuffle(order)
        pos = {c: 0 for c in sent}
        for c, _ in order:
            clients[c].send_message(Message(payload=(c, sent[c][pos[c]])))
            pos[c] += 1
        got = {c: [] for c in sent}
        streams = {}
        for _ in order:
            m = next_message(server, "server")
            if not isinstance(m, Message):
                raise Viol("tcp", f"server got a {type(m).__name__}")
            c, pl = m.payload
            got[c].append(pl)
            if m.stream is None:
                raise Viol("tcp", "received message has no stream")
            if streams.setdefault(c, m.stream) is not m.stream:
                raise Viol("tcp", "messages of one connection have different streams")
        for c in sent:
            if got[c] != sent[c]:
                raise Viol("tcp", f"client {c} sent {[(x[0], len(x[1])) for x in sent[c]]}, server got {[(x[0], len(x[1])) for x in got[c]]}")
        if len({id(s) for s in streams.values()}) != len(streams):
            raise Viol("tcp", "two connections share a stream")
        # replies reach the client that sent the message
        back = {c: [payload(rng, i, rng.choice(case["sizes"])) for i in range(case["n"])] for c in sent}
        for c in sent:
            for pl in back[c]:
                streams[c].send_message(Message(payload=(c, pl)))
        for c in sent:
            r = [next_message(clients[c], f"client {c}").payload for _ in back[c]]
            if r != [(c, pl) for pl in back[c]]:
                raise Viol("tcp", f"client {c} received {[(x[0], x[1][0], len(x[1][1])) for x in r]} instead of the replies to it")
        # graceful disconnect is not visible as a message
        clients[0].disconnect()
        if clients[0].connected():
            raise Viol("tcp", "client still connected after disconnect")
        t0 = time.time()
        while time.time() - t0 < 0.15:
            try:
                m = server.get_message(timeout=0.05)
            except StreamClosedError:
                continue
            if m is not None:
                raise Viol("tcp", f"server hands over {type(m).__name__} after a disconnect")
        proxies[0].stopped = True
        try:
            streams[0].send_message(Message())
            wait_for(lambda: _raises(lambda: streams[0].send_message(Message()), StreamClosedError), "sending to a closed connection is not reported")
        except StreamClosedError:
            pass
        if len(clients) > 1:
            clients[1].send_message(Message(payload="still"))
            while True:
                try:
                    m = next_message(server, "server")
                except StreamClosedError:
                    continue
                break
            if m.payload != "still":
                raise Viol("tcp", "wrong message from the remaining client")
    finally:
        for p in proxies:
            p.stopped = True
        server.stop()
        for c in clients:
            c.stream = None
    return True


def _raises(f, e):
    try:
        f()
    except e:
        return True
    return False


def cut(case):
    """the connection breaks within a message: only complete messages arrive, then the error"""
    from daisy.tcp import TCPServer, TCPClient, StreamClosedError
    from daisy.tcp.exceptions import NotConnected
    from daisy.messages.message import Message

    rng = random.Random(case["seed"])
    server = TCPServer(host="127.0.0.1")
    msgs = [payload(rng, i, rng.choice([0, 10, 2000])) for i in range(4)]
    raw = [len(pickle.dumps(_mk(Message, m))) for m in msgs]
    total = sum(raw) + 4 * len(raw)
    at = rng.randint(1, total - 1)
    p = Proxy(("127.0.0.1", server.address[1]), rng.random(), cut_up=at if case["dir"] == "up" else None, cut_down=at if case["dir"] == "down" else None)
    p.start()
    c = TCPClient("127.0.0.1", p.port)
    try:
        if case["dir"] == "up":
            for m in msgs:
                # the connection may already be cut
                with contextlib.suppress(StreamClosedError, NotConnected):
                    c.send_message(Message(payload=m))
            recv = server
        else:
            c.send_message(Message(payload="hello"))
            s = next_message(server, "server").stream
            for m in msgs:
                with contextlib.suppress(StreamClosedError):
                    s.send_message(Message(payload=m))
            recv = c
        got, err = [], None
        t0 = time.time()
        quiet = 0
        while time.time() - t0 < 8 and quiet < 3:
            try:
                m = recv.get_message(timeout=0.1)
            except StreamClosedError as e:
                err = e
                if case["dir"] == "down":
                    break
                continue
            except NotConnected as e:
                break
            if m is None:
                quiet += err is not None
                continue
            got.append(m.payload)
        if got != msgs[: len(got)]:
            raise Viol("tcp", f"connection cut after {at} of {total} bytes: received {[(g[0], len(g[1])) if isinstance(g, tuple) else g for g in got]}")
        if len(got) == len(msgs):
            raise Viol("tcp", "received messages that were cut off")
        if err is None:
            raise Viol("tcp", f"cut connection is not reported to the receiver ({case['dir']})")
        if case["dir"] == "down":
            if not _raises(lambda: c.send_message(Message()), (NotConnected, StreamClosedError)):
                raise Viol("tcp", "client can send on a cut connection")
    finally:
        p.stopped = True
        server.stop()
        c.stream = None
    return True


def first(case):
    """a message and a connection error are both waiting: the error is handed over first, the message is kept"""
    from daisy.tcp import TCPServer, TCPClient, StreamClosedError
    from daisy.messages.message import Message

    server = TCPServer(host="127.0.0.1")
    ps, cs = [], []
    try:
        for i in range(2):
            p = Proxy(("127.0.0.1", server.address[1]), case["seed"], tiny=False)
            p.start()
            ps.append(p)
            cs.append(TCPClient("127.0.0.1", p.port))
            cs[i].send_message(Message(payload=("hello", i)))
            s = next_message(server, "server").stream
        for j in range(case["n"]):
            cs[0].send_message(Message(payload=j))
        mq, eq = getattr(server, "message_queue", None), getattr(server, "exception_queue", None)
        if mq is None or eq is None:
            return False
        t0 = time.time()
        while mq.qsize() < case["n"] and time.time() - t0 < 6:
            time.sleep(0.02)
        ps[1].stopped = True
        while eq.empty() and time.time() - t0 < 10:
            time.sleep(0.02)
        if eq.empty() or mq.qsize() < case["n"]:
            return False
        out = []
        for _ in range(case["n"] + 1):
            try:
                m = server.get_message(timeout=2)
                out.append(None if m is None else m.payload)
            except StreamClosedError:
                out.append("error")
        if "error" not in out:
            return False
        if out != ["error"] + list(range(case["n"])):
            raise Viol("tcp", f"{case['n']} messages and a connection error were waiting, the server handed over {out}")
    finally:
        for p in ps:
            p.stopped = True
        server.stop()
        for c in cs:
            c.stream = None
    return True


def _mk(cls, payload):
    m = cls(payload=payload)
    return m


def run_case(case):
    global Viol
    import warnings

    warnings.simplefilter("ignore")
    try:
        return dict(e2e=e2e, cut=cut, first=first)[case["type"]](case)
    except (Viol, CaseTimeout):
        raise
    except Exception as e:
        raise Viol("tcp", exc_text(e))


def cases(seed, thorough):
    rng = random.Random(f"C17-{seed}")
    yield dict(type="e2e", clients=2, n=3, sizes=[0, 100, 70000, 300000], tiny=False, seed=rng.randrange(10**9))
    yield dict(type="e2e", clients=2, n=4, sizes=[0, 1, 10, 300], tiny=True, seed=rng.randrange(10**9))
    yield dict(type="first", n=2, seed=rng.randrange(10**9))
    for d in ("up", "down", "up", "down"):
        yield dict(type="cut", dir=d, seed=rng.randrange(10**9))
    while True:
        if rng.random() < 0.5:
            yield dict(type="cut", dir=rng.choice(["up", "down"]), seed=rng.randrange(10**9))
        else:
            yield dict(type="e2e", clients=rng.choice([1, 2, 3]), n=rng.choice([1, 3, 8]), sizes=rng.choice([[0, 1, 10], [100, 5000], [70000, 1000000, 3]]), tiny=rng.random() < 0.5, seed=rng.randrange(10**9))


def search(prop, seed, budget, thorough):
    return drive(cases(seed, thorough), run_case, KINDS, budget, seed, limit=40, min_cases=10)


def replay(prop, case):
    return run_case(case)
