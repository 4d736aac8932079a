"""C32: the tracing proxy and the restart test proxy pass MQTT traffic on unaltered."""
import importlib, io, logging, os, random, re, select, socket, sys, threading, time, types
from mon import wire as W, gen, repofmt
from mon.runner import Violation, Inconclusive

ID = "C32"
RULE = ("the repository's proxies run between scripted clients and a scripted server, which send random MQTT 3.1.1 and 5 packets of all types in both directions, cut at "
        "random, up to several clients at once, and end their connections at any side; bytes on both sides are compared, ends of connections have to arrive, and the "
        "proxy's log of 3.1.1 traffic is compared with the packets sent; distinct = (proxy, version, way it ended, clients, log shape)")
ASSUMPTIONS = ["the traffic is a sequence of MQTT packets (the proxies pass on whole packets)", "stub in place of the MQTT client that the restart proxy uses for its control connection"]
PLAN = {"quick": 900, "thorough": 12000}
REACH = {"distinct": 30, "packets through": 25000, "log entries compared": 8000, "connections": 1500, "terminated on request": 60, "simultaneous clients": 300}
WORKERS = 12
GRACE = 120
WAIT = 15
P = {}


class Tee:
    """standard output by thread."""

    def __init__(self, real):
        self.real, self.by, self.lock = real, {}, threading.Lock()

    def write(self, s):
        with self.lock:
            self.by.setdefault(threading.current_thread(), []).append(s)
        return len(s)

    def flush(self):
        pass

    def texts(self):
        with self.lock:
            return ["".join(x) for x in self.by.values()]

    def clear(self):
        with self.lock:
            self.by.clear()


class LogTee(logging.Handler):
    def __init__(self, tee):
        logging.Handler.__init__(self)
        self.tee = tee

    def emit(self, rec):
        self.tee.write(rec.getMessage() + "\n")


class StubMQTT:
    """stands for the paho client of the restart proxy's control connection."""
    last = None

    def __init__(self, *a, **k):
        StubMQTT.last = self

    def connect(self, *a):
        pass

    def loop_start(self):
        pass

    def subscribe(self, *a):
        pass

    def publish(self, *a):
        pass

    def disconnect(self):
        pass


def start(name):
    srv = tcp = None
    for k in range(200):
        tcp = socket.socket()
        tcp.bind(("127.0.0.1", 0))
        port = tcp.getsockname()[1]
        probe = socket.socket()
        try:
            probe.bind(("", port + 1))
        except OSError:
            tcp.close()
            continue
        probe.close()
        break
    tcp.listen(50)
    if name == "trace":
        mod = importlib.import_module("mqtt.proxy.mqttsas")
    else:
        paho = types.ModuleType("paho")
        paho.mqtt = types.ModuleType("paho.mqtt")
        paho.mqtt.client = types.ModuleType("paho.mqtt.client")
        paho.mqtt.client.Client = StubMQTT
        sys.modules.update({"paho": paho, "paho.mqtt": paho.mqtt, "paho.mqtt.client": paho.mqtt.client})
        mod = importlib.import_module("mqtt.restart.netproxy")
        lg = logging.getLogger("Restart test proxy")
        lg.handlers = [LogTee(P["tee"])]
        lg.propagate = False
        lg.setLevel(logging.DEBUG)
    argv, sys.argv = sys.argv, ["proxy", "localhost", str(port)]
    try:
        return wait_up(mod, tcp, port)
    finally:
        sys.argv = argv


def wait_up(mod, tcp, port):
    t = threading.Thread(target=mod.run, daemon=True)
    t.start()
    for k in range(100):
        time.sleep(.05)
        if not t.is_alive():
            raise OSError("the proxy did not start")
        try:
            s = socket.create_connection(("127.0.0.1", port + 1), 2)
            break
        except OSError:
            pass
    else:
        raise OSError("the proxy does not listen")
    tcp.settimeout(WAIT)
    tcp.accept()[0].close()
    s.close()
    return tcp, port + 1


def setup(ctx):
    repofmt.load()
    P["tee"] = Tee(sys.stdout)


def proxy(name):
    if name not in P:
        for k in range(5):
            try:
                P[name] = start(name)
                break
            except OSError:
                continue
        else:
            raise Inconclusive("the proxy cannot be started")
    return P[name]


class End:
    """one side of a proxied connection: collects what arrives."""

    def __init__(self, s):
        self.s, self.got, self.sent, self.eof = s, bytearray(), bytearray(), threading.Event()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(None)
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        try:
            while True:
                d = self.s.recv(65536)
                if not d:
                    break
                self.got += d
        except OSError:
            pass
        self.eof.set()

    def send(self, r, raw):
        self.sent += raw
        m = r.random()
        if m < .5:
            self.s.sendall(raw)
            return
        i = 0
        while i < len(raw):
            n = r.choice([1, 1, 2, 3, 7, 50, 4000]) if len(raw) < 3000 else r.choice([1, 1000, 50000])
            self.s.sendall(raw[i:i + n])
            i += n
            if r.random() < .2:
                time.sleep(r.choice([0, .001, .004]))

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


def wait_for(cond, what, wait=WAIT):
    end = time.monotonic() + wait
    while not cond():
        if time.monotonic() > end:
            raise Violation(what() if callable(what) else what)
        time.sleep(.002)


def packets(r, v, up, n):
    types = [W.PUBLISH, W.PUBLISH, W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP] + \
        ([W.SUBSCRIBE, W.UNSUBSCRIBE, W.PINGREQ] if up else [W.SUBACK, W.UNSUBACK, W.PINGRESP, W.CONNACK])
    out = []
    for k in range(n):
        p = gen.packet(r, r.choice(types), v)
        if p["t"] == W.PUBLISH and r.random() < .04:
            p["payload"] = r.randbytes(r.choice([1000, 70000, 300000]))
        if p["t"] == W.PUBLISH and r.random() < .1:
            # much like the request to end the connection, but not quite
            p["topic"], p["payload"] = r.choice([("MQTTSAS topic", b"TERMINATED"), ("MQTTSAS topic", b""), ("MQTTSAS topic", b" TERMINATE"), ("MQTTSAS topic", b"terminate"),
                                                 ("MQTTSAS topic/", b"TERMINATE"), ("a/MQTTSAS topic", b"TERMINATE"), ("topic", b"TERMINATE")])
        out.append(p)
    return out


TOKEN = re.compile(r"(C to S|S to C)\s+")


def entries(text, cid):
    """(direction, text of the entry) from the log of one connection."""
    parts = TOKEN.split(text)
    return [(parts[k], parts[k + 1][:200000]) for k in range(1, len(parts) - 1, 2)]


def check_log(ctx, name, cid, up, down):
    """each packet that was passed on has one entry, in order, of the right type and with its main contents."""
    def mine():
        return [t for t in P["tee"].texts() if cid in t]
    wait_for(lambda: len(mine()) == 1, lambda: "the log of %s has no part of client %s" % (name, cid))
    want = {"C to S": up, "S to C": down}
    ctx_n = 0
    for d in want:
        def have():
            return [x for dd, x in entries(mine()[0], cid) if dd == d]
        wait_for(lambda: len(have()) >= len(want[d]), lambda: "the log shows %d of %d packets (%s)" % (len(have()), len(want[d]), d))
        got = have()
        ctx.expect(len(got) == len(want[d]), lambda: "the log shows %d packets for %d (%s): %r" % (len(got), len(want[d]), d, got[-1][:200]))
        for p, x in zip(want[d], got):
            kind = W.NAMES[p["t"]]
            first = re.search(r"([A-Za-z]+)\(", x[x.find(cid) + len(cid):])
            ctx.expect(cid in x, lambda: "log entry without the client's identifier: %r" % x[:300])
            ctx.expect(first is not None and first.group(1).upper().startswith(kind[:len(kind) if kind != "SUBACK" else 6]),
                       lambda: "log shows %r for %s" % (x[:200], W.show(p)))
            if p["t"] == W.PUBLISH and len(p["payload"]) < 5000:
                ctx.expect((p["topic"] in x or repr(p["topic"])[1:-1] in x) and repr(bytes(p["payload"])) in x, lambda: "log shows %r for %s" % (x[:400], W.show(p)))
            ctx_n += 1
    ctx.count("log entries compared", ctx_n)


def one_client(r, ctx, name, srv, v, cid, how, lock):
    port = proxy(name)[1]
    with lock:
        c = socket.create_connection(("127.0.0.1", port), WAIT)
        try:
            s, _ = srv.accept()
        except socket.timeout:
            c.close()
            raise Violation("the proxy does not connect to the server for a new client")
    a, b = End(c), End(s)
    try:
        conn = gen.packet(r, W.CONNECT, v)
        conn["cid"] = cid
        up = [conn] + packets(r, v, True, r.choice([0, 1, 5, 20]))
        down = packets(r, v, False, r.choice([0, 1, 5, 20]))
        enc = lambda ps: [W.encode(p, v) for p in ps]
        errs = []

        def feed(end, ps, seed):
            rr = random.Random(seed)
            try:
                raw = b"".join(enc(ps)) if rr.random() < .3 else None
                for x in ([raw] if raw else enc(ps)):
                    end.send(rr, x)
            except OSError as e:
                errs.append("a side cannot go on sending: %r" % e)

        a.send(r, W.encode(conn, v))
        wait_for(lambda: bytes(b.got) == bytes(a.sent), "the connect packet of %s does not reach the server" % cid)
        th = [threading.Thread(target=feed, args=(a, up[1:], r.random())), threading.Thread(target=feed, args=(b, down, r.random()))]
        for t in th:
            t.start()
        for t in th:
            t.join(120)
            if t.is_alive():
                raise Violation("the proxy does not take the traffic any more")
        if errs:
            raise Violation(errs[0])
        wait_for(lambda: len(b.got) >= len(a.sent), lambda: "%d of %d bytes reached the server" % (len(b.got), len(a.sent)))
        wait_for(lambda: len(a.got) >= len(b.sent), lambda: "%d of %d bytes reached the client" % (len(a.got), len(b.sent)))
        extra = []
        if how == "term":
            # the request to end the connection is not passed on
            t = W.encode({"t": W.PUBLISH, "qos": 0, "dup": False, "retain": False, "topic": "MQTTSAS topic", "payload": b"TERMINATE", "props": []}, 4)
            a.s.sendall(t)
        elif how == "control":
            class Msg:
                payload = b"stop"
            StubMQTT.last.on_message(StubMQTT.last, None, Msg())
        elif how == "client":
            more = packets(r, v, True, r.randrange(4))
            for x in enc(more):
                a.sent += x
                a.s.sendall(x)
            extra = more
            a.s.shutdown(socket.SHUT_WR) if r.random() < .5 else a.close()
        else:
            more = packets(r, v, False, r.randrange(4))
            for x in enc(more):
                b.sent += x
                b.s.sendall(x)
            extra = more
            b.close()
        if how != "server":
            wait_for(b.eof.is_set, "the server does not see the end of the connection (%s ended it)" % how)
        if how != "client":
            wait_for(a.eof.is_set, "the client does not see the end of the connection (%s ended it)" % how)
        ctx.expect(bytes(b.got) == bytes(a.sent), lambda: "the server got %d bytes for %d sent, different from byte %d" %
                   (len(b.got), len(a.sent), next((k for k in range(min(len(b.got), len(a.sent))) if b.got[k] != a.sent[k]), -1)))
        ctx.expect(bytes(a.got) == bytes(b.sent), lambda: "the client got %d bytes for %d sent, different from byte %d" %
                   (len(a.got), len(b.sent), next((k for k in range(min(len(a.got), len(b.sent))) if a.got[k] != b.sent[k]), -1)))
        ctx.count("packets through", len(up) + len(down) + len(extra))
        ctx.count("connections")
        if how in ("term", "control"):
            ctx.count("terminated on request")
        return up + (extra if how == "client" else []), down + (extra if how == "server" else [])
    finally:
        a.close()
        b.close()


def scenario(r, ctx, idx):
    name = r.choice(["trace", "trace", "restart"])
    srv, port = proxy(name)
    P["tee"].clear()
    n = r.choice([1, 1, 2, 3, 5])
    lock, jobs, out = threading.Lock(), [], {}
    if name == "trace":
        ends = ["client", "server", "client", "server", "term"]
    else:
        ends = ["control"] if n == 1 and r.random() < .5 else ["client", "server"]
    old, sys.stdout = sys.stdout, P["tee"]
    olderr, sys.stderr = sys.stderr, io.StringIO()
    shape = []
    try:
        def run(k, v, how, seed):
            cid = "client-%d-%d-%d" % (os.getpid(), idx, k)
            try:
                out[k] = (cid, v) + one_client(random.Random(seed), ctx, name, srv, v, cid, how, lock)
            except BaseException as e:
                out[k] = e
        for k in range(n):
            v, how = r.choice([4, 4, 5]), r.choice(ends)
            if v == 5 and how == "term":
                how = "server"
            shape.append((v, how))
            jobs.append(threading.Thread(target=run, args=(k, v, how, r.random())))
        for t in jobs:
            t.start()
        for t in jobs:
            t.join(240)
            if t.is_alive():
                raise Violation("traffic through the proxy does not come to an end")
        for k in range(n):
            if isinstance(out[k], BaseException):
                raise out[k]
        for k in range(n):
            cid, v, up, down = out[k]
            if v == 4:
                check_log(ctx, name, cid, up, down)
        if n > 1:
            ctx.count("simultaneous clients", n)
    finally:
        sys.stdout, sys.stderr = old, olderr
    for v, how in shape:
        ctx.case((name, v, how, n), "%s: %d clients, %s" % (name, n, shape))
