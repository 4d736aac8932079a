"""C41: the broker shuts down in an orderly way"""
import os, signal, socket, threading
from mon import wire as W, transport
from mon.process import Space, Tap, port
from mon.sim import Client, HarnessError, load
from mon.clock import real_sleep, real_monotonic, real_select
from mon.runner import Violation

ID = "C41"
RULE = ("one evaluation = one real broker process (or broker in this process) stopped at a random moment of a workload, with what every client, the operating system and a "
        "second broker on the same ports saw of it; distinct = (way of stopping, listeners, what the clients were doing)")
ASSUMPTIONS = ("bounded time is taken as 20 s; clients which flood the broker or do not read need not get the DISCONNECT; a broker in this process is stopped with brokers.stop(), "
               "which needs an MQTT listener as the last one")
PLAN = {"quick": 100, "thorough": 1500}
REACH = {"distinct": 40, "DISCONNECTs with reason": 90, "connections ended": 200, "restarts": 20, "stopped by SIGTERM": 20, "stopped by SIGINT": 6, "stopped by stop()": 15,
         "idle connections": 12, "partial packets": 20, "slow consumers": 5, "flooding clients": 8, "churning clients": 10}
LIMIT = 20


def connect(tap, name, v, how, addr, r, **kw):
    c = Client(tap, name, v)
    c.dial = lambda: transport.KINDS[how](addr, r, "whole")
    c.connect(clean=kw.pop("clean", True), keepalive=0, props=[(17, 100)] if v == 5 and r.random() < .5 else [], **kw)
    if not (c.connack and c.connack["rc"] == 0):
        raise Violation("%s can't connect by %s to a broker just started" % (name, how))
    return c


def listeners(r, last=None):
    out = []
    for n in range(r.choice([1, 1, 2, 3, 4])):
        out.append(r.choice(["mqtt", "mqtt", "tls", "http", "mqttsn"]))
    if last:
        out.append(last)
    elif not set(out) & {"mqtt", "tls"}:
        out.insert(r.randrange(len(out) + 1), "mqtt")
    ls = [(k, port()) for k in out]
    lines = []
    for k, p in ls:
        if k == "tls":
            lines += transport.tls_lines(p)
        else:
            lines.append("listener %d 127.0.0.1 %s" % (p, k))
    return ls, lines


class Crowd:
    """clients of all kinds on the MQTT listeners."""

    def __init__(self, r, ctx, ls):
        self.r, self.ctx = r, ctx
        self.mqtt = [(k, ("127.0.0.1", p)) for k, p in ls if k in ("mqtt", "tls")]
        self.tap = Tap(None)
        ctx.sim = self.tap
        self.calm, self.others, self.threads, self.doing = [], [], [], set()
        self.halt = threading.Event()
        for n in range(r.randrange(1, 7)):
            k, a = r.choice(self.mqtt)
            how = r.choice(["tcp", "tcp", "ws"] if k == "mqtt" else ["tls", "wss"])
            v = r.choice([4, 5, 5])
            c = connect(self.tap, "c%d" % n, v, how, a, r, will={"qos": 0, "retain": False, "topic": "w", "payload": b"w", "props": []} if r.random() < .3 else None)
            self.calm.append(c)
            c.subscribe([("t/#", {"qos": r.randrange(3)} if v == 5 else r.randrange(3))])
        for n in range(r.randrange(0, 12)):
            c = r.choice(self.calm)
            self.act(c)
        if r.random() < .8:
            for n in range(r.choice([1, 1, 2, 5])):
                r.choice([self.idle, self.partial, self.partial, self.flood, self.churn, self.leave])()
        if r.random() < .15:
            self.slow()

    def act(self, c):
        r = self.r
        c.ack = r.choice(["auto", "manual"])
        x = r.randrange(4)
        if x == 0:
            c.publish("t/%d" % r.randrange(3), b"x" * r.choice([1, 50]), 0)
        elif x == 1:
            c.publish("t/%d" % r.randrange(3), b"y", 1, complete=False)
        elif x == 2:
            i = c.newid()
            c.send({"t": W.PUBLISH, "topic": "t/q", "payload": b"z", "qos": 2, "id": i, "retain": False, "dup": False, "props": []})
            c.wait_for(lambda q: q["t"] == W.PUBREC and q["id"] == i)
            c.send({"t": W.PUBREL, "id": i})
        else:
            c.ping()

    def raw(self):
        k, a = self.r.choice(self.mqtt)
        s = socket.create_connection(a, 10)
        s.settimeout(LIMIT + 10)
        return k, s

    def idle(self):
        """a connection which says nothing."""
        self.others.append(self.raw()[1])
        self.ctx.count("idle connections")
        self.doing.add("idle")

    def partial(self):
        """a connection in the middle of a packet, a handshake or a frame."""
        r = self.r
        self.doing.add("partial")
        self.ctx.count("partial packets")
        if r.random() < .4 and self.calm:
            c = r.choice(self.calm)
            if isinstance(c.sock, transport.Link) and type(c.sock) is transport.KINDS["tcp"]:
                c.sock.sendall(b"\x32\x40\x00\x03t/0\x00")
                self.calm.remove(c)
                self.others.append(c)
                return
        k, s = self.raw()
        v = r.choice([4, 5])
        b = W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "partial", "will": None, "props": [], "username": None, "password": None, "_v": v}, v)
        if k == "tls":
            b = b"\x16\x03\x01\x02\x00\x01"
        elif r.random() < .4:
            b = b"GET /mqtt HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nSec-WebSocket-Key: eDk=\r\n\r\n\x82\xfe"
        s.sendall(b[:r.randrange(1, len(b))])
        self.others.append(s)

    def leave(self):
        """a client which goes just now."""
        if len(self.calm) > 1:
            c = self.calm.pop()
            self.doing.add("leave")

            def run():
                real_sleep(self.wait * self.r.random())
                try:
                    c.sock.sendall(W.encode({"t": W.DISCONNECT, "rc": 0, "props": []}, c.v))
                    c.sock.close()
                except (OSError, Violation):
                    pass
            self.threads.append(run)

    def flood(self):
        k, a = self.r.choice(self.mqtt)
        if k != "mqtt":
            return
        c = connect(self.tap, "f%d" % len(self.others), self.r.choice([4, 5]), "tcp", a, self.r)
        self.others.append(c)
        self.ctx.count("flooding clients")
        self.doing.add("flood")
        b = W.encode({"t": W.PUBLISH, "topic": "t/f", "payload": b"f" * 100, "qos": 0, "retain": False, "dup": False, "props": []}, c.v) * 5

        def run():
            try:
                while not self.halt.is_set():
                    c.sock.sendall(b)
                    end = real_monotonic() + .004 # so that those who read can keep up
                    while True:
                        left = end - real_monotonic()
                        if left <= 0:
                            break
                        if real_select([c.sock], [], [], left)[0] and not c.sock.receive(0):
                            return
            except (OSError, Violation):
                pass
        self.threads.append(run)

    def churn(self):
        """connections all the time."""
        self.ctx.count("churning clients")
        self.doing.add("churn")
        k, a = self.mqtt[-1]
        b = W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "", "will": None, "props": [], "username": None, "password": None, "_v": 4}, 4)
        q = type(self.r)(self.r.random())

        def run():
            while not self.halt.is_set():
                try:
                    s = socket.create_connection(a, 5)
                    if k == "mqtt" and q.random() < .5:
                        s.sendall(b)
                    s.close()
                except OSError:
                    if self.halt.wait(.001):
                        return
        for n in range(2):
            self.threads.append(run)

    def slow(self):
        """a client which does not read, with more on its way than buffers hold."""
        addr = [a for k, a in self.mqtt if k == "mqtt"]
        if not addr:
            return
        v = self.r.choice([4, 5])
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        s.connect(addr[0])
        s.settimeout(LIMIT + 10)
        s.sendall(W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "slow", "will": None, "props": [], "username": None, "password": None, "_v": v}, v))
        s.recv(1)
        s.sendall(W.encode({"t": W.SUBSCRIBE, "id": 1, "props": [], "subs": [("big", {"qos": 0} if v == 5 else 0)]}, v))
        real_sleep(.05)
        self.others.append(s)
        p = connect(self.tap, "p", 4, "tcp", addr[0], self.r)
        self.others.append(p)
        self.ctx.count("slow consumers")
        self.doing.add("slow%d" % v)
        b = W.encode({"t": W.PUBLISH, "topic": "big", "payload": b"f" * (1 << 18), "qos": 0, "retain": False, "dup": False, "props": []}, 4)

        def run():
            try:
                while not self.halt.is_set():
                    p.sock.sendall(b)
            except (OSError, Violation):
                pass
        self.threads.append(run)

    def go(self, wait):
        self.wait = wait
        self.threads = [threading.Thread(target=f, daemon=True) for f in self.threads]
        for t in self.threads:
            t.start()
        end = real_monotonic() + wait
        self.drain(end)
        while real_monotonic() < end:
            real_sleep(.001)
            self.drain(end)

    def drain(self, end):
        """calm clients read what comes, so that no buffer fills up; are there any left?"""
        left = [c for c in self.calm if c.alive]
        for c in left:
            try:
                for n in range(5):
                    if not c.alive or real_monotonic() > end or not c._read(0):
                        break
            except OSError:
                c.alive = False
        return left

    def ended(self):
        """judge what every connection saw, until its end."""
        ctx = self.ctx
        end = real_monotonic() + LIMIT
        while self.drain(end) and real_monotonic() < end:
            real_sleep(.002)
        for c in self.calm:
            ctx.expect(not c.alive, lambda: "the connection of %s is not closed when the broker stops" % c.name)
            ctx.expect(not c.bad, lambda: "%s gets invalid data when the broker stops: %s" % (c.name, c.bad))
            ctx.count("connections ended")
            ds = [p for p in c.inbox if p["t"] == W.DISCONNECT]
            if c.v == 5:
                ctx.expect(len(ds) == 1 and ds[0]["rc"] == 0x8B, lambda: "%s gets %s when the broker stops" % (c.name, [W.show(p) for p in ds] or "no DISCONNECT"))
                ctx.expect(c.inbox[-1] is ds[0], lambda: "%s gets %s after the DISCONNECT" % (c.name, W.show(c.inbox[-1])))
                ctx.count("DISCONNECTs with reason")
        for s in self.others:
            sock = s.sock.sock if isinstance(s, Client) else s
            sock.settimeout(max(1, end - real_monotonic()))
            try:
                while sock.recv(1 << 20):
                    pass
            except socket.timeout:
                ctx.fail("a connection is not closed when the broker stops (clients: %s)" % ", ".join(sorted(self.doing)))
            except OSError:
                pass
            ctx.count("connections ended")

    def done(self):
        self.halt.set()
        for c in self.calm + self.others:
            try:
                c.kill() if isinstance(c, Client) else c.close()
            except (OSError, Violation):
                pass
        for t in self.threads:
            if isinstance(t, threading.Thread) and t.is_alive():
                t.join(5)


def serve(r, ctx, ls):
    """every listener does its work."""
    for k, p in ls:
        a = ("127.0.0.1", p)
        if k in ("mqtt", "tls"):
            c = connect(Tap(a), "again", r.choice([4, 5]), "tcp" if k == "mqtt" else "tls", a, r)
            if not c.ping():
                ctx.fail("no answer from the listener %s" % k)
            c.disconnect()
        elif k == "http":
            s = socket.create_connection(a, 10)
            s.settimeout(LIMIT)
            s.sendall(b"GET /api/v0001/clients HTTP/1.0\r\n\r\n")
            try:
                ctx.expect(b" 200 " in s.recv(100), "the HTTP listener does not answer after a restart")
            except OSError as e:
                ctx.fail("the HTTP listener does not answer after a restart: %r" % e)
            s.close()


def process(r, ctx):
    ls, lines = listeners(r)
    with Space() as space:
        tcp = [p for k, p in ls if k != "mqttsn"]
        b = space.run(lines)
        if not b.ready(tcp):
            raise HarnessError("the broker does not start: " + b.text()[-500:])
        crowd = Crowd(r, ctx, ls)
        sig = r.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT])
        try:
            crowd.go(r.choice([0, .001, .01, .05, .1]) * r.random())
            ctx.sim.log("-", "signal", sig.name)
            b.signal(sig)
            ctx.count("stopped by " + sig.name)
            crowd.ended()
            rc = b.wait(LIMIT)
            ctx.expect(rc is not None, lambda: "the process does not end within %d s after %s (clients: %s)" % (LIMIT, sig.name, ", ".join(sorted(crowd.doing))))
            ctx.expect(rc == 0, lambda: "the process ends with status %s after %s: %s" % (rc, sig.name, b.text()[-300:]))
        finally:
            crowd.done()
        if r.random() < .5:
            n = space.run(lines)
            ctx.expect(n.ready(tcp), lambda: "a broker can't be started again on the same ports: " + n.text()[-300:])
            serve(r, ctx, ls)
            n.signal()
            ctx.expect(n.wait(LIMIT) == 0, lambda: "the second process does not end well: " + n.text()[-300:])
            ctx.count("restarts")
        ctx.case((sig.name, tuple(sorted(k for k, p in ls)), tuple(sorted(crowd.doing))), "%s, listeners %s, clients %s" % (
            sig.name, [k for k, p in ls], sorted(crowd.doing)))


def inside(r, ctx):
    """brokers.run and brokers.stop, several times on the same ports."""
    ns = load(False)
    ls, lines = listeners(r, "mqtt")
    for turn in range(r.choice([1, 2, 3])):
        ns.TCPListeners.server = None
        failed = []

        def run():
            try:
                ns.start.run(lines)
            except BaseException as e:
                failed.append(e)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        end = real_monotonic() + 20
        while True:
            try:
                socket.create_connection(("127.0.0.1", ls[-1][1]), 1).close()
                if ns.TCPListeners.server and ns.TCPListeners.server.server_address[1] == ls[-1][1]:
                    break
            except OSError:
                pass
            ctx.expect(t.is_alive(), lambda: "the broker can't be started %s on the same ports: %r" % ("again" if turn else "", failed))
            if real_monotonic() > end:
                ctx.fail("the broker does not listen within 20 s after it was started")
            real_sleep(.01)
        crowd = Crowd(r, ctx, ls)
        try:
            if turn:
                serve(r, ctx, ls)
                ctx.count("restarts")
            # what waits inside of a packet is only ended with the process
            if "partial" in crowd.doing:
                for c in crowd.others:
                    c.kill() if isinstance(c, Client) else c.close()
                crowd.others = []
            crowd.go(r.choice([0, .01, .05]) * r.random())
            ctx.sim.log("-", "stop")
            ns.start.stop()
            ctx.count("stopped by stop()")
            crowd.ended()
            t.join(LIMIT)
            ctx.expect(not t.is_alive(), "brokers.run does not return after brokers.stop()")
            ctx.expect(not failed, lambda: "brokers.run ends with %r" % failed[0])
        finally:
            crowd.done()
        ctx.case(("stop", tuple(sorted(k for k, p in ls)), tuple(sorted(crowd.doing)), turn), "stop(), listeners %s, clients %s" % ([k for k, p in ls], sorted(crowd.doing)))


def scenario(r, ctx, idx):
    (inside if idx % 4 == 3 else process)(r, ctx)
