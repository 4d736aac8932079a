"""C38: reinitialising clears everything"""
import contextlib, io, socket, sys, threading
from mon import wire as W, sn
from mon.drive import Drive, TOPICS, FILTERS
from mon.sim import free_port, Client
from mon.clock import real_sleep, real_monotonic, real_select
from mon.suite import *

ID = "C38"
RULE = ("one evaluation = one history before a reinitialisation, the reinitialisation (idle or while packets arrive), and a history after it with the same client "
        "identifiers, topics and filters judged by a fresh trace specification, or one look for remains after a reinitialisation under load; distinct = (features "
        "exercised after it, deliveries/4) or (what was under way)")
ASSUMPTIONS = ("a connection from before has no session any more: it may be closed or stay silent, but nothing it sends has an effect; the specification in mon/model.py "
               "reads the standards correctly")
PLAN = {"quick": 260, "thorough": 9000}
REACH = {"distinct": 120, "connections from before": 300, "sessions from before": 500, "retained from before": 300, "wills from before": 100, "in flight from before": 50,
         "packets of old connections": 300, "reinitialised under load": 30, "reinitialised twice": 20, "shared subscriptions from before": 50, "SN connections again": 15}


class Old:
    """a connection made before."""

    def __init__(self, d, c):
        self.d, self.sock, self.v, self.name, self.buf = d, c.sock, c.v, c.name, b""
        self.open = True

    def look(self):
        """what came since: a delivery would be an effect of the forgotten session."""
        while self.open:
            r, _, _ = real_select([self.sock], [], [], 0)
            if not r:
                return
            try:
                b = self.sock.recv(65536)
            except OSError:
                b = b""
            if not b:
                self.open = False
                self.sock.close()
                return
            self.buf += b
            pkts, self.buf = W.split(self.buf)
            for raw in pkts:
                p = W.decode(raw, self.v)
                self.d.sim.log("old " + self.name, "gets", W.show(p))
                self.d.ctx.expect(p["t"] in (W.DISCONNECT, W.PINGRESP),
                                  lambda: "after the reinitialisation the connection of %s from before gets %s" % (self.name, W.show(p)))

    def act(self):
        r = self.d.r
        if not self.open:
            return
        x = r.random()
        if x < .25:
            self.d.sim.log("old " + self.name, "closes")
            self.close()
            return
        p = r.choice([{"t": W.PINGREQ}, {"t": W.PUBLISH, "topic": r.choice(TOPICS), "payload": b"old", "qos": 0, "retain": r.random() < .5, "dup": False, "props": []},
                      {"t": W.PUBLISH, "topic": r.choice(TOPICS), "payload": b"old", "qos": 1, "id": 7, "retain": r.random() < .5, "dup": False, "props": []},
                      {"t": W.SUBSCRIBE, "id": 9, "props": [], "subs": [("#", {"qos": 1} if self.v == 5 else 1)]},
                      {"t": W.PUBREL, "id": r.randrange(1, 4)}, {"t": W.PUBREC, "id": r.randrange(1, 4)}, {"t": W.PUBACK, "id": r.randrange(1, 4)},
                      {"t": W.UNSUBSCRIBE, "id": 9, "props": [], "filters": FILTERS[:3]},
                      {"t": W.DISCONNECT, "rc": r.choice([0, 4]) if self.v == 5 else 0, "props": []}])
        self.d.sim.log("old " + self.name, "sends", W.show(p))
        try:
            self.sock.sendall(W.encode(p, self.v))
        except OSError:
            pass
        self.d.ctx.count("packets of old connections")
        end = real_monotonic() + .5
        while self.open and real_monotonic() < end:      # mostly the broker closes the connection
            real_select([self.sock], [], [], .1)
            self.look()
            if p["t"] == W.PINGREQ:
                break

    def close(self):
        self.look()
        if self.open:
            self.open = False
            try:
                self.sock.shutdown(socket.SHUT_WR)
                self.sock.settimeout(10)
                while self.sock.recv(65536):
                    pass
            except OSError:
                pass
            self.sock.close()


class D(Drive):
    old = ()
    names = 0

    def op_old(self):
        os = [o for o in self.old if o.open]
        if os:
            self.r.choice(os).act()
        for o in self.old:
            o.look()

    def reinit(self):
        self.step()
        m, ctx = self.m, self.ctx
        ctx.count("sessions from before", len(m.sess))
        ctx.count("retained from before", len(m.retained))
        ctx.count("wills from before", sum(s.will is not None or s.pending_will is not None for s in m.sess.values()))
        ctx.count("in flight from before", sum(bool(s.inflight or s.queue or s.inq2) for s in m.sess.values()))
        ctx.count("shared subscriptions from before", sum(x.share is not None for s in m.sess.values() for x in s.subs.values()))
        self.old = list(self.old)
        for c in self.up():
            if self.r.random() < .2:
                c.drop()
                self.step()
        for c in self.clients:
            if c.sock is not None and c.alive:
                self.old.append(Old(self, c))
                ctx.count("connections from before")
                c.sock = None
                c.alive = c.connected = False
            else:
                c.kill()
        self.sim.log("-", "reset")
        self.sim.ns.start.reinitialize()
        self.m.feed(self.sim.trace)
        self.m.feats.clear()
        self.m.delivered = 0


def scenario(r, ctx, idx):
    if idx % 4 == 3:
        return load(r, ctx)
    prof = dict(v5=r.choice([.3, .6, .9]), steps=(12, 25), will=.5, will_delay=.4, retain=.3, persistent=.8, share=.15, manual=.5, hold=.3, qos=(1, 2, 2), expiry=.1,
                clients=(3, 5), session_expiry=(0, 30, 1000, 0xFFFFFFFF), keepalive=.3)
    config = []
    port = None
    if r.random() < .25:
        port = free_port(socket.SOCK_DGRAM)
        config = ["listener %d 127.0.0.1 mqttsn" % port]
    with contextlib.redirect_stderr(io.StringIO()):
        d = D(r, ctx, prof, config=config)
        s = None
        if port:
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.bind(("127.0.0.1", 0))
            s.settimeout(15)
            sn_connect(ctx, s, port)
        times = r.choice([1, 1, 1, 2])
        if times == 2:
            ctx.count("reinitialised twice")
        try:
            for n in range(times + 1):
                if n == 0:
                    d.start()
                else:
                    d.reinit()
                    if s:
                        sn_connect(ctx, s, port)
                        ctx.count("SN connections again")
                    d.p["ops"] = dict(d.p["ops"], old=25, connect=25, advance=4)
                    # the same clients, of either version, again
                    for c in d.clients:
                        c.v = 5 if r.random() < d.p["v5"] else 4
                names, weights = zip(*d.p["ops"].items())
                for _ in range(r.randint(*d.p["steps"])):
                    getattr(d, "op_" + r.choices(names, weights)[0])()
                    d.step()
            d.op_old()
            d.finish()
            d.op_old()
        finally:
            for o in d.old:
                if o.open:
                    o.sock.close()
            if s:
                s.close()


def sn_connect(ctx, s, port):
    s.sendto(sn.encode({"t": sn.CONNECT, "proto": 1, "duration": 0, "cid": "sn-a",
                        "flags": {"dup": False, "qos": 0, "retain": False, "will": False, "clean": True, "tit": 0}}), ("127.0.0.1", port))
    try:
        p = sn.decode(s.recv(1000))[0]
    except OSError:
        ctx.fail("an MQTT-SN client gets no answer to its connect request")
    ctx.expect(p["t"] == sn.CONNACK and p["rc"] == 0, lambda: "connect request of an MQTT-SN client is answered with %s" % sn.show(p))


def delays(d, r):
    """a thread may be held up between any two steps: here between the parts of a reinitialisation."""
    def wrap(f, before, after):
        def g(*a, **k):
            real_sleep(before)
            f(*a, **k)
            real_sleep(after)
        return g
    for name in ("broker3", "broker5", "brokerSN"):
        b = getattr(d.sim.ns.start, name, None)
        for x in (b, getattr(b, "broker", None)):
            if hasattr(x, "reinitialize"):
                x.reinitialize = wrap(x.reinitialize, r.choice([0, 0, .005, .02]), r.choice([0, 0, .005, .02]))


class Unrecorded:
    """stands for the Sim of clients which are no part of the history."""

    def __init__(self, addr):
        self.addr = addr

    def log(self, *args, **kw):
        pass


def load(r, ctx):
    """reinitialise while packets are being handled: nothing of the connections from before may be left, and sessions made meanwhile
    are either forgotten or complete."""
    interval = sys.getswitchinterval()
    kinds = r.choice([("retain",), ("sub",), ("will",), ("new",), ("retain", "new"), ("sub", "new"), ("retain", "sub", "will"), ("retain", "sub", "will", "new")])
    stop = threading.Event()
    made, errors = [], []

    def pump(c, q):
        """packets on a connection from before, until the broker ends it."""
        b = b""
        for j in range(200):
            if "retain" in kinds:
                b += W.encode({"t": W.PUBLISH, "topic": c.name + "/%d" % j, "payload": b"x", "qos": 0, "retain": True, "dup": False, "props": []}, c.v)
            if "sub" in kinds:
                b += W.encode({"t": W.SUBSCRIBE, "id": 1 + j, "props": [], "subs": [("a/%d/#" % j, {"qos": 0} if c.v == 5 else 0)]}, c.v)
        try:
            while not stop.is_set() and b:
                n = q.randrange(1, 2000)
                c.sock.sendall(b[:n])
                b = b[n:]
            if "will" not in kinds:
                while not stop.is_set():
                    if real_select([c.sock], [], [], .05)[0] and not c.sock.recv(9999):
                        break
        except OSError:
            pass
        finally:
            c.sock.close()

    def make(k, q):
        """new sessions, one after the other, each with a subscription."""
        j = 0
        try:
            while not stop.is_set():
                c = Client(Unrecorded(d.sim.addr), "n%d.%d" % (k, j), q.choice([4, 5]))
                j += 1
                if c.connect(clean=False, props=[(17, 1000)] if c.v == 5 else []) and c.subscribe([("own/" + c.name, {"qos": 0} if c.v == 5 else 0)]):
                    made.append(c)
                c.kill()
        except Exception as e:
            errors.append(e)

    with contextlib.redirect_stderr(io.StringIO()):
        d = new(r, ctx)
        ts = []
        for k in range(r.randrange(1, 4)):
            v = r.choice([4, 5])
            c = join(d, "l%d" % k, v, will={"qos": 0, "retain": True, "topic": "w%d" % k, "payload": b"w", "props": []} if "will" in kinds else None)
            ts.append(threading.Thread(target=pump, args=(c, type(r)(r.random())), daemon=True))
        before = list(d.clients)
        if "new" in kinds:
            ts += [threading.Thread(target=make, args=(k, type(r)(r.random())), daemon=True) for k in range(r.randrange(1, 4))]
        sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4, interval]))
        try:
            for t in ts:
                t.start()
            real_sleep(r.random() * .03)
            if r.random() < .7:
                delays(d, r)
            for _ in range(r.choice([1, 1, 2])):
                try:
                    d.sim.ns.start.reinitialize()
                except Exception as e:
                    ctx.fail("reinitialisation while packets arrive fails: %r" % e)
            real_sleep(r.random() * .02)
        finally:
            stop.set()
            for t in ts:
                t.join(20)
            sys.setswitchinterval(interval)
        if errors:
            raise errors[0]
        for _ in range(1000):       # until the connections are finished with
            if not any("process_request_thread" in t.name for t in threading.enumerate()):
                break
            real_sleep(.01)
        else:
            ctx.fail("after a reinitialisation the broker does not finish with connections which have ended")
        d.sim.log("-", "reset")
        for c in before:
            c.sock, c.alive, c.connected = None, False, False
        d.m.feed(d.sim.trace)
        ctx.count("sessions made meanwhile", len(made))
        for c in made[-12:]:
            c.connect(clean=False, props=[(17, 1000)] if c.v == 5 else [])
            sp = c.connack["sp"]
            c.publish("own/" + c.name, b"1", 0)
            c.ping()
            got = [p for p in c.inbox if p["t"] == W.PUBLISH]
            ctx.expect(len(got) == int(sp), lambda: "a session made during a reinitialisation is %s, but its subscription is %s" % (
                "resumed" if sp else "forgotten", "active" if got else "lost"))
            ctx.count("sessions kept" if sp else "sessions forgotten")
            c.disconnect()
        s = join(d, "s", 5)
        s.subscribe([("#", {"qos": 1})])
        d.step()
        for c in before:
            c.v = r.choice([4, 5])
            c.connect(clean=False, props=[(17, 1000)] if c.v == 5 else [])
            d.step()
            for t in ("a/0", "a/1", "a/50", "a/199"):
                c.publish(t, b"new", 0)
                d.step()
        done(d)
        ctx.count("reinitialised under load")
        ctx.case(("load", kinds, len(before)), "reinitialised while %d clients do %s" % (len(before), ", ".join(kinds)))
