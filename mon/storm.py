"""Many clients at the same time, each in a thread of its own, against the real broker.

The broker's threads are made to yield at random points inside their critical sections (at their log statements), so that
many interleavings are seen.  Each client records what it sent and received; offline checkers judge the logs afterwards.
"""
import logging, random, socket, threading, sys, collections, itertools
from . import wire as W, hostile
from .sim import HarnessError
from .clock import CLOCK, real_monotonic, real_sleep, real_select
from .runner import Violation

WAIT = 60.0         # no answer within this many real seconds is a violation


class Yield(logging.Handler):
    """preemption points: the broker logs in the middle of everything it does."""

    def __init__(self, seed, rate=.03):
        logging.Handler.__init__(self)
        self.r, self.rate, self.n = random.Random(seed), rate, 0
        self.on = True

    def createLock(self):
        self.lock = None        # it must not serialise the threads it is to disturb

    def handle(self, record):
        if self.on and self.r.random() < self.rate:
            self.n += 1
            real_sleep(self.r.choice([0, 0, .0002, .001]))
        return True

    def trace(self, frame, event, arg):
        """the other kind of preemption point: any line of the broker's code."""
        if "/mqtt/brokers/" not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.on and self.r.random() < self.rate * .1:
            self.n += 1
            real_sleep(self.r.choice([0, 0, 0, .0002, .001]))
        return self.line


class Peer:
    """a client: requests are sent from its thread, answers are recorded as they arrive."""

    def __init__(self, storm, cid, v, recvmax=None, se=100000, clean=False):
        self.storm, self.cid, self.v, self.recvmax, self.se, self.clean = storm, cid, v, recvmax, se, clean
        self.got = []               # (payload, qos, dup, retain, connection number, topic) of new deliveries
        self.dups = 0
        self.packets = 0
        self.q2 = set()             # QoS 2 identifiers received and not yet released (session state)
        self.answers = {}           # (type, id) -> packet
        self.n = 0
        self.conns = 0
        self.sock = None
        self.alive = False
        self.told = []

    def fail(self, what):
        raise Violation("%s: %s" % (self.cid, what))

    def connect(self, will=None, clean=None, patient=True):
        self.sock = socket.create_connection(self.storm.addr, 20)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.alive = True
        self.conns += 1
        self.answers.clear()
        self.alias = {}
        props = []
        if self.v == 5:
            props.append((17, self.se))
            if self.recvmax:
                props.append((33, self.recvmax))
            props.append((34, 3))
        self.clean1 = self.clean if clean is None else clean
        if self.clean1:
            self.q2.clear()
        self.send({"t": W.CONNECT, "clean": self.clean1, "keepalive": 0, "cid": self.cid, "will": will, "props": props,
                   "username": None, "password": None})
        p = self.wait(W.CONNACK, None, dead_ok=not patient)
        if p is None:
            return None
        if p["rc"] != 0:
            self.fail("CONNACK %d" % p["rc"])
        if not p["sp"]:
            self.q2.clear()
        return p

    def send(self, p):
        return self.raw(W.encode(p, self.v))

    def raw(self, b):
        try:
            self.sock.sendall(b)
            return True
        except OSError:
            return False

    def poll(self, t=0.0):
        """read what is there; False if nothing came."""
        if not self.alive or not real_select([self.sock], [], [], t)[0]:
            return False
        try:
            x = self.sock.recv(65536)
        except OSError:
            x = b""
        if not x:
            self.alive = False
            self.sock.close()
            return False
        self.buf += x
        try:
            ps, self.buf = W.split(self.buf)
            for raw in ps:
                self.on(W.decode(raw, self.v))
        except W.Malformed as e:
            self.fail("received bytes that are no valid packet: %s (%s)" % (e, x[:80].hex()))
        return True

    def on(self, p):
        t = p["t"]
        self.storm.events += 1
        self.packets += 1
        if t == W.PUBLISH:
            if self.v == 5:
                a = W.pget(p["props"], "TopicAlias")
                if a and p["topic"]:
                    self.alias[a] = p["topic"]
                elif a:
                    if a not in self.alias:
                        self.fail("unknown topic alias in %s" % W.show(p))
                    p["topic"] = self.alias[a]
            rec = (p["payload"], p["qos"], p["dup"], p["retain"], self.conns, p["topic"])
            if p["qos"] == 2:
                if p["id"] in self.q2:
                    self.dups += 1
                    if not p["dup"]:
                        self.fail("QoS 2 message sent again without DUP: %s" % W.show(p))
                else:
                    self.q2.add(p["id"])
                    self.got.append(rec)
                self.send({"t": W.PUBREC, "id": p["id"]})
            else:
                self.got.append(rec)
                if p["qos"] == 1:
                    self.send({"t": W.PUBACK, "id": p["id"]})
        elif t == W.PUBREL:
            self.q2.discard(p["id"])
            self.send({"t": W.PUBCOMP, "id": p["id"]})
        elif t == W.PUBREC and self.auto_rel:
            self.answers[(t, p["id"])] = p
            self.send({"t": W.PUBREL, "id": p["id"]})
        elif t == W.DISCONNECT:
            self.told.append(p["rc"])
        else:
            k = (t, p.get("id"))
            if k in self.answers and t not in (W.PINGRESP,):
                self.fail("a second answer: %s" % W.show(p))
            self.answers[k] = p

    auto_rel = True

    def wait(self, t, ident, dead_ok=False):
        end = real_monotonic() + WAIT
        while (t, ident) not in self.answers:
            self.poll(.05)
            if not self.alive and (t, ident) not in self.answers:
                if dead_ok:
                    return None
                self.fail("the broker closed the connection (%s) instead of sending %s" % (self.told, W.NAMES[t]))
            if real_monotonic() > end:
                self.fail("no %s within %d s" % (W.NAMES[t], WAIT))
        return self.answers.pop((t, ident))

    def id(self):
        self.n = self.n % 60000 + 1
        return self.n

    def ping(self, dead_ok=False):
        self.send({"t": W.PINGREQ})
        return self.wait(W.PINGRESP, None, dead_ok)

    def subscribe(self, subs, dead_ok=False, props=()):
        i = self.id()
        self.send({"t": W.SUBSCRIBE, "id": i, "props": list(props), "subs": [(f, {"qos": q} if self.v == 5 else q) for f, q in subs]})
        p = self.wait(W.SUBACK, i, dead_ok)
        if p is not None and list(p["rcs"]) != [q for _, q in subs]:
            self.fail("SUBACK %s for %s" % (p["rcs"], subs))
        return p

    def unsubscribe(self, filters, dead_ok=False):
        i = self.id()
        self.send({"t": W.UNSUBSCRIBE, "id": i, "props": [], "filters": filters})
        return self.wait(W.UNSUBACK, i, dead_ok)

    def publish(self, topic, payload, qos, retain=False):
        """send only; the answer is expected under final(qos), id."""
        p = {"t": W.PUBLISH, "topic": topic, "payload": payload, "qos": qos, "retain": retain, "dup": False, "props": []}
        if qos:
            p["id"] = self.id()
        self.send(p)
        return p.get("id")

    def quiet(self):
        """read until nothing else comes for a whole round trip."""
        while True:
            n = self.packets
            self.ping()
            if self.packets == n + 1:
                return

    def close(self):
        self.alive = False
        try:
            self.sock.close()
        except OSError:
            pass


FINAL = {1: W.PUBACK, 2: W.PUBCOMP}


class Storm:
    def __init__(self, r, ctx, sim, rate=.03, lines=False):
        self.lines = lines
        self.r, self.ctx, self.sim, self.addr = r, ctx, sim, sim.addr
        self.seed = r.random()
        self.events = 0
        self.errors = []
        self.crashes = []
        self.threads = []
        self.stop = threading.Event()
        self.sent = {}                  # payload -> dict(topic, qos, retain, start, end, pub, seq)
        self.lock = threading.Lock()
        self.yields = Yield(self.seed, rate)
        self.log = logging.getLogger("MQTT broker")

    def __enter__(self):
        self.oldsw = sys.getswitchinterval()
        sys.setswitchinterval(.0002)
        self.oldlog = self.log.handlers[:], self.log.level
        self.log.handlers[:] = [] if self.lines else [self.yields]
        self.log.setLevel(1)
        if self.lines:
            threading.settrace(self.yields.trace)
        self.oldhook = threading.excepthook

        def hook(a):
            self.crashes.append("%s: %r" % (a.thread.name if a.thread else "?", a.exc_value))
        threading.excepthook = hook
        return self

    def __exit__(self, *a):
        self.stop.set()
        self.yields.on = False
        sys.setswitchinterval(self.oldsw)
        threading.settrace(None)
        self.log.handlers[:], level = self.oldlog
        self.log.setLevel(level)
        threading.excepthook = self.oldhook

    def peer(self, *a, **k):
        return Peer(self, *a, **k)

    def spawn(self, fn, *a):
        r = random.Random("%s/%s" % (self.seed, len(self.threads)))

        def main():
            try:
                fn(r, *a)
            except Violation as v:
                self.errors.append(v)
            except Exception as e:      # a fault of the harness
                import traceback
                self.errors.append(RuntimeError(traceback.format_exc()))
        t = threading.Thread(target=main, daemon=True)
        self.threads.append(t)
        t.start()
        return t

    def join(self):
        end = real_monotonic() + 240
        for t in self.threads:
            t.join(max(.1, end - real_monotonic()))
            if t.is_alive():
                raise HarnessError("a client thread did not finish")
        self.raise_errors()

    def raise_errors(self):
        for e in self.errors:
            if isinstance(e, Violation):
                raise e
        if self.errors:
            raise self.errors[0]
        if self.crashes:
            raise Violation("a thread of the broker died: %s" % self.crashes[0])

    # ------------------------------------------------------------------ actors
    def publisher(self, r, name, v, count, topics, retained=(), window=15):
        c = self.peer(name, v, clean=True)
        c.connect()
        open_ = []
        for seq in range(count):
            q = r.choice([0, 1, 1, 2, 2])
            rt = bool(retained) and r.random() < .2
            topic = r.choice(retained if rt else topics)
            pay = b"%s:%d" % (name.encode(), seq)
            rec = dict(topic=topic, qos=q, retain=rt, pub=name, seq=seq, start=real_monotonic(), end=None)
            self.sent[pay] = rec
            i = c.publish(topic, pay, q, rt)
            if q:
                open_.append((q, i, rec))
            else:
                rec["end"] = float("inf")
            while len(open_) >= (window if r.random() < .7 else 1):
                q, i, rec1 = open_.pop(0)
                c.wait(FINAL[q], i)
                rec1["end"] = real_monotonic()
            if r.random() < .05:
                c.poll(.002)
        for q, i, rec1 in open_:
            c.wait(FINAL[q], i)
            rec1["end"] = real_monotonic()
        c.ping()
        for rec1 in list(self.sent.values()):
            if rec1["pub"] == name and rec1["end"] == float("inf"):
                rec1["end"] = real_monotonic()      # handled before the PINGRESP
        for k in c.answers:
            if k[0] != W.PUBREC:
                c.fail("an answer to nothing: %s %s" % (W.NAMES[k[0]], k[1]))
        c.send({"t": W.DISCONNECT})
        c.close()

    def subscriber(self, r, c, restless):
        """reads until told to stop; restless ones come and go."""
        while not self.stop.is_set():
            c.poll(.02)
            if restless and r.random() < .04:
                x = r.random()
                if x < .4:
                    c.send({"t": W.DISCONNECT})
                elif x < .7:
                    try:
                        c.sock.shutdown(socket.SHUT_WR)
                    except OSError:
                        pass
                if x < .7:
                    while c.alive:          # what is still on its way counts as received
                        c.poll(.5)
                    real_sleep(r.random() * .01)
                else:
                    self.ctx.count("connections abandoned")     # taken over by the next
                    old = c.sock
                    c.lost = True
                    c.sock = None
                    p = c.connect()
                    old.close()
                    if not p["sp"]:
                        c.fail("the session has gone")
                    continue
                p = c.connect()
                if not p["sp"]:
                    c.fail("the session has gone")
                self.ctx.count("reconnections")
            elif r.random() < .02:
                c.ping()
        c.quiet()

    def churner(self, r, c, topics, rounds):
        """one session with changing subscriptions, wills and connections; keeps account of what must remain."""
        c.subs = {}
        c.wills = []            # (payload, due)
        k = 0
        for n in range(rounds):
            if not c.alive:
                w = None
                if r.random() < .6:
                    k += 1
                    w = b"will:%s:%d" % (c.cid.encode(), k)
                clean = r.random() < .1
                c.connect(clean=clean, will=dict(qos=1, retain=False, topic="w/" + c.cid, payload=w, props=[]) if w else None)
                c.will1 = w
                if clean:
                    c.subs.clear()
            x = r.random()
            if x < .4:
                f = r.choice(topics)
                q = r.randrange(3)
                c.subscribe([(f, q)])
                c.subs[f] = q
            elif x < .6 and c.subs:
                f = r.choice(sorted(c.subs))
                c.unsubscribe([f])
                del c.subs[f]
            elif x < .7:
                c.ping()
            elif x < .75:
                c.send({"t": W.DISCONNECT})
                while c.alive:
                    c.poll(.5)
                if c.will1:
                    c.wills.append((c.will1, 0))
                if c.clean1 and c.v == 4:
                    c.subs.clear()
            elif x < .83:
                try:
                    c.sock.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
                while c.alive:
                    c.poll(.5)
                if c.will1:
                    c.wills.append((c.will1, 1))
                if c.clean1 and c.v == 4:
                    c.subs.clear()
            elif x < .87:
                name, mk, rcs = r.choice(hostile.violations(c.v, 2, 100000))
                if "big" in name or "large" in name or "lias" in name:
                    continue
                c.raw(mk(r))
                c.told = []
                end = real_monotonic() + WAIT
                while c.alive:
                    c.poll(.5)
                    if real_monotonic() > end:
                        c.fail("connection not closed after %s" % name)
                if c.will1:
                    c.wills.append((c.will1, 1))
                if c.clean1 and c.v == 4:
                    c.subs.clear()
                self.ctx.count("offences")
            else:
                c.poll(.002)
            c.poll(0)
        if not c.alive:
            c.connect(clean=False)
            c.will1 = None
        if c.will1:
            c.wills.append((c.will1, 0))

    def rivals(self, r, cid, v, rounds, ends):
        """connects again and again with a client id that others use too."""
        for n in range(rounds):
            c = self.peer(cid, v)
            if c.connect(patient=False) is not None:
                if r.random() < .5:
                    c.ping(dead_ok=True)
                if c.alive and r.random() < .5:
                    c.subscribe([("never", 1)], dead_ok=True)
                end = real_monotonic() + r.random() * .02
                while c.alive and real_monotonic() < end:
                    c.poll(.005)
            ends.append(c)

    def timekeeper(self, r):
        """virtual time goes on, so the broker's housekeeping runs beside everything else."""
        while not self.stop.is_set():
            if not CLOCK.advance(1.0):
                raise HarnessError("idle loops did not settle")
            self.ctx.count("virtual seconds in storms")
            real_sleep(r.random() * .02)

    def sleepers(self, r, name, rounds, wills):
        """connections that end and leave delayed wills and expiring sessions behind."""
        for n in range(rounds):
            cid = "%s-%d" % (name, n) if r.random() < .7 else name
            c = self.peer(cid, 5, se=r.choice([1, 2, 100, 0xFFFFFFFF]))
            w = b"will:%s:%d" % (name.encode(), n)
            c.connect(will=dict(qos=r.randrange(3), retain=False, topic="w/" + cid, payload=w, props=[(24, r.randrange(4))]))
            if r.random() < .5:
                c.subscribe([("never", 1)])
            try:
                c.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            while c.alive:
                c.poll(.5)
            # another connection in time takes a delayed will back
            wills.append((w, {1} if cid != name else {0, 1}))
            real_sleep(r.random() * .02)

    def vandal(self, r, rounds):
        for n in range(rounds):
            try:
                s = socket.create_connection(self.addr, 20)
                s.sendall(r.choice(hostile.first_packets(r))[1])
                if r.random() < .5:
                    s.shutdown(socket.SHUT_WR)
                elif r.random() < .5:
                    real_select([s], [], [], .01)
                s.close()
            except OSError:
                pass
            self.ctx.count("hostile connections")

    # ------------------------------------------------------------------ judging
    def judge_subscriber(self, c, filt, exact, order=True):
        """exact: never disconnected, so everything came exactly once."""
        times = collections.Counter()
        last = {}
        for pay, qos, dup, retain, conn, topic in c.got:
            rec = self.sent.get(pay)
            if rec is None:
                if pay[:5] in (b"will:", b"probe"):
                    continue
                raise Violation("%s received a message nobody sent: %r on %s" % (c.cid, pay, topic))
            if topic != rec["topic"]:
                raise Violation("%s received %r on topic %s, published was %s" % (c.cid, pay, topic, rec["topic"]))
            if qos != rec["qos"]:
                raise Violation("%s received %r at QoS %d, published was %d" % (c.cid, pay, qos, rec["qos"]))
            if retain:
                raise Violation("%s received %r with RETAIN" % (c.cid, pay))
            times[pay] += 1
            if times[pay] > 1:
                if qos == 1 and dup and not exact:
                    continue
                raise Violation("%s received %r %d times (QoS %d, DUP %s, connection %d)" % (c.cid, pay, times[pay], qos, dup, conn))
            k = (rec["pub"], topic, qos)
            if order and rec["seq"] < last.get(k, -1):
                raise Violation("%s received %r after message %d of the same publisher, topic and QoS" % (c.cid, pay, last[k]))
            last[k] = max(last.get(k, -1), rec["seq"])
            self.ctx.count("deliveries in storms")
        for pay, rec in self.sent.items():
            if filt(rec["topic"]) and (rec["qos"] or exact) and not times[pay]:
                raise Violation("%s did not receive %r (QoS %d on %s)" % (c.cid, pay, rec["qos"], rec["topic"]))
            if times[pay] and not filt(rec["topic"]):
                raise Violation("%s received %r on %s without a subscription" % (c.cid, pay, rec["topic"]))

    def judge_wills(self, wills, watcher):
        n = collections.Counter(g[0] for g in watcher.got)
        for pay, due in wills:
            if n[pay] not in (due if isinstance(due, set) else {due}):
                raise Violation("the will %r was published %d times, expected %s" % (pay, n[pay], due))
            self.ctx.count("wills judged")

    def judge_retained(self, topics):
        """what is retained is the last publication of some order that agrees with real time."""
        c = self.peer("retained-reader", 5, clean=True)
        c.connect()
        c.subscribe([(t, 2) for t in topics])
        c.quiet()
        got = {}
        for pay, qos, dup, retain, conn, topic in c.got:
            if topic in got or not retain:
                raise Violation("retained messages on %s: %r and %r" % (topic, got.get(topic), pay))
            got[topic] = pay
        for t in topics:
            all_ = {p: x for p, x in self.sent.items() if x["retain"] and x["topic"] == t}
            if not all_:
                continue
            latest = max(x["start"] for x in all_.values())
            ok = {p for p, x in all_.items() if not any(y["start"] > x["end"] for y in all_.values())}
            if got.get(t) not in ok:
                raise Violation("retained on %s is %r, possible are %s" % (t, got.get(t), sorted(ok)))
            self.ctx.count("retained topics judged")
        c.close()

    def judge_subs(self, c, topics):
        """the subscriptions a session has ended up with, found out with probes."""
        p = self.peer("prober", 5, clean=True)
        p.connect()
        mark = len(c.got)
        for t in topics:
            i = p.publish(t, b"probe:" + t.encode(), 2)
            p.wait(W.PUBCOMP, i)
        p.close()
        c.quiet()
        have = {(g[0], g[1]) for g in c.got[mark:] if g[0].startswith(b"probe")}
        want = {(b"probe:" + t.encode(), q) for t, q in c.subs.items()}
        if have != want:
            raise Violation("%s: subscriptions show %s, expected %s" % (c.cid, sorted(have), sorted(want)))
        self.ctx.count("sessions probed")
