"""The repository's own client libraries under a scripted server: what they put on the wire and what they call back
is compared with a specification of the client role."""
import collections, os, sys, socket, threading, time, queue
from . import wire as W, gen, repofmt
from .runner import Violation
from .sim import HarnessError, IOP

WAIT = 12          # s of real time until a missing answer counts as missing
ACKS = (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP)


def lib(v):
    repofmt.load()
    import logging
    from mqtt.clients import V5, V311
    for n in ("mqtt-client", None):
        logging.getLogger(n).setLevel(logging.CRITICAL + 1)
    return V5 if v == 5 else V311


class Conn:
    """one accepted connection: a reader thread collects whole packets."""

    def __init__(self, s, v):
        self.s, self.v = s, v
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.q = queue.Queue()
        self.eof = threading.Event()
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        buf = b""
        try:
            while True:
                d = self.s.recv(65536)
                if not d:
                    break
                buf += d
                try:
                    whole, buf = W.split(buf)
                except W.Malformed as e:
                    self.q.put(e)
                    break
                for x in whole:
                    self.q.put(x)
        except OSError:
            pass
        if buf:
            self.q.put(W.Malformed("connection ends in the middle of a packet: %s" % buf[:60].hex()))
        self.q.put(None)
        self.eof.set()

    def next(self, what, wait=WAIT):
        try:
            x = self.q.get(timeout=wait)
        except queue.Empty:
            raise Violation("the client did not send %s" % what)
        if x is None:
            return None
        if isinstance(x, W.Malformed):
            raise Violation("the client sent an invalid packet stream: %s" % x)
        try:
            return W.decode(x, self.v)
        except W.Malformed as e:
            raise Violation("the client sent an invalid packet (%s): %s" % (e, x[:80].hex()))

    def send(self, raw):
        self.s.sendall(raw)

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


class Recorder:
    """the application: records callbacks, and declines messages on demand."""

    def __init__(self, rig):
        self.rig = rig

    def publishArrived(self, topic, payload, qos, retained, msgid, properties=None):
        m = ("msg", topic, bytes(payload), qos, bool(retained), msgid if qos else None,
             W.pdict(repofmt.get_props(properties)) if properties is not None else {})
        self.rig.seen.append(m)
        return self.rig.decisions.popleft() if self.rig.decisions else True

    def published(self, msgid):
        self.rig.seen.append(("published", msgid))

    def subscribed(self, msgid, codes):
        self.rig.seen.append(("subscribed", msgid, [getattr(c, "value", c) for c in codes]))

    def unsubscribed(self, msgid):
        self.rig.seen.append(("unsubscribed", msgid))

    def disconnected(self, reasoncode, properties):
        self.rig.seen.append(("disconnected", reasoncode.value, W.pdict(repofmt.get_props(properties))))


class Rig:
    """one library client, one scripted server and the specification between them."""

    def __init__(self, r, ctx, v, callback=True):
        self.r, self.ctx, self.v = r, ctx, v
        self.L = lib(v)
        self.M = repofmt.load()[0 if v == 5 else 1]
        self.listener = socket.socket()
        self.listener.bind(("127.0.0.1", 0))
        self.listener.listen(8)
        self.listener.settimeout(WAIT)
        self.port = self.listener.getsockname()[1]
        self.seen, self.trace = [], []
        self.decisions = collections.deque()     # what the application answers to the callbacks to come
        self.want_cb, self.want_acks, self.want_req, self.want_ret = [], [], [], []
        self.inq = {}        # QoS 2 identifiers received and not released -> message as it will be called back
        self.out = {}        # own identifiers under way -> [qos, state]
        self.subs = {}       # request identifiers under way -> (kind, number of filters)
        self.paused = False
        self.conn = None
        self.callback = callback
        self.client = self.L.Client("client-%d" % r.randrange(10 ** 6))
        if hasattr(self.client, "msgid") and r.random() < .6:
            self.client.msgid = r.choice([65520, 65530, 65533, 32760, 255, r.randrange(1, 65534)])      # as after a long life
        if callback:
            self.client.registerCallback(Recorder(self))
        self.pending = 0     # packets sent to a client without a receiver thread
        self.got = []
        ctx.sim = self

    def dump(self):
        return self.trace[-200:]

    def log(self, *a):
        self.trace.append(" ".join(x if isinstance(x, str) else W.show(x) if isinstance(x, dict) else repr(x) for x in a)[:600])

    def stop(self):
        try:
            if self.conn:
                self.conn.close()
        finally:
            self.listener.close()
            try:
                self.client.terminate()
            except Exception:
                pass

    # ---- calls of the library
    def call(self, what, fn, *a, **kw):
        self.log("call", what)
        try:
            return fn(*a, **kw)
        except Exception as e:
            raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))

    def props(self, ptype, plist):
        if self.v != 5:
            return None
        o = self.M.Properties(ptype)
        repofmt.set_props(o, plist)
        return o

    def connect(self, clean=True, ack=None, sp=False, refuse=None):
        r = self.r
        kw = {"cleanstart" if self.v == 5 else "cleansession": clean, "keepalive": gen.u16(r)}
        want = {"t": W.CONNECT, "proto": "MQTT", "ver": 5 if self.v == 5 else 4, "clean": clean, "keepalive": kw["keepalive"],
                "cid": self.client.clientid, "will": None, "username": None, "password": None}
        if r.random() < .4:
            w = {"qos": r.randrange(3), "retain": r.random() < .5, "topic": gen.topic(r), "payload": gen.blob(r)}
            kw.update(willFlag=True, willTopic=w["topic"], willMessage=w["payload"], willQoS=w["qos"], willRetain=w["retain"])
            want["will"] = w
            if self.v == 5:
                w["props"] = gen.props(r, W.WILL)
                kw["willProperties"] = self.props(self.M.PacketTypes.WILLMESSAGE, w["props"])
        if r.random() < .4:
            want["username"] = kw["username"] = gen.string(r, 1)
            if r.random() < .6:
                want["password"] = kw["password"] = gen.blob(r) or b"x"
        want["props"] = []
        if self.v == 5:
            want["props"] = gen.props(r, W.CONNECT) if r.random() < .5 else []
            kw["properties"] = self.props(W.CONNECT, want["props"])
        back = {"t": W.CONNACK, "sp": sp, "rc": refuse or 0, "props": gen.props(r, W.CONNACK) if self.v == 5 and r.random() < .4 else []}
        res = {}

        def serve():
            try:
                s, _ = self.listener.accept()
                self.newconn = Conn(s, self.v)
                res["got"] = self.newconn.next("CONNECT")
                self.newconn.send(W.encode(back, self.v))
            except BaseException as e:
                res["exc"] = e
        t = threading.Thread(target=serve, daemon=True)
        t.start()
        raised = None
        self.log("call connect", want)
        try:
            answer = self.client.connect("127.0.0.1", self.port, **kw)
        except Exception as e:
            raised = e
        t.join(WAIT + 5)
        if "exc" in res:
            raise res["exc"]
        self.conn = self.newconn
        self.expect(gen.canon(res["got"]) == gen.canon(want), lambda: "CONNECT is not what was asked for: asked %s, sent %s" %
                    (gen.canon(want), gen.canon(res["got"])))
        if refuse:
            self.expect(raised is not None, "connect() returned although the server refused with %d" % refuse)
            return None
        if raised is not None:
            raise Violation("connect() raised %s: %s although the server accepted" % (type(raised).__name__, raised))
        got = gen.canon((repofmt.read5 if self.v == 5 else repofmt.read3)(answer))
        self.expect(got == gen.canon(back), lambda: "connect() returned %s, the server sent %s" % (got, gen.canon(back)))
        if clean:
            self.inq, self.out = {}, {}
        self.subs = {}
        return answer

    def expect(self, cond, what):
        self.ctx.expect(cond, what)

    # ---- requests of the application
    def publish(self, qos=None, payload=None):
        r = self.r
        qos = r.randrange(3) if qos is None else qos
        if payload is None:
            payload = gen.blob(r) if self.v == 3 or r.random() < .6 else gen.string(r)
        retain = r.random() < .3
        topic = gen.topic(r)
        props = gen.props(r, W.PUBLISH) if self.v == 5 and r.random() < .5 else []
        props = [p for p in props if p[0] != 11]
        a = [topic, payload, qos, retain]
        if self.v == 5 and (props or r.random() < .3):
            a.append(self.props(W.PUBLISH, props))
        n = self.call("publish %r qos %d" % (topic, qos), self.client.publish, *a)
        want = {"t": W.PUBLISH, "dup": False, "qos": qos, "retain": retain, "topic": topic,
                "payload": payload.encode("utf-8") if isinstance(payload, str) else payload, "props": props}
        if qos:
            self.checkid(n)
            want["id"] = n
            self.out[n] = [qos, "sent"]
        self.want_req.append(want)
        return n

    def checkid(self, n):
        self.expect(isinstance(n, int) and 0 < n < 65536, lambda: "packet identifier %r" % (n,))
        self.expect(n not in self.out and n not in self.subs, lambda: "packet identifier %d is still under way" % n)

    def subscribe(self):
        r = self.r
        n = r.randrange(1, 4)
        fs = [gen.tfilter(r) for _ in range(n)]
        if self.v == 5:
            os_ = [{"qos": r.randrange(3), "nl": r.random() < .3, "rap": r.random() < .5, "rh": r.randrange(3)} for _ in fs]
            props = gen.props(r, W.SUBSCRIBE) if r.random() < .5 else []
            a = [fs, [self.M.SubscribeOptions(QoS=o["qos"], noLocal=o["nl"], retainAsPublished=o["rap"], retainHandling=o["rh"]) for o in os_]]
            if props or r.random() < .3:
                a.append(self.props(W.SUBSCRIBE, props))
            want = {"t": W.SUBSCRIBE, "subs": list(zip(fs, os_)), "props": props}
        else:
            qs = [r.randrange(3) for _ in fs]
            a = [fs, qs]
            want = {"t": W.SUBSCRIBE, "subs": list(zip(fs, qs))}
        want["id"] = self.call("subscribe %r" % fs, self.client.subscribe, *a)
        self.checkid(want["id"])
        self.want_req.append(want)
        self.subs[want["id"]] = ("sub", n)

    def unsubscribe(self):
        fs = [gen.tfilter(self.r) for _ in range(self.r.randrange(1, 4))]
        want = {"t": W.UNSUBSCRIBE, "filters": list(fs), "props": []}
        want["id"] = self.call("unsubscribe %r" % fs, self.client.unsubscribe, list(fs))
        self.checkid(want["id"])
        self.want_req.append(want)
        self.subs[want["id"]] = ("unsub", len(fs))

    # ---- packets of the server
    def server(self, p, ret=None):
        """send p to the client, in pieces; ret: what receive() shall return for it."""
        r = self.r
        raw = W.encode(p, self.v)
        self.log("server", p)
        self.ctx.count("server " + W.NAMES[p["t"]])
        self.want_ret.append(ret)
        self.pending += 1
        how = r.random()
        if how < .6:
            self.conn.send(raw)
        else:
            cuts = sorted(r.randrange(1, len(raw)) for _ in range(r.randrange(1, 4))) if len(raw) > 1 else []
            last = 0
            for c in cuts + [len(raw)]:
                if c > last:
                    self.conn.send(raw[last:c])
                    last = c
                    time.sleep(.001)
            self.ctx.count("packets sent in pieces")
        if not self.callback:
            self.got.append(self.call("receive()", self.client.receive))

    def slow(self, p, gap):
        """send p with a pause in its middle."""
        raw = W.encode(p, self.v)
        k = self.r.randrange(1, len(raw))
        self.log("server, slowly, cut at %d:" % k, p)
        self.conn.send(raw[:k])
        time.sleep(gap)
        self.conn.send(raw[k:])
        self.ctx.count("packets sent slowly")

    def ack(self, t, n, **kw):
        a = dict({"t": t, "id": n, "rc": 0, "props": []}, **kw)
        self.want_acks.append(a)

    def back(self, t, n, rc=0):
        r = self.r
        p = {"t": t, "id": n, "rc": rc, "props": []}
        if self.v == 5 and r.random() < .3:
            p["props"] = gen.props(r, t)
        if self.v == 5 and not p["props"] and r.random() < .5:
            p["form"] = r.choice(["props", "rc"])       # the longer forms of the same packet
        self.server(p)

    def message(self, qos=None, n=None, dup=False, again=None, decline=False, slow=None):
        """the server publishes."""
        r = self.r
        if again is None:
            qos = r.randrange(3) if qos is None else qos
            p = gen.packet(r, W.PUBLISH, self.v)
            p.update(qos=qos, dup=dup and bool(qos))
            p["props"] = [x for x in p.get("props", []) if x[0] != 35]
            p.pop("id", None)
            if qos:
                p["id"] = n or self.newid()
        else:
            p = dict(again, dup=True)
            qos = p["qos"]
        m = ("msg", p["topic"], p["payload"], qos, p["retain"], p.get("id"), W.pdict(p["props"]) if self.v == 5 else {})
        ret = None
        if not self.paused:
            if qos == 2:
                self.inq[p["id"]] = m
                self.ack(W.PUBREC, p["id"])
            else:
                self.want_cb.append(m)
                ret = m[1:6]
                self.decisions.append(not (decline and qos == 1))
                if qos == 1 and not decline:
                    self.ack(W.PUBACK, p["id"])
        if slow:
            self.slow(p, slow)
        else:
            self.server(p, ret)
        return p

    def release(self, n, decline=False):
        ret = None
        if n in self.inq:
            m = self.inq[n]
            self.want_cb.append(m)
            ret = m[1:6]
            self.decisions.append(not decline)
            if not decline:
                del self.inq[n]
                self.ack(W.PUBCOMP, n)
        else:
            self.ack(W.PUBCOMP, n, loose=True)
        p = {"t": W.PUBREL, "id": n, "rc": 0, "props": []}
        self.server(p, ret)

    def newid(self):
        while True:
            n = self.r.choice([1, 2, 255, 256, 65534, 65535, self.r.randrange(1, 65536)])
            if n not in self.inq:
                return n

    def advance_one(self):
        """the server takes one step in one of the client's handshakes."""
        r = self.r
        todo = [("o", n) for n, x in self.out.items() if not x[1].startswith("away")] + [("s", n) for n in self.subs]
        if not todo:
            return False
        kind, n = r.choice(todo)
        if kind == "s":
            what, k = self.subs.pop(n)
            codes = [r.choice(gen.SAFE_REASONS[W.SUBACK] if self.v == 5 else [0, 1, 2, 0x80]) for _ in range(k)]
            if what == "sub":
                self.want_cb.append(("subscribed", n, codes))
                self.server({"t": W.SUBACK, "id": n, "rcs": codes, "props": gen.props(r, W.SUBACK) if self.v == 5 else []})
            else:
                self.want_cb.append(("unsubscribed", n))
                codes = [r.choice(gen.SAFE_REASONS[W.UNSUBACK]) for _ in range(k)]
                p = {"t": W.UNSUBACK, "id": n}
                if self.v == 5:
                    p.update(rcs=codes, props=gen.props(r, W.UNSUBACK))
                self.server(p)
            return True
        qos, state = self.out[n]
        bad = [c for c in gen.SAFE_REASONS[W.PUBACK] if c >= 0x80]
        rc = 0
        if self.v == 5 and r.random() < .3:
            rc = r.choice(bad + [0x10])
        if qos == 1:
            del self.out[n]
            self.want_cb.append(("published", n))
            self.back(W.PUBACK, n, rc)
        elif state == "sent" or r.random() < .15:
            if rc >= 0x80 and state == "sent":
                del self.out[n]                          # refused: the exchange is over, no PUBREL
                self.want_cb.append(("published", n))
                self.ctx.count("refused QoS 2 publications")
            else:
                rc = 0 if rc >= 0x80 else rc
                self.out[n][1] = "released"
                self.ack(W.PUBREL, n)
            self.back(W.PUBREC, n, rc)
        else:
            del self.out[n]
            self.want_cb.append(("published", n))
            self.back(W.PUBCOMP, n)
        return True

    def sdisconnect(self):
        rc = self.r.choice([x for x in gen.SAFE_REASONS[W.DISCONNECT] if x != 4])
        props = [p for p in gen.props(self.r, W.DISCONNECT) if p[0] != 17]
        self.want_cb.append(("disconnected", rc, W.pdict(props)))
        self.server({"t": W.DISCONNECT, "rc": rc, "props": props})

    # ---- comparison
    def settle(self, barrier=True):
        """everything sent so far has been taken in: compare."""
        if barrier:
            while True:
                n = self.r.randrange(1, 65536)
                if n not in self.inq:
                    break
            self.release(n)
        acks, reqs = [], []
        while len(acks) < len(self.want_acks) or len(reqs) < len(self.want_req):
            missing = self.want_acks[len(acks):][:1] or self.want_req[len(reqs):][:1]
            p = self.conn.next(W.show(missing[0]))
            if p is None:
                raise Violation("the client closed the connection, %s is missing" % W.show(missing[0]))
            self.log("client", p)
            if p["t"] in ACKS:
                k = len(acks)
                acks.append(p)
                self.expect(k < len(self.want_acks), lambda: "acknowledgement which nothing asks for: %s" % W.show(p))
                w = self.want_acks[k]
                same = p["t"] == w["t"] and p["id"] == w["id"] and (self.v == 3 or p["rc"] == 0 or
                                                                    (w.get("loose") and p["rc"] == 0x92))
                self.expect(same, lambda: "answered with %s instead of %s" % (W.show(p), W.show(w)))
            else:
                k = len(reqs)
                reqs.append(p)
                self.expect(k < len(self.want_req), lambda: "the client sent %s on its own" % W.show(p))
                a, b = gen.canon(p), gen.canon(self.want_req[k])
                self.expect(a == b, lambda: "asked for %s, sent %s" % (b, a))
        extra = None
        try:
            extra = self.conn.q.get_nowait()
        except queue.Empty:
            pass
        self.expect(extra is None or extra is None, "")
        if extra is not None:
            raise Violation("the client sent one packet too many: %s" % (extra if isinstance(extra, Exception) else W.show(W.decode(extra, self.v))))
        if self.callback:
            # callbacks come before the acknowledgement of the same packet; the barrier's is the last of all
            self.compare(self.seen, self.want_cb, "called back")
            self.seen = []
        else:
            self.compare(self.got, self.tuples(), "receive() returned")
            self.got = []
        self.ctx.case((self.v, self.callback, self.paused, tuple(sorted((p["t"], p.get("qos"), p.get("rc")) for p in self.want_acks + self.want_req))[:12],
                       tuple(c[0] for c in self.want_cb)[:8]),
                      "%d callbacks, %d acknowledgements, %d requests compared; last callback %r" % (len(self.want_cb), len(self.want_acks), len(self.want_req), self.want_cb[-1:]))
        self.ctx.count("callbacks compared", len(self.want_cb))
        self.ctx.count("acknowledgements compared", len(self.want_acks))
        self.ctx.count("requests compared", len(self.want_req))
        self.want_cb, self.want_acks, self.want_req, self.want_ret = [], [], [], []

    def tuples(self):
        return self.want_ret

    def compare(self, got, want, what):
        got = list(got)
        if not self.callback:
            got = [None if g is None else (g[0], bytes(g[1]), g[2], bool(g[3]), g[4] if g[2] else None) for g in got]
        for k in range(max(len(got), len(want))):
            g = got[k] if k < len(got) else "nothing"
            w = want[k] if k < len(want) else "nothing"
            self.expect(g == w, lambda: "%s %r, expected %r (number %d)" % (what, g, w, k))

    def drain(self):
        """complete every handshake."""
        for n in list(self.inq):
            self.release(n)
        while self.advance_one():
            pass

    def goodbye(self):
        props, a = [], []
        if self.v == 5 and self.r.random() < .5:
            props = gen.props(self.r, W.DISCONNECT)
            a = [self.props(W.DISCONNECT, props)]
        self.call("disconnect()", self.client.disconnect, *a)
        p = self.conn.next("DISCONNECT")
        w = {"t": W.DISCONNECT, "rc": 0, "props": props}
        self.expect(p is not None and gen.canon(p) == gen.canon(w), lambda: "disconnect() sent %s instead of %s" % (p and W.show(p), W.show(w)))
        self.expect(self.conn.next("nothing, and close the connection") is None, "packet after DISCONNECT")
