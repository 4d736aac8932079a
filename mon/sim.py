"""The real broker, run in-process through its public entry point (start.run),
plus raw-socket clients that record every byte boundary event."""
import os, sys, socket, struct, threading, logging, types

from . import wire as W
from .runner import Violation
from .clock import CLOCK, real_monotonic, real_sleep, real_select

REPO = os.environ.get("MON_REPO", "/repo")
IOP = os.path.join(REPO, "interoperability")


class HarnessError(Exception):
    """the harness itself could not get an answer (inconclusive, never a verdict)."""


_loaded = None


def load(virtual=True):
    """import the repository's packages from the current working tree."""
    global _loaded
    if _loaded:
        return _loaded
    sys.dont_write_bytecode = True
    if virtual:
        CLOCK.install()
    if IOP not in sys.path:
        sys.path.insert(0, IOP)
    import signal
    real_signal = signal.signal

    def tsignal(sig, h):
        if threading.current_thread() is threading.main_thread():
            return real_signal(sig, h)
        return None
    signal.signal = tsignal
    ns = types.SimpleNamespace()
    from mqtt.brokers import start
    from mqtt.brokers.listeners import TCPListeners, UDPListeners, HTTPListeners
    ns.start, ns.TCPListeners, ns.UDPListeners, ns.HTTPListeners = start, TCPListeners, UDPListeners, HTTPListeners
    logging.getLogger("MQTT broker").addHandler(logging.NullHandler())
    logging.getLogger("MQTT broker").propagate = False
    _loaded = ns
    return ns


def free_port(kind=socket.SOCK_STREAM):
    s = socket.socket(socket.AF_INET, kind)
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Sim:
    """one broker instance and its trace."""

    def __init__(self, config=(), extra_listeners=(), virtual=True, options=None):
        self.ns = load(virtual)
        self.options = options
        self.trace = []
        self.clients = []
        self.config = list(config) + list(extra_listeners) + ["listener 0 127.0.0.1"]
        T = self.ns.TCPListeners
        T.server = None
        self.virtual = virtual
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.error = None
        self.thread.start()
        end = real_monotonic() + 20
        others = {int(l.split()[1]) for l in self.config[:-1] if l.startswith("listener ")} | {0}
        while True:
            srv = T.server
            if srv is not None and hasattr(srv, "terminate") and srv.server_address[1] not in others:
                try:
                    s = socket.create_connection(srv.server_address, 1)
                    s.close()
                    break
                except OSError:
                    pass
            if not self.thread.is_alive():
                raise Violation("the broker did not start with the configuration %s: %r" % (self.config, self.error))
            if real_monotonic() > end:
                raise Violation("the broker did not start to listen within 20 s with the configuration %s" % self.config)
            real_sleep(0.001)
        self.server = T.server
        self.addr = self.server.server_address

    def _run(self):
        try:
            if self.options:
                # options without a configuration keyword: set where the keywords are read
                start, orig = self.ns.start, self.ns.start.process_config

                def process_config(config, options):
                    servers, options = orig(config, options)
                    options.update(self.options)
                    start.process_config = orig
                    return servers, options
                start.process_config = process_config
            self.ns.start.run(self.config)
        except BaseException as e:  # noqa
            self.error = e

    # ----------------------------------------------------------------- trace
    def log(self, client, kind, pkt=None, raw=None):
        ev = (len(self.trace), round(CLOCK.now, 3), client, kind, pkt)
        self.trace.append(ev)
        return ev

    def dump(self, last=400):
        return ["%d t=%s %s %s %s" % (n, t, c, k, W.show(p) if isinstance(p, dict) else (p.hex() if isinstance(p, bytes) else p))
                for n, t, c, k, p in self.trace[-last:]]

    def advance(self, dt, step=None):
        self.log("-", "advance", "%s" % dt)
        if not CLOCK.advance(dt, step):
            raise Violation("the threads of the broker's idle connections have stopped for 20 s")
        self.log("-", "advanced")

    def client(self, name, v=5, **kw):
        c = Client(self, name, v, **kw)
        self.clients.append(c)
        return c

    def barrier(self, rounds=200):
        """ping every connected client until a whole round brings nothing new."""
        for c in self.clients:      # first everything sent must have been handled,
            if c.dirty and c.sock is not None and c.alive and c.connected and not c.quiet:
                c.ping()
        for _ in range(rounds):     # then everything sent to anyone must have been read
            before = len(self.trace)
            extra = 0
            for c in self.clients:
                if c.sock is not None and c.alive and c.connected and not c.quiet:
                    c.ping()
                    extra += 2
                elif c.sock is not None:
                    c.pump()
            if len(self.trace) - before <= extra:
                return
        return

    def stop(self):
        for c in self.clients:
            c.kill()
        def close():
            try:
                self.server.terminate = True
                self.server.shutdown()
                self.server.server_close()
                end = real_monotonic() + 8
                while real_monotonic() < end and any("process_request_thread" in x.name for x in threading.enumerate()):
                    real_sleep(.005)            # the threads of the connections
            except Exception:
                pass
        t = threading.Thread(target=close, daemon=True)
        t.start()
        t.join(10)
        with CLOCK.cond:            # let the broker's cleanup thread leave its sleep
            CLOCK.now += 2
            CLOCK.cond.notify_all()
        self.thread.join(5)
        with CLOCK.cond:
            CLOCK.now += 2
            CLOCK.cond.notify_all()


class Client:
    """raw MQTT client: sends packet dicts, records everything received.

    ack: 'auto' acknowledges every QoS>0 PUBLISH at once; 'manual' leaves it to
    the workload (methods puback/pubrec/pubcomp via send)."""

    def __init__(self, sim, name, v=5, cid=None, ack="auto", timeout=20.0):
        self.sim, self.name, self.v, self.cid, self.ack = sim, name, v, name if cid is None else cid, ack
        self.sock = None
        self.alive = False
        self.connected = False
        self.buf = b""
        self.inbox = []      # packets received on the current connection, in order
        self.connack = None
        self.timeout = timeout
        self.nextid = 1
        self.closed_by_broker = False
        self.bad = None      # Malformed exception if the broker sent garbage
        self.aliases = {}
        self.dirty = False
        self.dial = None     # makes a link (transport.py) instead of a plain socket
        self.quiet = False   # the barrier does not ping it

    # ------------------------------------------------------------ transport
    def open(self):
        if self.dial:
            self.sock = self.dial()
        else:
            try:
                self.sock = socket.create_connection(self.sim.addr, 20)
            except OSError as e:
                raise Violation("%s: no connection to the broker: %s" % (self.name, e))
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.alive = True
        self.connected = False
        self.buf = b""
        self.inbox = []
        self.connack = None
        self.closed_by_broker = False
        self.aliases = {}
        return self

    def write(self, data):
        try:
            self.sock.sendall(data)
            return True
        except OSError:
            return False

    def send(self, pkt):
        self.sim.log(self.name, ">", pkt)
        self.dirty = True
        return self.write(W.encode(pkt, self.v))

    def send_raw(self, data):
        self.sim.log(self.name, ">raw", bytes(data[:300]))
        self.dirty = True
        return self.write(data)

    def _read(self, wait):
        """read once (up to wait seconds); returns False at EOF / nothing."""
        if self.sock is None or not self.alive:
            return False
        if hasattr(self.sock, "receive"):
            d = self.sock.receive(wait)
            if d is None:
                return False
        else:
            r, _, _ = real_select([self.sock], [], [], wait)
            if not r:
                return False
            try:
                d = self.sock.recv(65536)
            except OSError:
                d = b""
        if d == b"":
            self.alive = False
            self.connected = False
            self.closed_by_broker = True
            self.sim.log(self.name, "eof")
            return False
        self.buf += d
        try:
            pkts, self.buf = W.split(self.buf)
        except W.Malformed as e:
            self.bad = e
            self.sim.log(self.name, "bad", str(e))
            return False
        for raw in pkts:
            self._arrived(raw)
        return True

    def _arrived(self, raw):
        try:
            p = W.decode(raw, self.v)
        except W.Malformed as e:
            self.bad = self.bad or e
            self.sim.log(self.name, "bad", "%s %s" % (e, raw.hex()))
            return
        p["size"] = len(raw)
        if p["t"] == W.PUBLISH and self.v == 5:
            al = W.pget(p["props"], "TopicAlias")
            p["rawtopic"] = p["topic"]
            if al is not None:
                if p["topic"]:
                    self.aliases[al] = p["topic"]
                elif al in self.aliases:
                    p["topic"] = self.aliases[al]
                else:
                    p["badalias"] = True
            elif not p["topic"]:
                p["badalias"] = True
        self.sim.log(self.name, "<", p)
        self.inbox.append(p)
        if p["t"] == W.CONNACK:
            self.connack = p
            self.connected = p["rc"] == 0
        if self.ack == "auto":
            if p["t"] == W.PUBLISH and p["qos"] == 1:
                self.send({"t": W.PUBACK, "id": p["id"]})
            elif p["t"] == W.PUBLISH and p["qos"] == 2:
                self.send({"t": W.PUBREC, "id": p["id"]})
            elif p["t"] == W.PUBREL:
                self.send({"t": W.PUBCOMP, "id": p["id"]})

    def pump(self, wait=0.0):
        while self._read(wait):
            pass

    def wait_for(self, pred, timeout=None, start=0):
        """read until pred(packet) holds for a packet at or after inbox[start]; None on EOF/timeout."""
        end = real_monotonic() + (timeout or self.timeout)
        i = start
        turns = 0
        while True:
            while i < len(self.inbox):
                if pred(self.inbox[i]):
                    return self.inbox[i]
                i += 1
            if not self.alive or self.bad:
                return None
            left = end - real_monotonic()
            turns += 1
            if left <= 0 and turns > 2 * (timeout or self.timeout):     # this process was running all the time
                self.sim.log(self.name, "timeout")
                raise Violation("%s: no answer from the broker within %d s" % (self.name, timeout or self.timeout))
            self._read(max(.01, min(left, 0.25)))

    # ------------------------------------------------------------ operations
    def connect(self, clean=True, keepalive=0, props=None, will=None, username=None, password=None, **kw):
        self.open()
        p = {"t": W.CONNECT, "clean": clean, "keepalive": keepalive, "cid": self.cid, "will": will,
             "props": props or [], "username": username, "password": password, "_v": self.v}
        p.update(kw)
        self.send(p)
        self.wait_for(lambda q: q["t"] == W.CONNACK)
        return self.connack

    def newid(self):
        i = self.nextid
        self.nextid = i + 1 if i < 65535 else 1
        return i

    def ping(self):
        """True if the broker answered; everything sent before the answer is in inbox."""
        mark = len(self.inbox)
        self.send({"t": W.PINGREQ})
        ok = self.wait_for(lambda p: p["t"] == W.PINGRESP, start=mark) is not None
        self.dirty = False
        return ok

    def subscribe(self, subs, props=None, ident=None):
        """subs: [(filter, options)]; returns the SUBACK."""
        i = ident or self.newid()
        mark = len(self.inbox)
        self.send({"t": W.SUBSCRIBE, "id": i, "subs": subs, "props": props or []})
        return self.wait_for(lambda p: p["t"] == W.SUBACK and p["id"] == i, start=mark)

    def unsubscribe(self, filters, props=None):
        i = self.newid()
        mark = len(self.inbox)
        self.send({"t": W.UNSUBSCRIBE, "id": i, "filters": filters, "props": props or []})
        return self.wait_for(lambda p: p["t"] == W.UNSUBACK and p["id"] == i, start=mark)

    def publish(self, topic, payload=b"", qos=0, retain=False, props=None, ident=None, dup=False, complete=True):
        """complete the handshake unless complete=False; returns (ack packets)."""
        p = {"t": W.PUBLISH, "topic": topic, "payload": payload, "qos": qos, "retain": retain,
             "props": props or [], "dup": dup}
        if qos:
            p["id"] = ident or self.newid()
        mark = len(self.inbox)
        self.send(p)
        if qos == 0 or not complete:
            return p
        i = p["id"]
        if qos == 1:
            return self._ackwait(W.PUBACK, i, mark)
        rec = self._ackwait(W.PUBREC, i, mark)
        if rec is None or rec["rc"] >= 0x80:
            return rec
        self.send({"t": W.PUBREL, "id": i})
        return self._ackwait(W.PUBCOMP, i, mark)

    def _ackwait(self, t, i, mark):
        return self.wait_for(lambda p: p["t"] == t and p["id"] == i, start=mark)

    def disconnect(self, rc=0, props=None):
        """graceful: send DISCONNECT and wait for the broker to close."""
        if self.sock is None:
            return
        self.send({"t": W.DISCONNECT, "rc": rc, "props": props or []})
        self._await_eof()

    def drop(self):
        """ungraceful: end the stream without DISCONNECT and wait until the broker has noticed."""
        if self.sock is None:
            return
        self.sim.log(self.name, "drop")
        try:
            self.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        self._await_eof()

    def _await_eof(self):
        end = real_monotonic() + self.timeout
        while self.alive and real_monotonic() < end:
            self._read(0.5)
        if self.alive:
            self.sim.log(self.name, "noeof")
            raise Violation("%s: the broker did not end the connection within %d s" % (self.name, self.timeout))
        closed = not self.alive
        self.kill()
        return closed

    def kill(self):
        """release the socket."""
        if self.sock is not None:
            try:
                self.sock.close()
            except OSError:
                pass
        self.sock = None
        self.alive = False
        self.connected = False

    def publishes(self, since=0):
        return [p for p in self.inbox[since:] if p["t"] == W.PUBLISH]
