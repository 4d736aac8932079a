"""C37: the configuration file means what it says"""
import json, os, re, signal, socket, ssl
from mon import wire as W, transport
from mon.process import Space, Tap, port
from mon.sim import Client, HarnessError
from mon.clock import real_sleep, real_monotonic

ID = "C37"
RULE = ("one evaluation = one broker process started with a generated configuration file (settings, listeners, order, spacing, comments), with every listener and every setting "
        "of it tried from outside; distinct = (settings, kinds of listeners, kind of file)")
ASSUMPTIONS = ("settings are those of the sample configuration files and of process_config; settings for all listeners stand before the first listener, as in the samples; "
               "with a broken line the broker either does not start, with a status other than 0, or heeds all other settings")
PLAN = {"quick": 200, "thorough": 1500}
REACH = {"distinct": 60, "started": 60, "connections by tcp": 80, "connections by tls": 60, "refused without certificate": 12, "refused without SNI": 8, "announced": 100,
         "other addresses refused": 60, "http": 5, "https": 5, "mqttsn": 15, "limits enforced": 40, "broken lines": 10, "command lines": 4}
CERTS = transport.CERTS
UNKNOWN = ["log_type error", "log_dest file /var/log/none.log", "allow_anonymous true", "password_file none", "connection_messages", "max_connections 0"]
INSIDE = ["use_identity_as_username false", "ciphers DEFAULT", "psk_hint Test", "protocol http", "mount_point x"]
BROKEN = ["receive_maximum", "receive_maximum many", "topic_alias_maximum 1.5", "maximum_packet_size 10k", "persistence", "maximum_packet_size", "listener door", "visual", "topic_alias_maximum"]


class File:
    """writes lines the way people do."""

    def __init__(self, r):
        self.r, self.lines = r, []
        self.wild = r.random() < .7

    def add(self, *words):
        r = self.r
        if not self.wild:
            self.lines.append(" ".join(map(str, words)))
            return
        while r.random() < .25:
            self.lines.append(r.choice(["", "   ", "\t", "#", "# a comment", "  #receive_maximum 3", "#listener 1 127.0.0.1 http", "# persistence true", "#\tvisual true", "##", "#require_certificate false",
                                        "#allow_non_sni_connections false", "#cafile none"]))
        sep = lambda: r.choice([" ", " ", "  ", "\t", " \t "])
        s = r.choice(["", "", " ", "\t", "    "])
        for n, w in enumerate(words):
            s += (sep() if n else "") + str(w)
        self.lines.append(s + r.choice(["", "", " ", "\t"]))

    def text(self, eol):
        return self.lines if eol == "\n" else [l + "\r" for l in self.lines]


class Listener:
    def __init__(self, r, used, first):
        self.kind = r.choice(["mqtt", "mqtt", "mqtt", "http", "mqttsn"]) if not first else "mqtt"
        self.host = r.choice(["127.0.0.1", "127.0.0.1", "127.0.0.2", "127.0.0.3", "INADDR_ANY", None])
        self.port = port()
        if used and r.random() < .2:         # the port of another one, at another address
            o = r.choice(used)
            if o.host and o.host != "INADDR_ANY" and all(x.port != o.port or (x.host or "INADDR_ANY") != "INADDR_ANY" and x.host != "127.0.0.4" for x in used):
                self.port, self.host = o.port, "127.0.0.4"
        self.word = "mqtt" if self.kind == "mqtt" and r.random() < .3 else None if self.kind == "mqtt" else self.kind
        if self.word and self.host is None:
            self.host = "INADDR_ANY"
        self.tls = self.kind != "mqttsn" and r.random() < .55
        self.require = self.tls and r.random() < .5
        self.sni = self.kind == "mqtt" and self.tls and r.random() < .4
        self.r = r

    def write(self, f):
        r = self.r
        f.add("listener", self.port, *[x for x in (self.host, self.word) if x])
        lines = []
        if self.tls:
            p = lambda n: os.path.join(CERTS, n)
            lines += [("cafile", p("all-ca.crt")), ("certfile", p("server.crt")), ("keyfile", p("server.key"))]
            if not self.require:
                lines.append(("require_certificate", "false"))
            elif r.random() < .5:
                lines.append(("require_certificate", "true"))
            if self.sni:
                lines.append(("allow_non_sni_connections", "false"))
            elif r.random() < .3:
                lines.append(("allow_non_sni_connections", "true"))
        if r.random() < .3:
            lines.append((r.choice(INSIDE),))
        r.shuffle(lines)
        for l in lines:
            f.add(*l)

    def addresses(self):
        """(where it answers, where it does not)."""
        if self.host in (None, "INADDR_ANY"):
            return ["127.0.0.1"] + ["127.0.0.7"] * (self.kind != "mqttsn"), []
        return [self.host], [a for a in ("127.0.0.1", "127.0.0.9") if a != self.host]

    def show(self):
        return self.kind + (" TLS" if self.tls else "") + (" certificate" if self.require else "") + (" SNI" if self.sni else "")


class Plain:
    def __init__(self, addr):
        self.sock = socket.create_connection(addr, 20)

    def wrap(self, cert, sni):
        x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        x.check_hostname = False
        x.verify_mode = ssl.CERT_NONE
        x.set_ciphers("ALL:@SECLEVEL=0")
        if cert:
            x.load_cert_chain(os.path.join(CERTS, cert + ".crt"), os.path.join(CERTS, cert + ".key"))
        self.sock = x.wrap_socket(self.sock, server_hostname="localhost" if sni else None)

    def ask(self, data, n):
        self.sock.sendall(data)
        b = b""
        while len(b) < n:
            more = self.sock.recv(n - len(b))
            if not more:
                break
            b += more
        return b

    def close(self):
        try:
            self.sock.close()
        except OSError:
            pass


CONNECT = {v: W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "", "will": None, "props": [], "username": None, "password": None, "_v": v}, v) for v in (4, 5)}


def tries(l, host, tls, cert=None, sni=True):
    """does the service of the listener answer to such a connection?"""
    p = None
    try:
        p = Plain((host, l.port))
        p.sock.settimeout(20)
        if tls:
            p.wrap(cert, sni)
        if l.kind == "http":
            return p.ask(b"GET /api/v0001/clients HTTP/1.0\r\n\r\n", 12).endswith(b" 200")
        return p.ask(CONNECT[4], 4) == b"\x20\x02\x00\x00"
    except socket.timeout:
        raise HarnessError("no answer of any kind from a listener")
    except (OSError, ssl.SSLError):
        return False
    finally:
        if p:
            p.close()


def sn(host, p):
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    try:
        s.connect((host, p))
        s.settimeout(.5)
        for _ in range(40):
            try:
                s.send(b"\x08\x04\x04\x01\x00\x00sn")
                return s.recv(100)[:2] == b"\x03\x05"
            except ConnectionRefusedError:
                return False
            except socket.timeout:
                pass
        return False
    finally:
        s.close()


class World:
    def __init__(self, r, ctx):
        self.r, self.ctx = r, ctx
        self.tap = Tap(None)
        ctx.sim = self.tap
        self.file = File(r)
        self.set = {}

    def settings(self, broken):
        r, f = self.r, self.file
        lines = []
        def choice(key, words, values):
            for n in range(r.choice([0, 0, 1, 1, 1, 2])):
                v = r.choice(values)
                lines.append((key, (r.choice(words), v)))
        choice("receive", ["receive_maximum"], [1, 2, 3, 20, 1000, 65534, 65535])
        choice("alias", ["topic_alias_maximum"], [0, 1, 2, 10, 65535])
        choice("size", ["maximum_packet_size", "message_size_limit"], [100, 256, 257, 1000, 20000, 200000000, 268435455])
        choice("persistence", ["persistence"], ["true", "false"])
        choice("keepalive", ["server_keep_alive"], [1, 10, 59, 60, 61, 1000])
        choice("visual", ["visual"], ["true", "false"])
        choice("loglevel", ["loglevel"], ["debug", "DEBUG", "info"])
        if r.random() < .2:
            lines.append(("mscfile", ("mscfile", "messages.msc")))
        if r.random() < .5:
            lines.append((None, (r.choice(UNKNOWN),)))
        seen = set()
        r.shuffle(lines)
        for key, words in lines:
            if key in ("persistence", "loglevel", "visual") and key in seen and str(words[1]) in ("false", "info"):
                continue                      # (taking back is not offered by all of them)
            if key in ("persistence", "loglevel", "visual") and key in seen:
                continue
            seen.add(key)
            f.add(*words)
            if key:
                self.set[key] = words[1]
        if broken and broken != "listener door":
            f.lines.insert(r.randrange(len(f.lines) + 1), broken)

    def start(self):
        r, ctx = self.r, self.ctx
        broken = r.choice(BROKEN) if r.random() < .2 else None
        self.settings(broken)
        self.ls = []
        for n in range(r.choice([1, 1, 2, 3, 4, 5])):
            self.ls.append(Listener(r, self.ls, n == 0))
        r.shuffle(self.ls)
        for l in self.ls:
            l.write(self.file)
        if broken == "listener door":
            self.file.lines.append(broken)
        if self.file.wild and r.random() < .5:
            self.file.lines += r.choice([["", "  "], ["# the end"], ["\t", "#listener 1", ""]])
        eol = r.choice(["\n", "\n", "\r\n"])
        for x in self.file.lines:
            self.tap.log("-", "line", repr(x))
        self.broken = broken
        return self.file.text(eol)

    # ------------------------------------------------------------- judging
    def listeners(self):
        ctx, r = self.ctx, self.r
        where = [(l.port, l.host) for l in self.ls]
        for l in self.ls:
            yes, no = l.addresses()
            for a in yes:
                self.serves(l, a)
            for a in no:
                if any(o is not l and o.port == l.port and (o.host or "INADDR_ANY") in ("INADDR_ANY", a) for o in self.ls):
                    continue
                if l.kind == "mqttsn":
                    ctx.expect(not sn(a, l.port), lambda: "the listener for %s answers at %s" % (l.host, a))
                else:
                    s = socket.socket()
                    try:
                        s.settimeout(20)
                        s.connect((a, l.port))
                        ctx.fail("the listener for %s port %d accepts connections at %s" % (l.host, l.port, a))
                    except OSError:
                        pass
                    finally:
                        s.close()
                ctx.count("other addresses refused")

    def serves(self, l, a):
        ctx, r = self.ctx, self.r
        who = "the listener %s %s %s" % (l.port, l.host or "", l.show())
        if l.kind == "mqttsn":
            ctx.expect(sn(a, l.port), lambda: who + " does not answer")
            ctx.count("mqttsn")
            return
        if not l.tls:
            ctx.expect(tries(l, a, False), lambda: who + " does not answer to a plain connection")
            ctx.count("http" if l.kind == "http" else "connections by tcp")
            ctx.expect(not tries(l, a, True), lambda: who + " answers by TLS")
            return
        cert, sni = True, r.random() < .5 or l.sni
        ctx.expect(tries(l, a, True, "client", sni), lambda: who + " does not answer to a TLS connection with a certificate")
        ctx.count("https" if l.kind == "http" else "connections by tls")
        ctx.expect(not tries(l, a, False), lambda: who + " answers without TLS")
        ctx.expect(tries(l, a, True, None, True) == (not l.require), lambda: who + (" accepts" if l.require else " does not accept") + " a client without certificate")
        if l.require:
            ctx.count("refused without certificate")
        ctx.expect(not tries(l, a, True, "test-fake-root-ca", True), lambda: who + " accepts a certificate of an unknown authority")
        if l.kind == "mqtt":
            ctx.expect(tries(l, a, True, "client", False) == (not l.sni), lambda: who + (" accepts" if l.sni else " does not accept") + " a connection without SNI")
            if l.sni:
                ctx.count("refused without SNI")

    def client(self, l, v, name, **kw):
        a = (l.addresses()[0][0], l.port)
        c = Client(self.tap, name, v)
        if l.tls:
            def dial():
                p = Plain(a)
                p.wrap("client", True)
                t = transport.Tls.__new__(transport.Tls)
                t.r, t.mode, t.ctx, t.held, t.sock = self.r, "whole", None, b"", p.sock
                t.sock.setblocking(True)
                return t
            c.dial = dial
        else:
            c.dial = lambda: transport.Link(a, self.r)
        c.connect(clean=True, **kw)
        self.ctx.expect(c.connack and c.connack["rc"] == 0, lambda: "%s can't connect to the listener %d" % (name, l.port))
        return c

    def announced(self):
        """what a client of version 5 is told, on every listener."""
        ctx, r, s = self.ctx, self.r, self.set
        for l in self.ls:
            if l.kind != "mqtt":
                continue
            asked = r.choice([0, 5, 60, 61, 2000])
            c = self.client(l, 5, "c", keepalive=asked)
            limit = s.get("keepalive", 60)
            want = {"ReceiveMaximum": s.get("receive", 2), "TopicAliasMaximum": s.get("alias", 2), "MaximumPacketSize": s.get("size", 256),
                    "ServerKeepAlive": limit if asked > limit else None}
            none = {"ReceiveMaximum": 65535, "TopicAliasMaximum": 0, "MaximumPacketSize": 268435455}
            for k, w in want.items():
                g = W.pget(c.connack["props"], k)
                ctx.expect(g == w or g is None and none.get(k) == w, lambda: "%s announced is %r, the configuration says %r (listener %s)" % (k, g, w, l.show()), key=None)
                ctx.count("announced")
            size = want["MaximumPacketSize"]
            if size <= 20000:
                n = size - 6
                while len(W.encode({"t": W.PUBLISH, "topic": "t", "payload": b"x" * n, "qos": 0, "retain": False, "dup": False, "props": []}, 5)) > size:
                    n -= 1
                for extra in (0, 1):
                    p = {"t": W.PUBLISH, "topic": "t", "payload": b"x" * (n + extra), "qos": 0, "retain": False, "dup": False, "props": []}
                    if len(W.encode(p, 5)) != size + extra:
                        raise HarnessError("size %d" % len(W.encode(p, 5)))
                    c.send(p)
                    ok = c.ping()
                    ctx.expect(ok == (not extra), lambda: "a packet of %d bytes is %s with a maximum of %d" % (size + extra, "accepted" if extra else "refused", size))
                ctx.count("limits enforced")
            c.kill()

    def other(self, space, b):
        ctx, s = self.ctx, self.set
        mq = [l for l in self.ls if l.kind == "mqtt"]
        if s.get("visual") == "true" or self.r.random() < .3:
            w = self.client(self.r.choice(mq), 4, "watcher", keepalive=0)
            w.subscribe([("$SYS/clients-packets", 0)])
            c = self.client(self.r.choice(mq), 5, "seen", keepalive=0)
            c.ping()
            w.ping()
            got = [x for x in w.publishes() if b"seen" in x["payload"]]
            ctx.expect(bool(got) == (s.get("visual") == "true"), lambda: "with visual %s a watcher gets %d reports" % (s.get("visual"), len(got)))
            w.kill()
            c.kill()
        if self.r.random() < .5 or "persistence" in s:
            c = self.client(self.r.choice(mq), 4, "c", keepalive=0)
            c.publish("kept", b"k", 1, retain=True)
            c.kill()
            b.signal()
            ctx.expect(b.wait(30) == 0, lambda: "the broker does not end well: " + b.text()[-300:])
            on = s.get("persistence") == "true"
            ctx.expect(os.path.exists(os.path.join(space.dir, "sharedData")) == on, "persistence is %s, the file is %s" % (s.get("persistence"), "missing" if on else "there"))
            text = b.text()
            debug = str(s.get("loglevel", "")).lower() == "debug"
            ctx.expect(bool(re.search(r"\bDEBUG\b", text)) == debug, lambda: "loglevel is %s, the log has %s records of level DEBUG" % (s.get("loglevel"), "no" if debug else "some"))
            ctx.expect(("mscfile" in s) == os.path.exists(os.path.join(space.dir, "messages.msc")), "mscfile is %s" % s.get("mscfile"))
            if "mscfile" in s:
                ctx.expect("msc" in open(os.path.join(space.dir, "messages.msc")).read(), "nothing is written to the mscfile")

    def run(self):
        r, ctx = self.r, self.ctx
        lines = self.start()
        with Space() as space:
            zodb = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mon", "zodb")
            b = space.run(lines, env={"PYTHONPATH": zodb})
            tcp = [l for l in self.ls if l.kind != "mqttsn"]
            up = True
            end = real_monotonic() + 30
            for l in tcp:
                a = l.addresses()[0][0]
                while up:
                    try:
                        socket.create_connection((a, l.port), 5).close()
                        break
                    except OSError:
                        up = b.p.poll() is None and real_monotonic() < end
                        real_sleep(.02)
            ctx.count("started")
            if self.broken:
                ctx.count("broken lines")
            if not up:
                rc = b.p.poll()
                ctx.expect(self.broken, lambda: "the broker does not listen as configured (status %s): %s" % (rc, b.text()[-400:]))
                ctx.expect(rc, lambda: "with the broken line %r the broker %s" % (self.broken, "does not listen on all its ports" if rc is None else "ends with status 0"))
            else:
                self.listeners()
                self.announced()
                self.other(space, b)
        ctx.case((tuple(sorted(self.set.items(), key=str)), tuple(sorted(l.show() for l in self.ls)), self.broken), "%s, listeners %s%s" % (
            self.set, [l.show() for l in self.ls], ", broken line %r" % self.broken if self.broken else ""))


def command(r, ctx):
    """ports and files given on the command line."""
    ctx.sim = Tap(None)
    with Space() as space:
        p = port()
        conf = os.path.join(space.dir, "my.conf")
        with open(conf, "w") as f:
            f.write("receive_maximum 7\nlistener %d\n" % p)
        way = r.choice(["--port=%d", "--port %d", "-p %d", "-c", "--config-file"])
        args = (way % p).split() if "%d" in way else ["--config-file=" + conf] if way[1] == "-" else ["-c", conf]
        b = space.run(None, args=args)
        ctx.expect(b.ready([p], 15), lambda: "started with %s the broker does not listen on port %d: %s" % (args, p, b.text()[-300:]))
        c = Client(Tap(("127.0.0.1", p)), "c", 5)
        c.connect()
        want = 2 if "%d" in way else 7
        ctx.expect(c.connack and W.pget(c.connack["props"], "ReceiveMaximum") == want, "started with %s the broker announces %s" % (args, c.connack))
        c.kill()
        b.signal()
        ctx.expect(b.wait(30) == 0, "the broker does not end well")
        ctx.count("command lines")
        ctx.case(("command", way), "startbroker.py " + way)


def limited(ctx, word, value, prop):
    """settings which limit what clients of version 5 may use must be announced to them."""
    ctx.sim = Tap(None)
    with Space() as space:
        p = port()
        b = space.run(["%s %s" % (word, value), "listener %d" % p])
        ctx.expect(b.ready([p]), lambda: "the broker does not start with %s %s: %s" % (word, value, b.text()[-300:]))
        c = Client(Tap(("127.0.0.1", p)), "c", 5)
        c.connect()
        g = W.pget(c.connack["props"], prop)
        c.kill()
        ctx.count("limited")
        ctx.case((word, value), "%s %s" % (word, value))
        ctx.expect(g == (value if type(value) is int else 0), "with %s %s in the configuration %s announced is %r" % (word, value, prop, g), key=word)


def d_qos(r, ctx):
    limited(ctx, "maximum_qos", 1, "MaximumQoS")


def d_retain(r, ctx):
    limited(ctx, "retain_available", "false", "RetainAvailable")


def d_identifiers(r, ctx):
    limited(ctx, "subscription_identifier_available", "false", "SubscriptionIdentifierAvailable")


def d_shared(r, ctx):
    limited(ctx, "shared_subscription_available", "false", "SharedSubscriptionAvailable")


DIRECTED = [d_qos, d_retain, d_identifiers, d_shared]


def scenario(r, ctx, idx):
    if idx % 12 == 7:
        command(r, ctx)
    else:
        World(r, ctx).run()
