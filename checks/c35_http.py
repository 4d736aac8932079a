"""C35: the HTTP interface reports the broker's real state"""
import contextlib, io, json, socket, socketserver, ssl, threading
from urllib.parse import quote
from mon import wire as W, transport
from mon.drive import Drive, TOPICS, FILTERS
from mon.sim import free_port
from mon.clock import real_sleep, real_monotonic
from mon.suite import *

ID = "C35"
RULE = ("one evaluation = one history of MQTT clients with HTTP requests between and during it, every answer compared with the state which the trace specification "
        "derives from what the clients did; distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = ("the interface reports sessions of MQTT 3.1.1 clients only, and subscriptions and retained messages of both versions outside $-topics; attributes other "
               "than id, connected, cleansession and keepalive are left open; client identifiers with / are not addressable")
PLAN = {"quick": 300, "thorough": 9000}
REACH = {"distinct": 120, "sessions reported": 400, "disconnected sessions reported": 50, "subscriptions reported": 1500, "retained messages reported": 400,
         "retained properties reported": 30, "unknown requests": 1500, "malformed requests": 200, "half-open connections": 80, "answers during the history": 2000,
         "shared subscriptions reported": 50, "single clients reported": 300}
socketserver.BaseServer.handle_error = lambda *args: None     # which only prints
BASE = "/api/v0001/"
METHODS = ["PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "FROB", "get"]


class Http:
    def __init__(self, d, port):
        self.d, self.ctx, self.to = d, d.ctx, ("127.0.0.1", port)
        self.idle = []

    def raw(self, data, wait=15, close=True, need=True):
        """what the server answers to these bytes (b"" if it ends the connection without answer, None if it waits)."""
        try:
            s = socket.create_connection(self.to, 15)
        except OSError as e:
            self.ctx.fail("no connection to the HTTP listener: %s" % e)
        s.settimeout(wait)
        out = b""
        try:
            s.sendall(data)
            if close:
                s.shutdown(socket.SHUT_WR)
            while True:
                b = s.recv(65536)
                if not b:
                    return out
                out += b
        except socket.timeout:
            if need:
                self.ctx.fail("no answer within %d s to the HTTP request %s (got %s)" % (wait, data[:200], out[:200]))
            return None
        except OSError:
            return out
        finally:
            s.close()

    def request(self, path, method="GET", body=None, headers=()):
        h = ["%s %s HTTP/1.%d" % (method, path, len(path) % 2), "Host: x"] + list(headers)
        if body is not None:
            h.append("Content-Length: %d" % len(body))
        a = self.raw("\r\n".join(h).encode() + b"\r\n\r\n" + (body or b""), close=False)
        self.d.sim.log("http", method, path)
        try:
            head, rest = a.split(b"\r\n\r\n", 1)
            line = head.split(b"\r\n")[0].split()
            assert line[0].startswith(b"HTTP/1.")
            return int(line[1]), rest
        except (ValueError, AssertionError, IndexError):
            self.ctx.fail("%s %s is not answered as HTTP demands: %s" % (method, path, a[:200]))

    def get(self, path):
        rc, body = self.request(BASE + path)
        if rc != 200:
            return rc, None
        try:
            return rc, json.loads(body.decode())
        except ValueError:
            self.ctx.fail("GET %s: the answer is not JSON: %s" % (path, body[:200]))

    def agrees(self, path, judge):
        """the interface may lag a little behind what a client sees."""
        end = real_monotonic() + 3
        while True:
            rc, v = self.get(path)
            bad = "status %d" % rc if rc != 200 else judge(v)
            if not bad:
                return
            if real_monotonic() > end:
                self.ctx.fail("GET %s: %s (answer: %s)" % (path, bad, json.dumps(v)[:600]))
            real_sleep(.05)

    # -------------------------------------------------------------- against the specification
    def client_bad(self, s, v):
        up = s.conn is not None
        want = {"id": s.cid, "connected": up, "cleansession": s.clean}
        if up:
            want["keepalive"] = s.conn.keepalive
        for k, x in want.items():
            if k not in v or v[k] != x:
                return "%s of client %s is %r, should be %r" % (k, s.cid, v.get(k), x)

    def clients(self):
        m, ctx = self.d.m, self.ctx
        want = {c: s for c, s in m.sess.items() if s.v == 4}

        def judge(v):
            if set(v) != set(want):
                return "sessions are reported of %s, but there are %s" % (sorted(v), sorted(want))
            for c, s in want.items():
                bad = self.client_bad(s, v[c])
                if bad:
                    return bad
        self.agrees("clients", judge)
        ctx.count("sessions reported", len(want))
        ctx.count("disconnected sessions reported", sum(s.conn is None for s in want.values()))
        r = self.d.r
        for c in r.sample(sorted(want), min(2, len(want))):
            self.agrees("clients/" + quote(c), lambda v: self.client_bad(want[c], v))
            ctx.count("single clients reported")
        c = r.choice(["nobody", "", "c9", "c1 ", "C0", "c0/x", "%00", "c%2Fx"] + [c for c, s in m.sess.items() if s.v == 5])
        if c not in want:
            rc, v = self.get("clients/" + quote(c, safe="/%"))
            ctx.expect(rc == 404, lambda: "GET of the unknown client %r is answered with status %d" % (c, rc))
            ctx.count("unknown requests")

    def subscriptions(self):
        want = {}
        for s in self.d.m.sess.values():
            for f, x in s.subs.items():
                if f.startswith("$") and x.share is None:
                    continue
                want[(s.cid, f)] = (s.v, x)

        def judge(v):
            seen = {}
            for x in v:
                k = (x.get("clientid"), x.get("topic"))
                if k in seen:
                    return "the subscription %s is reported twice" % (k,)
                seen[k] = x
            for k in want:
                if k not in seen:
                    return "the subscription %s of %s is not reported" % (k[1], k[0])
                if want[k][0] == 4 and seen[k].get("qos") != want[k][1].qos:
                    return "the QoS of the subscription %s of %s is reported as %r, should be %d" % (k[1], k[0], seen[k].get("qos"), want[k][1].qos)
            for k in seen:
                if k not in want:
                    return "the subscription %s of %s, which does not exist, is reported" % (k[1], k[0])
        self.agrees("subscriptions", judge)
        self.ctx.count("subscriptions reported", len(want))
        self.ctx.count("shared subscriptions reported", sum(k[1].startswith("$share/") for k in want))

    def retained(self):
        want = {t: x for t, x in self.d.m.retained.items() if not t.startswith("$")}
        known = ("PayloadFormatIndicator", "ContentType", "ResponseTopic", "UserProperty")

        def judge(v):
            if set(v) != set(want):
                return "retained messages are reported for %s, but there are some for %s" % (sorted(v), sorted(want))
            for t, x in want.items():
                if v[t][0] != x["payload"].decode(errors="backslashreplace") or v[t][1] != x["qos"]:
                    return "the message retained for %s is reported as %r" % (t, v[t])
                if x["v5"]:
                    if len(v[t]) != 4:
                        return "the properties of the message retained for %s are not reported" % t
                    corr = [y for i, y in x["props"] if W.PROPS[i][0] == "CorrelationData"]
                    if corr:
                        if v[t][3].get("CorrelationData") != str(bytes(corr[0])):
                            return "the correlation data %r of the message retained for %s are reported as %r" % (corr[0], t, v[t][3].get("CorrelationData"))
                    for name in known:
                        p = [y for i, y in x["props"] if W.PROPS[i][0] == name]
                        if not p:
                            if name in v[t][3]:
                                return "the message retained for %s is reported with %s" % (t, name)
                            continue
                        got = v[t][3].get(name)
                        if name == "UserProperty":
                            if [list(y) for y in p] != got:
                                return "the user properties of the message retained for %s are reported as %r" % (t, got)
                        elif got != p[0]:
                            return "%s of the message retained for %s is reported as %r" % (name, t, got)
        self.agrees("retained", judge)
        self.ctx.count("retained messages reported", len(want))
        self.ctx.count("retained properties reported", sum(bool(x["props"]) for x in want.values()))

    # -------------------------------------------------------------- other requests
    def unknown(self):
        r = self.d.r
        if r.random() < .4:
            path = r.choice(["/", "/api", "/api/v0001", "/api/v0001/client", "/api/v0001/clientsx", "/api/v0002/clients", "/x" + BASE + "clients", "/..", "/%2e%2e/etc/passwd",
                             BASE + "subscriptions/x", BASE + "retained/a", BASE + "retaine", "/api/v0001/clients/a/b", "*", "/%ff%00", "/" + "x" * 3000])
            method = r.choice(["GET", "GET", "GET"] + METHODS)
        else:
            path = BASE + r.choice(["clients", "subscriptions", "retained", "clients/c0"])
            method = r.choice(METHODS)
        body, headers = None, []
        if method in ("PUT", "POST", "PATCH", "DELETE"):
            body = r.choice([None, b"", b"{}", b'{"a": 1}', b"[1", b"\xff\xfe", b"null", b"x" * 5000])
            h = r.choice([None, "application/json", "application/json", "text/plain", "multipart/form-data; boundary=x", "application/x-www-form-urlencoded", "\u20ac"])
            if h:
                headers = ["Content-Type: " + h]
        rc, x = self.request(path, method, body, headers)
        self.ctx.expect(rc >= 400, lambda: "%s %s is answered with status %d" % (method, path, rc))
        self.ctx.count("unknown requests")

    def malformed(self):
        r = self.d.r
        good = b"GET /api/v0001/clients HTTP/1.0\r\nHost: x\r\n\r\n"
        x = r.randrange(9)
        if x == 0:
            b = r.randbytes(r.randrange(1, 300))
        elif x == 1:
            b = good[:r.randrange(len(good))]
        elif x == 2:
            b = b"".join(bytes([c]) if r.random() > .1 else r.randbytes(1) for c in good)
        elif x == 3:
            b = b"GET /" + b"a" * 70000 + b" HTTP/1.0\r\n\r\n"
        elif x == 4:
            b = b"GET / HTTP/1.0\r\n" + b"".join(b"h%d: x\r\n" % n for n in range(150)) + b"\r\n"
        elif x == 5:
            b = b"POST /api/v0001/clients HTTP/1.1\r\nContent-Length: " + r.choice([b"-1", b"x", b"99999", b"1e3", b""]) + b"\r\nContent-Type: application/json\r\n\r\n{}"
        elif x == 6:
            b = W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "c0", "will": None, "props": [], "username": None, "password": None, "_v": 4}, 4)
        elif x == 7:
            b = b"GET /api/v0001/clients HTTP/9.9\r\n\r\n" + good
        else:
            b = b"\r\n\r\n" + b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc"
        self.raw(b)
        self.ctx.count("malformed requests")

    def halfopen(self):
        r = self.d.r
        try:
            s = socket.create_connection(self.to, 15)
        except OSError as e:
            self.ctx.fail("no connection to the HTTP listener: %s" % e)
        try:
            s.sendall(r.choice([b"", b"G", b"GET /api/v0001/retained HTTP/1.1\r\nHost:", b"PUT /api/v0001/clients HTTP/1.1\r\nContent-Length: 10\r\n\r\n12"]))
        except OSError:
            pass
        self.idle.append(s)
        if len(self.idle) > 6:
            self.idle.pop(0).close()
        self.ctx.count("half-open connections")


class D(Drive):
    def op_http(self):
        h, r = self.http, self.r
        for _ in range(r.choice([1, 1, 2])):
            r.choice([h.clients, h.clients, h.subscriptions, h.subscriptions, h.retained, h.retained, h.unknown, h.unknown, h.unknown, h.malformed, h.halfopen])()

    def will(self, c):
        w = Drive.will(self, c)
        if self.r.random() < .3:
            w["payload"] = b"\xff\xfe" + w["payload"]
        return w

    def payload(self):
        p = Drive.payload(self)
        return p + (b"\xff\xc3\xa9\x00\"\\" if self.r.random() < .15 else "\u00e9\u20ac".encode() if self.r.random() < .1 else b"")


class Poller:
    """asks all the time, from another thread."""

    def __init__(self, h):
        self.h, self.stop, self.bad, self.n = h, False, None, 0
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        q = Http(self.h.d, self.h.to[1])
        try:
            while not self.stop:
                for path in ("clients", "subscriptions", "retained"):
                    rc, v = q.get(path)
                    q.ctx.expect(rc == 200, lambda: "GET %s is answered with status %d while clients are active" % (path, rc))
                    if path == "subscriptions":
                        ks = [(x.get("clientid"), x.get("topic")) for x in v]
                        q.ctx.expect(len(set(ks)) == len(ks), "a subscription is reported twice: %s" % v)
                    self.n += 1
                real_sleep(.003)
        except Exception as e:
            self.bad = e

    def end(self):
        self.stop = True
        self.t.join(20)
        if self.bad:
            raise self.bad


def scenario(r, ctx, idx):
    prof = dict(v5=r.choice([0, .3, .6]), steps=(20, 40), will=.15, retain=.35, persistent=.6, share=.15, expiry=.1, aliasmax=(0, 3), keepalive=.3, topics=TOPICS + ["\u00e9/\"x\\"],
                clients=(3, 6), ops=dict(http=40, advance=0))
    port = free_port()
    with contextlib.redirect_stderr(io.StringIO()):
        d = D(r, ctx, prof, config=["listener %d 127.0.0.1 http" % port])
        d.http = Http(d, port)
        poll = Poller(d.http) if r.random() < .3 else None
        try:
            d.start()
            names, weights = zip(*d.p["ops"].items())
            for _ in range(r.randint(*d.p["steps"])):
                getattr(d, "op_" + r.choices(names, weights)[0])()
                d.step()
            if poll:
                poll.end()
                ctx.count("answers during the history", poll.n)
            for s in (d.http.clients, d.http.subscriptions, d.http.retained, d.http.unknown):
                s()
            d.finish()
        finally:
            if poll:
                poll.stop = True
            for s in d.http.idle:
                s.close()


def d_tls(r, ctx):
    """over TLS, with connections which never begin the handshake."""
    port = free_port()
    lines = transport.tls_lines(port)
    lines[0] += " http"
    with contextlib.redirect_stderr(io.StringIO()):
        d = new(r, ctx, config=lines)
        c = join(d, "c0", 4)
        c.subscribe([("a", 1)])
        d.step()
        idle = [socket.create_connection(("127.0.0.1", port), 10) for _ in range(3)]
        idle[1].sendall(b"\x16\x03")
        idle[2].sendall(b"GET / HTTP/1.0\r\n\r\n")
        context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        context.check_hostname = False
        context.load_verify_locations(transport.CERTS + "/all-ca.crt")
        for path, want in (("clients", 200), ("subscriptions", 200), ("retained", 200), ("x", 404)):
            s = None
            try:
                s = socket.create_connection(("127.0.0.1", port), 10)
                s = context.wrap_socket(s)
                s.sendall(b"GET " + BASE.encode() + path.encode() + b" HTTP/1.0\r\n\r\n")
                out = b""
                while True:
                    b = s.recv(9999)
                    if not b:
                        break
                    out += b
            except OSError as e:
                ctx.fail("GET %s over TLS: %r" % (path, e))
            finally:
                if s is not None:
                    s.close()
            ctx.expect(b" %d " % want in out.split(b"\r\n")[0], lambda: "GET %s over TLS is answered with %s" % (path, out[:100]))
            if path == "subscriptions":
                v = json.loads(out.split(b"\r\n\r\n", 1)[1])
                ctx.expect([(x["clientid"], x["topic"]) for x in v] == [("c0", "a")], lambda: "subscriptions over TLS: %s" % v)
        for s in idle:
            s.close()
    d.finish()


DIRECTED = [d_tls]
