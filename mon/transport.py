"""Ways to carry the same MQTT stream: cut or batched TCP segments, TLS records, WebSocket frames.

Each link has sendall, receive(wait) -> bytes | None (nothing yet) | b"" (end), shutdown and close.  Links check what the
broker does on their own level (RFC 6455) and raise Violation."""
import base64, hashlib, os, select, socket, ssl, time
from .clock import real_monotonic, real_sleep, real_select
from .runner import Violation
from .sim import IOP

CERTS = os.path.join(IOP, "tls_testing", "ssl")


def tls_lines(port, host="127.0.0.1", *more):
    p = lambda f: os.path.join(CERTS, f)
    return ["listener %d %s" % (port, host), "cafile " + p("all-ca.crt"), "certfile " + p("server.crt"), "keyfile " + p("server.key"),
            "require_certificate false"] + list(more)


class Link:
    """plain TCP; mode: whole | cut | batch"""

    def __init__(self, addr, r, mode="whole", ctx=None):
        self.r, self.mode, self.ctx = r, mode, ctx
        self.held = b""
        self.sock = self.dial(addr)

    def dial(self, addr):
        s = socket.create_connection(addr, 10)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def count(self, k, n=1):
        if self.ctx:
            self.ctx.count(k, n)

    def fileno(self):
        return self.sock.fileno()

    # ------------------------------------------------------------ sending
    def sendall(self, data):
        if self.mode == "batch":
            self.held += data
            if self.r.random() < .3 or len(self.held) > 3000:
                self.flush()
        else:
            self.cut(data)

    def flush(self):
        d, self.held = self.held, b""
        if d:
            self.cut(d)

    def pieces(self, data):
        """data in random pieces; a dozen or so, so that it doesn't take too long."""
        r = self.r
        n = r.choice([0, 1, 1, 2, 4, 12])
        if len(data) < 30 and r.random() < .1:
            n = len(data)
        at = sorted(r.randrange(1, len(data)) for _ in range(n)) if len(data) > 1 else []
        return [data[a:b] for a, b in zip([0] + at, at + [len(data)]) if a < b]

    def cut(self, data):
        if self.mode == "whole":
            self.sock.sendall(data)
            return
        for p in self.pieces(data):
            self.sock.sendall(p)
            self.count("segments")
            if self.r.random() < .3:
                real_sleep(self.r.choice([0, .001, .006]))

    # ------------------------------------------------------------ receiving
    def pending(self):
        return 0

    def rawrecv(self, wait):
        if not self.pending() and not real_select([self.sock], [], [], wait)[0]:
            return None
        try:
            return self.sock.recv(65536)
        except ssl.SSLWantReadError:
            return None
        except OSError:
            return b""

    def receive(self, wait):
        try:
            self.flush()
        except OSError:
            pass
        return self.rawrecv(wait)

    def shutdown(self, how):
        self.flush()
        self.sock.shutdown(how)

    def close(self):
        self.sock.close()


class Tls(Link):
    cert = None

    def dial(self, addr):
        s = Link.dial(self, addr)
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        try:
            c.set_ciphers("DEFAULT:@SECLEVEL=0")
        except ssl.SSLError:
            pass
        if self.cert:
            c.load_cert_chain(*self.cert)
        s.settimeout(20)
        t = c.wrap_socket(s, server_hostname="localhost")
        self.count("TLS connections")
        return t

    def pending(self):
        return self.sock.pending()

    def shutdown(self, how):
        self.flush()
        socket.socket.shutdown(self.sock, how)


class Ws:
    """WebSocket framing; mixed into a Link."""
    base = Link
    GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"

    def __init__(self, addr, r, mode="cut", ctx=None):
        self.inner = self.base(addr, r, "cut" if mode != "whole" else "whole", ctx)
        self.r, self.mode, self.ctx = r, mode, ctx
        self.buf = b""
        self.pings = []
        self.held = b""
        self.open_ = False          # an unfinished fragmented message
        self.closing = False
        self.sent_close = False
        self.got_close = False
        self.handshake(addr)

    def count(self, k, n=1):
        if self.ctx:
            self.ctx.count(k, n)

    def fileno(self):
        return self.inner.fileno()

    # ------------------------------------------------------------ handshake
    def handshake(self, addr):
        r = self.r
        key = base64.b64encode(bytes(r.randrange(256) for _ in range(16)))
        case = r.choice([lambda s: s, str.lower, str.upper])
        headers = [("Host", "%s:%d" % addr[:2]), ("Upgrade", "websocket"), ("Connection", r.choice(["Upgrade", "keep-alive, Upgrade"])),
                   ("Sec-WebSocket-Key", key.decode()), ("Sec-WebSocket-Version", "13"), ("Sec-WebSocket-Protocol", "mqtt"),
                   ("Origin", "http://localhost"), ("User-Agent", "x" * r.choice([1, 20, 700, 1500]))]
        r.shuffle(headers)
        req = "GET %s HTTP/1.1\r\n" % r.choice(["/mqtt", "/", "/a/b?c=d"])
        req += "".join("%s:%s%s\r\n" % (case(k), r.choice([" ", " ", ""]), v) for k, v in headers) + "\r\n"
        self.inner.cut(req.encode())
        end = real_monotonic() + 20
        while b"\r\n\r\n" not in self.buf:
            x = self.inner.rawrecv(.5)
            if x == b"":
                raise Violation("connection closed instead of an answer to the WebSocket handshake")
            self.buf += x or b""
            if real_monotonic() > end:
                raise Violation("no answer to the WebSocket handshake")
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = head.split(b"\r\n")
        h = {}
        for l in lines[1:]:
            k, v = l.split(b":", 1)
            h[k.strip().lower()] = v.strip()
        if lines[0].split(b" ")[:2] != [b"HTTP/1.1", b"101"]:
            raise Violation("WebSocket handshake answered with %r" % lines[0])
        want = base64.b64encode(hashlib.sha1(key + self.GUID).digest())
        if h.get(b"sec-websocket-accept") != want or h.get(b"upgrade", b"").lower() != b"websocket" or \
                b"upgrade" not in h.get(b"connection", b"").lower() or h.get(b"sec-websocket-protocol") != b"mqtt":
            raise Violation("wrong answer to the WebSocket handshake: %r (Sec-WebSocket-Accept should be %r)" % (head, want))
        if self.buf:
            raise Violation("the broker sent %r before any request" % self.buf)
        self.count("WebSocket handshakes")

    # ------------------------------------------------------------ sending
    def frame(self, opcode, data, fin=True):
        r = self.r
        b = bytes([(128 if fin else 0) | opcode])
        n = len(data)
        b += bytes([128 | n]) if n < 126 else bytes([254]) + n.to_bytes(2, "big") if n < 65536 else bytes([255]) + n.to_bytes(8, "big")
        m = bytes(r.randrange(256) for _ in range(4))
        self.count("WebSocket frames sent")
        return b + m + bytes(x ^ m[i % 4] for i, x in enumerate(data))

    def control(self):
        """a ping or an unsolicited pong"""
        d = os.urandom(self.r.choice([0, 3, 125]))
        if self.r.random() < .7:
            self.pings.append(d)
            return self.frame(9, d)
        return self.frame(10, d)

    def sendall(self, data):
        if self.mode == "batch":
            self.held += data
            if self.r.random() < .3 or len(self.held) > 3000:
                self.flush()
        else:
            self.message(data)

    def flush(self):
        d, self.held = self.held, b""
        if d:
            self.message(d)

    def message(self, data):
        r = self.r
        if self.mode == "whole":
            self.inner.sendall(self.frame(2, data))
            return
        out = b""
        for part in (self.inner.pieces(data) if r.random() < .6 else [data]):
            frags = self.inner.pieces(part) if r.random() < .3 else [part]
            for i, f in enumerate(frags):
                if r.random() < .08:
                    out += self.control()
                out += self.frame(2 if i == 0 else 0, f, fin=i == len(frags) - 1)
                if len(frags) > 1:
                    self.count("WebSocket fragments")
            if r.random() < .1:
                out += self.frame(2, b"")      # empty, but allowed
            if r.random() < .1:
                out += self.control()
            if r.random() < .5:
                self.inner.cut(out)
                out = b""
        if out:
            self.inner.cut(out)

    # ------------------------------------------------------------ receiving
    def receive(self, wait):
        try:
            self.flush()
        except OSError:
            pass
        got = self.parse()
        if got:
            return got
        if self.got_close:
            return b""
        x = self.inner.rawrecv(wait)
        if x is None:
            return None
        if x == b"":
            if self.buf:
                raise Violation("the broker ended the connection within a WebSocket frame: %r" % self.buf[:20])
            return b""
        self.buf += x
        return self.parse() or (b"" if self.got_close else None)

    def parse(self):
        out = b""
        while len(self.buf) >= 2 and not self.got_close:
            a, b = self.buf[0], self.buf[1]
            if a & 0x70 or b & 0x80:
                raise Violation("WebSocket frame of the broker has reserved bits or a mask: %r" % self.buf[:20])
            n, o = b & 127, 2
            if n == 126:
                if len(self.buf) < 4:
                    break
                n, o = int.from_bytes(self.buf[2:4], "big"), 4
                if n < 126:
                    raise Violation("WebSocket frame length not minimal")
            elif n == 127:
                if len(self.buf) < 10:
                    break
                n, o = int.from_bytes(self.buf[2:10], "big"), 10
                if n < 65536:
                    raise Violation("WebSocket frame length not minimal")
            if len(self.buf) < o + n:
                break
            data, self.buf = self.buf[o:o + n], self.buf[o + n:]
            op, fin = a & 15, a & 128
            self.count("WebSocket frames received")
            if op in (8, 9, 10) and (not fin or n > 125):
                raise Violation("WebSocket control frame of the broker is fragmented or too long")
            if op == 2 or op == 0:
                if (op == 0) != self.open_:
                    raise Violation("WebSocket opcode %d, unfinished message: %s" % (op, self.open_))
                self.open_ = not fin
                out += data
            elif op == 10:
                if data not in self.pings:
                    raise Violation("pong %r answers none of the pings %r" % (data, self.pings))
                del self.pings[:self.pings.index(data) + 1]     # a pong may answer the most recent of several pings
                self.count("pongs")
            elif op == 9:
                self.inner.sendall(self.frame(10, data))
            elif op == 8:
                if n == 1:
                    raise Violation("close frame with one byte")
                self.got_close = True
                self.count("close frames received")
            else:
                raise Violation("WebSocket frame with opcode %d" % op)
        return out

    # ------------------------------------------------------------ ending
    def shutdown(self, how):
        self.flush()
        if self.r.random() < .6:
            self.sent_close = True
            try:
                self.inner.sendall(self.frame(8, self.r.choice([b"", b"\x03\xe8", b"\x03\xe9bye"])))
                self.count("close frames sent")
            except OSError:
                pass
        else:
            self.inner.shutdown(how)

    def close(self):
        self.inner.close()


class Wss(Ws):
    base = Tls


KINDS = {"tcp": Link, "tls": Tls, "ws": Ws, "wss": Wss}
