"""C22: a misbehaving client harms nobody else"""
import socket, struct
from mon import wire as W, transport, hostile, gen
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *
from mon.sim import free_port, HarnessError
from mon.clock import real_sleep, real_monotonic, real_select
from mon.runner import Violation

ID = "C22"
RULE = ("one evaluation = one history of innocent clients, judged event by event by the trace specification, with offenders among and beside them: protocol "
        "violations, first packets that are none, mutated packets, resets, and connections stuck in a packet, a TLS or a WebSocket handshake; "
        "distinct = (kinds of offence, features of the specification exercised)")
ASSUMPTIONS = ("the specification in mon/model.py reads the standards correctly; clients that do not read are not among the offenders; how an offender is told is judged "
               "only where the standard names a reason")
PLAN = {"quick": 600, "thorough": 20000}
REACH = {"distinct": 150, "protocol violations": 600, "improper beginnings": 600, "mutated streams": 400, "resets": 200, "stuck connections": 300,
         "deliveries": 2500}


class Beset(Drive):
    """innocent clients with offenders beside them."""

    def __init__(self, r, ctx, prof, tls=False, **kw):
        config = list(kw.pop("config", ()))
        self.tls = None
        if tls:
            self.tls = ("127.0.0.1", free_port())
            config += transport.tls_lines(self.tls[1])
        self.stuck = []
        self.kinds1 = set()
        self.nh = 0
        Drive.__init__(self, r, ctx, prof, config=config, **kw)

    # ------------------------------------------------------------ offenders
    def dial(self, tls=False):
        s = socket.create_connection(self.tls if tls else self.sim.addr, 10)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        return s

    def gone(self, s, what, limit=20):
        """the broker must end this connection; returns what it sent before."""
        end = real_monotonic() + limit
        got = b""
        while True:
            if real_select([s], [], [], .2)[0]:
                try:
                    x = s.recv(65536)
                except OSError:
                    x = b""
                if not x:
                    s.close()
                    return got
                got += x
            if real_monotonic() > end:
                s.close()
                raise Violation("the connection stayed open %d s after %s" % (limit, what))

    def op_offend(self):
        cs = [c for c in self.up() if c.ack == "auto"]
        if cs:
            c = self.r.choice(cs)
            offend(self, c)
            self.kinds1.add("offend")

    def op_begin(self):
        name, b = self.r.choice(hostile.first_packets(self.r))
        s = self.dial()
        self.sim.log("-", "hostile", name)
        try:
            s.sendall(b)
            s.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        got = self.gone(s, "%s (%s) and the end of its stream" % (name, b.hex()))
        if got[:1] == b"\x20" and len(got) > 3 and got[3] == 0:
            raise Violation("the broker accepted a connection that began with %s: %s" % (name, b.hex()))
        self.ctx.count("improper beginnings")
        self.kinds1.add("begin")

    def hostile_id(self):
        self.nh += 1
        return "hostile%d" % self.nh

    def session(self, s, v):
        """a proper beginning."""
        will = None
        s.sendall(W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": self.hostile_id(), "will": will, "props": [],
                            "username": None, "password": None}, v))
        end = real_monotonic() + 20
        got = b""
        while not got:
            if real_select([s], [], [], .5)[0]:
                got = s.recv(100)
                if not got:
                    break
            if real_monotonic() > end:
                break
        if got[:1] != b"\x20" or got[3] != 0:
            raise Violation("a new client was not accepted: %r" % got)

    def junk(self, v):
        """packets of a client, damaged."""
        r = self.r
        out = b""
        for _ in range(r.randrange(1, 4)):
            t = r.choice([W.PUBLISH, W.SUBSCRIBE, W.UNSUBSCRIBE, W.PUBREL, W.PUBACK, W.PINGREQ, W.DISCONNECT])
            if t == W.PUBLISH:
                q = r.randrange(3)
                p = {"t": t, "topic": "$hostile/x", "payload": r.randbytes(r.randrange(20)), "qos": q, "retain": r.random() < .3, "dup": False, "props": []}
                if q:
                    p["id"] = r.randrange(1, 9)
            elif t == W.SUBSCRIBE:
                p = {"t": t, "id": r.randrange(1, 9), "props": [], "subs": [("$hostile/#", {"qos": 1} if v == 5 else 1)]}
            elif t == W.UNSUBSCRIBE:
                p = {"t": t, "id": r.randrange(1, 9), "props": [], "filters": ["$hostile/#"]}
            elif t == W.DISCONNECT:
                p = {"t": t, "rc": 0, "props": []}
            elif t == W.PINGREQ:
                p = {"t": t}
            else:
                p = {"t": t, "id": r.randrange(1, 9)}
            out += W.encode(p, v)
        b = bytearray(out)
        for _ in range(r.choice([1, 1, 2, 5])):
            x = r.random()
            k = r.randrange(len(b) or 1)
            if not b:
                b += r.randbytes(2)
            elif x < .5:
                b[k] = r.randrange(256)
            elif x < .7:
                b[k] ^= 1 << r.randrange(8)
            elif x < .85 and len(b) > 2:
                del b[k:k + r.randrange(1, 4)]
            else:
                b[k:k] = r.randbytes(r.randrange(1, 4))
        b = bytes(b)
        # it must stay among the offenders: nothing in it may be a valid message to others
        try:
            ps, rest = W.split(b)
        except W.Malformed:
            ps = []
            # the valid part before the malformed length
            for n in range(len(b), 0, -1):
                try:
                    ps, rest = W.split(b[:n])
                    break
                except W.Malformed:
                    continue
        for raw in ps:
            try:
                p = W.decode(raw, v)
            except W.Malformed:
                break
            if p["t"] == W.PUBLISH and not p["topic"].startswith("$hostile") or p["t"] == W.CONNECT:
                return None
            if p["t"] == W.SUBSCRIBE and any(not f.startswith("$hostile") for f, _ in p["subs"]):
                return None
        return b

    def op_mutate(self):
        v = self.r.choice([4, 5])
        b = self.junk(v)
        if b is None:
            return
        s = self.dial()
        self.session(s, v)
        self.sim.log("-", "hostile", b)
        try:
            for k in range(0, len(b), 7):
                s.sendall(b[k:k + 7])
            if self.r.random() < .7:
                s.shutdown(socket.SHUT_WR)
            else:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
                s = None
        except OSError:
            pass
        if s is not None:
            self.gone(s, "%s and the end of its stream" % b.hex())
        self.ctx.count("mutated streams")
        self.kinds1.add("mutate")

    def op_reset(self):
        v = self.r.choice([4, 5])
        s = self.dial()
        if self.r.random() < .8:
            self.session(s, v)
            if self.r.random() < .5:
                s.sendall(W.encode({"t": W.SUBSCRIBE, "id": 1, "props": [], "subs": [("#", {"qos": 1} if v == 5 else 1)]}, v))
            if self.r.random() < .5:
                s.sendall(W.encode({"t": W.PUBLISH, "topic": "$hostile/y", "payload": b"x" * 60, "qos": 1, "id": 3, "retain": False, "dup": False,
                                    "props": []}, v)[:self.r.randrange(1, 60)])
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.sim.log("-", "hostile", "reset")
        s.close()
        self.ctx.count("resets")
        self.kinds1.add("reset")

    def op_stick(self):
        """begin something and leave it at that."""
        r = self.r
        kind = r.choice(["connect", "packet", "handshake", "frame", "nothing"] + (["tls", "tls-nothing"] if self.tls else []))
        self.sim.log("-", "hostile", "stuck in " + kind)
        s = self.dial(kind.startswith("tls"))
        self.stuck.append(s)
        if kind == "connect":
            s.sendall(W.encode({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": self.hostile_id(), "will": None, "props": [],
                                "username": None, "password": None}, r.choice([4, 5]))[:r.randrange(1, 14)])
        elif kind == "packet":
            v = r.choice([4, 5])
            self.session(s, v)
            s.sendall(W.encode({"t": W.PUBLISH, "topic": "$hostile/y", "payload": b"x" * 60, "qos": 1, "id": 3, "retain": False, "dup": False,
                                "props": []}, v)[:r.randrange(1, 60)])
        elif kind == "handshake":
            s.sendall(b"GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\n"[:r.randrange(1, 50)])
        elif kind == "frame":
            s.sendall(b"GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                      b"Sec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: mqtt\r\n\r\n")
            real_select([s], [], [], 5)
            s.sendall(b"\x82\xfe\x10\x00abcdefgh"[:r.randrange(1, 12)])
        elif kind == "tls":
            s.sendall(b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"[:r.randrange(1, 11)])
        self.ctx.count("stuck connections")
        self.ctx.count("stuck in " + kind)
        self.kinds1.add(kind)

    def op_flood(self):
        ss = [self.dial(self.tls is not None and self.r.random() < .3) for _ in range(self.r.randrange(5, 25))]
        for s in ss:
            s.close()
        self.ctx.count("connections of floods", len(ss))
        self.kinds1.add("flood")

    def release(self):
        for s in self.stuck:
            s.close()
        self.stuck = []

    def op_advance(self):
        self.release()          # virtual time does not pass for what is stuck
        Drive.op_advance(self)

    def finish(self, drain=True):
        # anyone can still come
        for v in (4, 5):
            s = self.dial()
            self.session(s, v)
            s.close()
        if self.tls:
            l = transport.Tls(self.tls, self.r, "whole")
            self.session(l.sock, 5)
            l.close()
        self.release()
        Drive.finish(self, drain)
        self.ctx.distinct.add(" ".join(sorted(self.kinds1)))


OPS = dict(begin=6, mutate=6, reset=4, stick=5, flood=1, offend=8)


def beset(prof=None, tls=0):
    prof = dict(prof or {})
    prof["ops"] = dict(OPS, **prof.get("ops", {}))

    def fn(r, ctx):
        Beset(r, ctx, prof, tls=r.random() < tls).run()
    return fn


BASE = beset(dict(will=.3, clients=(3, 5), steps=(30, 45)))
WIDE = beset(dict(will=.3, will_delay=.3, steps=(30, 45), ops=dict(advance=2)), tls=.6)
OFFENDERS = beset(dict(will=.6, clients=(4, 6), steps=(30, 45), ops=dict(offend=25, connect=25)))
scenario = mixed(BASE, WIDE, OFFENDERS)
