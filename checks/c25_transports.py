"""C25: the transport makes no difference"""
import socket
from mon import wire as W, transport
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *
from mon.sim import free_port, HarnessError
from mon.clock import real_sleep, real_monotonic, real_select
from mon.runner import Violation

ID = "C25"
RULE = ("one evaluation = one history of the live broker whose clients use plain TCP in random segments or batches, TLS, WebSockets (fragmented, with control "
        "frames) and WebSockets over TLS, judged event by event by the trace specification; distinct = (transports used, features of the specification exercised)")
ASSUMPTIONS = ("the specification in mon/model.py reads the standards correctly; pauses within a packet are fractions of a second; wss and tls use TLS 1.2 with the "
               "repository's test certificates")
PLAN = {"quick": 320, "thorough": 12000}
REACH = {"huge packets": 16, "distinct": 100, "segments": 5000, "WebSocket frames sent": 5000, "WebSocket fragments": 300, "TLS connections": 80, "pongs": 100,
         "close frames received": 20, "large packets": 100}


class Carried(Drive):
    def __init__(self, r, ctx, prof, config=(), options=None, model=None, kinds=("tcp", "ws", "tls", "wss"), big=0):
        self.kinds, self.big1 = kinds, big
        self.tls = None
        if "tls" in kinds or "wss" in kinds:
            self.tls = ("127.0.0.1", free_port())
            config = list(config) + transport.tls_lines(self.tls[1])
        self.used = set()
        Drive.__init__(self, r, ctx, prof, config=config, options=options, model=model)
        if self.tls:
            end = real_monotonic() + 10
            while True:
                try:
                    socket.create_connection(self.tls, 2).close()
                    break
                except OSError:
                    if real_monotonic() > end:
                        raise HarnessError("no TLS listener")
                    real_sleep(.01)

    def client(self, name, v, **kw):
        c = Drive.client(self, name, v, **kw)

        def dial():
            k = self.r.choice(self.kinds)
            mode = self.r.choice(["cut", "cut", "batch", "whole"])
            self.used.add(k + mode)
            self.ctx.count("connections by " + k)
            return transport.KINDS[k](self.tls if k in ("tls", "wss") else self.sim.addr, self.r, mode, self.ctx)
        c.dial = dial
        return c

    def will(self, c):
        w = Drive.will(self, c)
        w["payload"] = w["payload"][:1000]
        return w

    def payload(self):
        p = Drive.payload(self)
        if self.big1 and self.r.random() < self.big1:
            self.ctx.count("large packets")
            p += b"x" * self.r.choice([110, 118, 120, 121, 122, 123, 125, 126, 127, 130, 250, 16370, 16383, 16384, 65500, 65520, 65530, 65535, 65536, 70000])
        return p


def history(**kw):
    prof = dict(dict(steps=(20, 35), will=.3, manual=.4), **kw.pop("prof", {}))

    def fn(r, ctx):
        k = dict(kw)
        if r.random() < .3:
            k["kinds"] = ("ws",)
        if k.get("big"):
            k["config"] = ["maximum_packet_size 200000"]
            k["model"] = dict(maximum_packet_size=200000)
        d = Carried(r, ctx, prof, **k)
        d.run()
        ctx.distinct.add("/".join(sorted(d.used)) + " " + str(kw.get("big", 0)))
    return fn


SMALL = history()
LARGE = history(big=.3, prof=dict(retain=.2, qos=(1, 1, 1)))
NOTLS = history(kinds=("tcp", "ws"))


def batches(r, ctx):
    """many packets in one piece: everything after CONNECT in the same segment or frame."""
    d = Carried(r, ctx, dict(will=0, alias=0, manual=0, nl=0), config=["receive_maximum 20"], model=dict(receive_maximum=20))
    s = join(d, "s", 5)
    s.subscribe([("#", {"qos": 2})])
    d.step()
    for n in range(r.randrange(2, 5)):
        v = r.choice([4, 5])
        k = r.choice(d.kinds)
        link = transport.KINDS[k](d.tls if k in ("tls", "wss") else d.sim.addr, r, "batch", ctx)
        c = Drive.client(d, "b%d" % n, v)
        c.dial = lambda: link
        ps = []
        for j in range(r.randrange(1, 8)):
            q = r.randrange(3)
            p = {"t": W.PUBLISH, "topic": r.choice(TOPICS), "payload": d.payload(), "qos": q, "retain": False, "dup": False, "props": []}
            if q:
                p["id"] = c.newid()
            ps.append(p)
        if r.random() < .5:
            ps.insert(r.randrange(len(ps) + 1), {"t": W.SUBSCRIBE, "id": c.newid(), "props": [],
                                                 "subs": [("none", {"qos": 1} if v == 5 else 1)]})
        # one piece
        c.open()
        link.r = type("R", (), {"random": lambda self: 1.0, "choice": r.choice, "randrange": r.randrange, "shuffle": r.shuffle})()
        c.send({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": c.cid, "will": None, "props": [], "username": None, "password": None, "_v": v})
        for p in ps:
            c.send(p)
        c.wait_for(lambda q: q["t"] == W.CONNACK)
        for p in ps:
            if p["t"] == W.PUBLISH and p["qos"] == 2:
                c.wait_for(lambda q: q["t"] == W.PUBREC and q["id"] == p["id"])
                c.send({"t": W.PUBREL, "id": p["id"]})
                c.wait_for(lambda q: q["t"] == W.PUBCOMP and q["id"] == p["id"])
        ctx.count("batches")
        d.step()
        if r.random() < .5:
            # and the last packets together with the end of the connection
            c.send({"t": W.PUBLISH, "topic": "a", "payload": d.payload(), "qos": 0, "retain": False, "dup": False, "props": []})
            if r.random() < .5:
                c.disconnect()
            else:
                c.drop()
            d.step()
    d.m.feed(d.sim.trace)
    done(d)


def d_huge(r, ctx):
    """messages larger than all socket buffers, so that they can't be written at once."""
    d = Carried(r, ctx, dict(will=0, alias=0, manual=0, nl=0), config=["maximum_packet_size 20000000"], model=dict(maximum_packet_size=20000000))
    for k in ("tcp", "ws", "tls", "wss"):
        d.kinds = (k,)
        for v in (4, 5):
            s = join(d, "s%s%d" % (k, v), v)
            s.subscribe([(k, {"qos": 1} if v == 5 else 1)])
            d.step()
            d.kinds = ("tcp",)
            p = join(d, "p%s%d" % (k, v), 5)
            d.step()
            for q in (0, 1):
                pl = d.payload() + r.randbytes(1 << 20) * 8
                p.publish(k, pl, q, complete=False)
                s.timeout = 40
                s.wait_for(lambda x: x["t"] == W.PUBLISH and x["payload"][:50] == pl[:50])
                d.step()
                ctx.count("huge packets")
            s.disconnect()
            p.disconnect()
            d.step()
    ctx.count("huge histories")


DIRECTED = [d_huge]
scenario = mixed(SMALL, LARGE, NOTLS, batches, LARGE)
