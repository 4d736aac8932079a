"""C34: the MQTT-SN gateway between MQTT-SN publishers and MQTT subscribers."""
import contextlib, io, os, select, socket, socketserver, sys, threading, time
from mon import sn, wire as W
from mon.drive import Drive
from mon.runner import Violation
from mon.sim import free_port
from mon.clock import CLOCK

ID = "C34"
RULE = ("random histories of MQTT 3.1.1 and 5 clients on a live broker with an MQTT-SN listener, while MQTT-SN clients on several ports connect, publish (QoS 0 and -1, short topics, "
        "retained or not, up to the longest datagrams) and send malformed and unsupported datagrams; every delivery to an MQTT client is judged by the trace specification, every "
        "answer to an MQTT-SN client by the state of the connection; distinct = (features of the specification, deliveries/4)")
ASSUMPTIONS = ["MQTT-SN clients do not have the client identifiers of MQTT clients", "a second connect request from the same port, and values the standard reserves, are left open",
               "datagrams are given time to be handled one after the other, as UDP does not keep their order"]
PLAN = {"quick": 500, "thorough": 10000}
REACH = {"distinct": 60, "deliveries": 2000, "published by SN": 1500, "connects answered": 300, "datagrams without effect": 1500, "retained by SN": 200}
done = [0]
cond = threading.Condition()

TOPICS = ["ab", "a/", "/a", "//", "$x", "\u00e9", "zz"]
FILTERS = ["ab", "#", "+", "+/", "/+", "+/+", "$x", "$x/#", "\u00e9", "zz", "a/#", "/#", "a/+", "+/a"]


def setup(ctx):
    orig = socketserver.BaseServer.finish_request

    def finish_request(self, request, client_address):
        try:
            return orig(self, request, client_address)
        finally:
            if self.socket_type == socket.SOCK_DGRAM:
                with cond:
                    done[0] += 1
                    cond.notify_all()
    socketserver.BaseServer.finish_request = finish_request


class SN:
    """MQTT-SN side of a history."""

    def __init__(self, d, port, n):
        self.d, self.to = d, ("127.0.0.1", port)
        self.socks = []
        for k in range(n):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.bind(("127.0.0.1", 0))
            self.socks.append(s)
        self.conn = {}       # index of socket -> client id

    def stop(self):
        for s in self.socks:
            s.close()

    def answers(self, k, wait):
        out = []
        s = self.socks[k]
        while select.select([s], [], [], wait)[0]:
            out.append(s.recvfrom(70000))
            wait = 0
        return out

    def send(self, k, b):
        """one datagram, and what it has to lead to."""
        d = self.d
        try:
            p, canonical = sn.decode(b)
        except sn.Bad:
            p, canonical = None, False
        kind, hit = "none", None
        if p and p["t"] == sn.CONNECT:
            f = p["flags"]
            plain = f["qos"] == 0 and not f["dup"] and not f["retain"] and f["tit"] == 0 and b[0] != 1 and len(p["cid"]) <= 23 and "\0" not in p["cid"]
            if k in self.conn or not plain:
                return False
            kind = "accept" if canonical else "answer"
        elif p and p["t"] == sn.PUBLISH:
            q, tit = p["flags"]["qos"], p["flags"]["tit"]
            if tit == 2 and q in (0, -1):
                if not canonical:
                    return False
                raw = p["topic"].to_bytes(2, "big")
                try:
                    topic = raw.decode("utf-8")
                except UnicodeDecodeError:
                    topic = None
                if topic and not set(topic) & set("+#\0") and (q == -1 or k in self.conn):
                    kind, hit = "publish", {"topic": topic, "payload": p["data"], "retain": p["flags"]["retain"]}
        before = done[0]
        d.sim.log("sn%d" % k, "sends", sn.show(p) if p else b[:60])
        if hit:
            d.sim.log("sn%d" % k, "outside", hit)
        self.socks[k].sendto(b, self.to)
        end = time.monotonic() + 5
        with cond:
            while done[0] == before and time.monotonic() < end:
                cond.wait(.5)
        d.step()
        ctx = d.ctx
        if kind in ("accept", "answer"):
            got = self.answers(k, 15)
            ctx.expect(len(got) == 1, lambda: "connect request %s got %d answers" % (sn.show(p), len(got)))
            try:
                a = sn.decode(got[0][0])[0]
            except sn.Bad as e:
                ctx.fail("answer to a connect request is no message (%s): %s" % (e, got[0][0].hex()))
            d.sim.log("sn%d" % k, "gets", sn.show(a))
            ctx.expect(a["t"] == sn.CONNACK and got[0][1] == self.to, lambda: "connect request answered with %s from %s" % (sn.show(a), got[0][1]))
            if kind == "accept":
                ctx.expect(a["rc"] == 0, lambda: "connect request %s refused with %d" % (sn.show(p), a["rc"]))
            elif p["proto"] != 1:
                ctx.expect(a["rc"] != 0, lambda: "connect request with protocol id %d accepted" % p["proto"])
            if a["rc"] == 0:
                if p["cid"]:
                    for j in [j for j in self.conn if self.conn[j] == p["cid"]]:
                        del self.conn[j]
                self.conn[k] = p["cid"] or object()
            ctx.count("connects answered")
        else:
            got = self.answers(k, 0)
            ctx.expect(not got, lambda: "%s is answered with %s" % (sn.show(p) if p else b[:40].hex(), got[0][0].hex()))
            if kind == "publish":
                ctx.count("published by SN")
                if hit["retain"]:
                    ctx.count("retained by SN")
                ctx.count("longest by SN" if len(b) > 8000 else "SN")
            else:
                ctx.count("datagrams without effect")
        for j in range(len(self.socks)):
            if j != k:
                ctx.expect(not self.answers(j, 0), "another MQTT-SN client got an answer that is not for it")
        return True

    def something(self, r):
        k = r.randrange(len(self.socks))
        x = r.random()
        f = {"dup": False, "qos": 0, "retain": False, "will": False, "clean": r.random() < .5, "tit": 0}
        if x < .2:
            return k, sn.encode({"t": sn.CONNECT, "flags": f, "proto": 1, "duration": sn.u16(r), "cid": r.choice(["sn-a", "sn-b", "sn-\u00e9", "sn-%d" % r.randrange(9), "s" * 23])})
        if x < .25:
            return k, sn.encode({"t": sn.CONNECT, "flags": f, "proto": r.choice([0, 1, 1, 2, 255]), "duration": 0, "cid": r.choice(["", "", "sn-c"])})
        topic = r.choice(TOPICS) if r.random() < .9 else r.choice(["a+", "##", "+/", "a#", "\0a", "a\0"])
        raw = topic.encode()
        if r.random() < .04:
            raw = bytes([0xc3, 0x28])
        self.d.serial += 1
        data = b"s%d." % self.d.serial
        if r.random() < .1:
            data += b"x" * r.choice([236, 237, 238, 239, 240, 241, 300, 5000])
        elif r.random() < .03:
            data += b"x" * r.choice([8180, 8192, 20000, 60000])
        elif r.random() < .1:
            data = b""
        f.update(qos=r.choice([0, 0, 0, -1, -1, -1, 1, 2]), retain=r.random() < .3, tit=r.choice([2, 2, 2, 2, 2, 2, 0, 1]), clean=False)
        b = sn.encode({"t": sn.PUBLISH, "flags": f, "topic": int.from_bytes(raw, "big"), "id": sn.u16(r), "data": data})
        if r.random() < .3:
            b = sn.mutate(r, b)
        return k, b


class D(Drive):
    def op_sn(self):
        for n in range(self.r.choice([1, 1, 2, 4])):
            k, b = self.sn.something(self.r)
            self.sn.send(k, b)


def scenario(r, ctx, idx):
    prof = dict(topics=TOPICS, filters=FILTERS, v5=r.choice([.2, .5, .8]), steps=(20, 40), will=.1, retain=.2, manual=.1, props=.2, subid=.1, alias=0, aliasmax=(0, 3),
                recvmax=(None,), ops=dict(sn=45, pub=10, sub=16, unsub=5, drop=2, disc=3, connect=8, takeover=1, ack=4, advance=0, rel=0, burst=0))
    if r.random() < .2:
        prof["maxpkt"] = (None, 100)
    port = free_port(socket.SOCK_DGRAM)
    with contextlib.redirect_stderr(io.StringIO()):
        d = D(r, ctx, prof, config=["listener %d 127.0.0.1 mqttsn" % port])
        d.sn = SN(d, port, r.randrange(1, 5))
        try:
            d.run()
        finally:
            d.sn.stop()
