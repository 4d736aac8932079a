"""C42: the activity feed reports packets truthfully"""
import json
from mon import wire as W
from mon.drive import Drive
from mon.process import Tap
from mon.sim import Client
from mon.clock import real_sleep
from mon.suite import *

ID = "C42"
TOPIC = "$SYS/clients-packets"
RULE = ("one evaluation = one history of the live broker in visual mode, judged event by event by the trace specification, with watchers of both versions whose reports are "
        "compared, packet by packet and field by field, with what the clients sent and received; distinct = (features exercised, deliveries/4)")
ASSUMPTIONS = "the packets of clients of version 5 are reported, as packet.json() lays them out; reports have QoS 0; malformed packets are not reported"
PLAN = {"quick": 320, "thorough": 8000}
REACH = {"distinct": 80, "reports": 15000, "reports client to server": 5000, "reports server to client": 6000, "late watchers": 60, "takeovers": 10, "resent": 20}

TYPES = {W.CONNECT: "Connects", W.CONNACK: "Connacks", W.PUBLISH: "Publishes", W.PUBACK: "Pubacks", W.PUBREC: "Pubrecs", W.PUBREL: "Pubrels", W.PUBCOMP: "Pubcomps",
         W.SUBSCRIBE: "Subscribes", W.SUBACK: "Subacks", W.UNSUBSCRIBE: "Unsubscribes", W.UNSUBACK: "Unsubacks", W.PINGREQ: "Pingreqs", W.PINGRESP: "Pingresps",
         W.DISCONNECT: "Disconnects"}
NAMES = {0: "Success", 1: "Granted QoS 1", 2: "Granted QoS 2", 4: "Disconnect with will message", 16: "No matching subscribers", 17: "No subscription found", 0x80: "Unspecified error",
         0x8E: "Session taken over"}


def reason(t, rc):
    if rc == 0 and t == W.SUBACK:
        return "Granted QoS 0"
    if rc == 0 and t == W.DISCONNECT:
        return "Normal disconnection"
    return NAMES.get(rc)


def props(ps):
    out = {}
    for i, v in ps or []:
        name = W.PROPS[i][0]
        if isinstance(v, (bytes, bytearray)):
            v = str(bytes(v))
        if name in ("UserProperty", "SubscriptionIdentifier"):
            out.setdefault(name, []).append(list(v) if type(v) is tuple else v)
        else:
            out[name] = v
    return out


def told(p):
    """what a report must say of a packet: {path: value}."""
    t = p["t"]
    d = {"PacketType": TYPES[t], "QoS": p.get("qos", 0) if t == W.PUBLISH else 1 if t in (W.PUBREL, W.SUBSCRIBE, W.UNSUBSCRIBE) else 0,
         "DUP": bool(p.get("dup")) if t == W.PUBLISH else False, "RETAIN": bool(p.get("retain")) if t == W.PUBLISH else False}
    if t not in (W.PINGREQ, W.PINGRESP):
        d["Properties"] = props(p.get("props"))
    if t == W.CONNECT:
        w = p.get("will")
        d.update(ProtocolName="MQTT", ProtocolVersion=5, CleanStart=bool(p["clean"]), WillFlag=bool(w), KeepAliveTimer=p["keepalive"], ClientId=p["cid"])
        if w:
            d.update(WillQoS=w["qos"], WillRETAIN=bool(w["retain"]), WillTopic=w["topic"], WillProperties=props(w["props"]), WillMessage=str(w["payload"]))
    elif t == W.CONNACK:
        d.update(SessionPresent=bool(p["sp"]), ReturnCode=reason(t, p["rc"]))
    elif t == W.PUBLISH:
        d.update(TopicName=p.get("rawtopic", p["topic"]), Payload=str(bytes(p["payload"])))
        if p.get("qos"):
            d["PacketId"] = p["id"]
    elif t == W.DISCONNECT:
        d["ReasonCode"] = reason(t, p.get("rc", 0))
    elif t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP):
        d.update(PacketId=p["id"], Reason=reason(t, p.get("rc", 0)))
    elif t == W.SUBSCRIBE:
        d.update(PacketId=p["id"], Data=[[f, o["qos"], bool(o.get("nl")), bool(o.get("rap")), o.get("rh", 0)] for f, o in p["subs"]])
    elif t == W.UNSUBSCRIBE:
        d.update(PacketId=p["id"], Data=list(p["filters"]))
    elif t in (W.SUBACK, W.UNSUBACK):
        d.update(PacketId=p["id"], Reasons=[reason(t, x) for x in p["rcs"]])
    return d


def report(j):
    """the same of a report."""
    d = {k: j["fh"][k] for k in ("PacketType", "QoS")}
    d.update(DUP=bool(j["fh"]["DUP"]), RETAIN=bool(j["fh"]["RETAIN"]))
    t = d["PacketType"]
    if t in ("Pingreqs", "Pingresps"):
        return d
    d["Properties"] = j.get("Properties", {})
    for k in ("ProtocolName", "ProtocolVersion", "CleanStart", "WillFlag", "KeepAliveTimer", "ClientId", "WillQoS", "WillRETAIN", "WillTopic", "WillProperties", "WillMessage",
              "SessionPresent", "ReturnCode", "TopicName", "Payload", "PacketId", "ReasonCode", "Data"):
        if k in j:
            d[k] = j[k]
    for k in ("WillMessage", "Payload"):
        if str(d.get(k)).startswith("bytearray("):
            d[k] = d[k][len("bytearray("):-1]
    for k in ("CleanStart", "WillFlag", "WillRETAIN", "SessionPresent"):
        if k in d:
            d[k] = bool(d[k])
    if t == "Subscribes":
        d["Data"] = [[f, o["QoS"], bool(o["noLocal"]), bool(o["retainAsPublished"]), o["retainHandling"]] for f, o in j["Data"]]
    if t in ("Pubacks", "Pubrecs", "Pubrels", "Pubcomps"):
        d["Reason"] = j["Reason code"][0] if "Reason code" in j else "Success"
    if t in ("Subacks", "Unsubacks"):
        d["Reasons"] = j["Reason codes"]
    return d


class Watched(Drive):
    def start(self):
        self.watchers = []
        self.late = self.r.randrange(1, 20)
        self.steps = 0
        self.watch(4)
        Drive.start(self)

    def watch(self, v):
        c = Client(Tap(self.sim.addr), "watcher%d" % len(self.watchers), v)
        c.connect(clean=True, keepalive=0)
        c.subscribe([(self.r.choice([TOPIC, "$SYS/+", "$SYS/#"]), {"qos": self.r.randrange(3)} if v == 5 else self.r.randrange(3))])
        self.watchers.append(c)

    def step(self):
        Drive.step(self)
        for c in self.watchers:
            c.pump()
        self.steps += 1
        if self.steps == self.late:
            self.watch(self.r.choice([4, 5]))
            self.ctx.count("late watchers")

    def judge(self):
        ctx = self.ctx
        streams = []
        for _ in range(2):                 # (the last ping of a watcher is reported to the others too)
            for c in reversed(self.watchers):
                ctx.expect(c.ping(), "a watcher gets no answer")
        for c in self.watchers:
            ctx.expect(not c.bad, lambda: "a watcher gets invalid data: %s" % c.bad)
            out = []
            for p in c.publishes():
                ctx.expect(p["topic"] == TOPIC and p["qos"] == 0 and not p["retain"], lambda: "a watcher gets %s" % W.show(p))
                try:
                    j = json.loads(p["payload"])
                    out.append((j["direction"], j["clientid"], j["socket"], j["packet"]))
                except (ValueError, KeyError) as e:
                    ctx.fail("a report is not readable: %r" % bytes(p["payload"]))
            streams.append(out)
        ctx.count("reports", len(streams[0]))
        names = set(c.cid for c in self.watchers)
        own = lambda s: [x for x in s if x[1] not in names]
        for s in streams[1:]:
            a, b = own(streams[0]), own(s)
            ctx.expect(a[len(a) - len(b):] == b, lambda: "two watchers are told different things: %s" % difference(a[len(a) - len(b):], b))
        for s in streams:
            for d, cid, k, j in s:
                ctx.expect(not (j.get("TopicName") == TOPIC and d == "StoC"), "the feed reports its own reports")
        self.compare(own(streams[0]))

    def compare(self, reports):
        ctx = self.ctx
        ver, cids = {}, {}
        over, dropped, keep = set(), set(), []
        wire, cur = {}, {}            # connections of each client: [[sent], [received]]
        for n, t, name, kind, p in self.sim.trace:
            if kind in ("drop", "eof"):
                over.add(id(cur.get(name)))
            if kind == "drop":
                dropped.add(name)
            if not isinstance(p, dict) or kind not in (">", "<"):
                continue
            if p["t"] == W.CONNECT and kind == ">":
                ver[name], cids[name] = p["_v"], p["cid"]
                cur[name] = ([], [])
                keep.append(cur[name])
                dropped.discard(name)
                if p["_v"] == 5:
                    wire.setdefault(p["cid"], []).append(cur[name])
            if name in cur and not (kind == ">" and name in dropped):   # (nothing can be sent any more)
                cur[name][kind == "<"].append(p)
                if kind == ">" and p["t"] == W.DISCONNECT:
                    dropped.add(name)
        told, rcur = {}, {}
        for d, cid, sock, j in reports:
            ctx.expect(cid in wire, lambda: "a packet of %r is reported: %s" % (cid, j))
            ctx.expect(d in ("CtoS", "StoC"), lambda: "a report with direction %r" % d)
            if j["fh"]["PacketType"] == "Connects":
                rcur[cid, sock] = ([], [])
                told.setdefault(cid, []).append(rcur[cid, sock])
            ctx.expect((cid, sock) in rcur, lambda: "a packet of %s at socket %s is reported, where it is not connected: %s" % (cid, sock, j))
            rcur[cid, sock][d == "StoC"].append(j)
        for cid in wire:
            a, b = wire[cid], told.get(cid, [])
            ctx.expect(len(a) == len(b), lambda: "%s connected %d times, %d are reported" % (cid, len(a), len(b)))
            for n, (x, (rs, rg)) in enumerate(zip(a, b)):
                s, g = x
                ended = any(p["t"] == W.DISCONNECT for p in g)        # what it sent after that was not read
                self.same("from %s, connection %d" % (cid, n), s, rs, ended)
                self.same("to %s, connection %d" % (cid, n), g, rg[:len(g)] if id(x) in over else rg)     # (what is written to a connection while it ends may be lost)
                ctx.count("reports client to server", len(rs))
                ctx.count("reports server to client", len(rg))
                ctx.count("takeovers", ended)
                ctx.count("resent", sum(1 for p in g if p["t"] == W.PUBLISH and p.get("dup")))

    def same(self, who, packets, reports, ended=False):
        ctx = self.ctx
        for n in range(max(len(packets), len(reports))):
            ctx.expect(n < len(packets), lambda: "%s: a packet is reported which did not pass: %s" % (who, reports[n]))
            if ended and n >= len(reports):
                return
            ctx.expect(n < len(reports), lambda: "%s: a packet is not reported: %s" % (who, W.show(packets[n])))
            a, b = told(packets[n]), report(reports[n])
            bad = [k for k in set(a) | set(b) if a.get(k) != b.get(k) and not (a.get(k) is None and k in ("Reason", "ReasonCode", "ReturnCode"))]
            ctx.expect(not bad, lambda: "%s: the report of %s says %s instead of %s" % (who, W.show(packets[n]), {k: b.get(k) for k in bad}, {k: a.get(k) for k in bad}))

    def run(self):
        try:
            Drive.run(self)
            self.judge()
        finally:
            for c in self.watchers:
                c.kill()


def difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s and %s" % (x, y)
    return "%d and %d reports" % (len(a), len(b))


PROFILES = [dict(v5=.8, props=.5), dict(v5=.7, alias=.6, manual=.5, multi=.4, dup=.2, ops=dict(takeover=4, unsub=10)),
            dict(v5=.8, will=.6, will_delay=.3, expiry=.2, share=.2, retain=.3, ops=dict(drop=8, connect=16))]


def scenario(r, ctx, idx):
    Watched(r, ctx, PROFILES[idx % 3], config=["visual true"]).run()
