"""C43: the error behaviours which tests of clients ask the broker for"""
from mon import wire as W
from mon.drive import Drive
from mon.suite import *

ID = "C43"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification, which includes the special topics; clients of both versions ask for "
        "errors at any point of their sessions; distinct = (features exercised, deliveries/4)")
ASSUMPTIONS = ("the special topics have these meanings for version 5 publishers, and for subscribers of both versions; whether a refused publication reaches subscribers is as "
               "implemented (it does, unless publications wait for PUBREL); reason codes a server may send; payloads which are no reason code are left to C22")
PLAN = {"quick": 450, "thorough": 20000}
REACH = {"disconnections asked for": 200, "distinct": 200, "error:puback": 100, "error:pubrec": 100, "error:pubcomp": 100, "failing PUBCOMPs at once": 15}
CODES = [0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2, 0]
TOPICS = ["test_qos_1_2_errors", "test_qos_1_2_errors_pubcomp", "test_qos_1_2_errors", "test_qos_1_2_errors_pubcomp", "test/QoS 1 only", "test/QoS 0 only", "test/nosubscribe", "a"]
FILTERS = ["test_qos_1_2_errors", "test_qos_1_2_errors_pubcomp", "+", "#", "test/QoS 1 only", "test/QoS 0 only", "test/nosubscribe", "test/+", "a"]


class Asking(Drive):
    def op_ask(self):
        """a client asks to be disconnected."""
        r = self.r
        cs = [c for c in self.up() if c.v == 5]
        if not cs:
            return
        c = r.choice(cs)
        text = b"%d" % r.choice(CODES)
        if r.random() < .2:
            text = r.choice([b" %s ", b"+%s", b"00%s"]) % text
        c.publish("cmd/disconnectWithRC", text, r.randrange(3), r.random() < .2, self.pubprops(), complete=False)
        self.step()
        self.ctx.expect(not c.alive, "%s is still connected" % c.name)

    def finish(self, *a, **kw):
        Drive.finish(self, *a, **kw)
        for p in self.sim.trace:
            if p[3] == "<" and isinstance(p[4], dict) and p[4]["t"] in (W.PUBACK, W.PUBREC, W.PUBCOMP) and p[4].get("rc", 0) >= 0x80:
                self.ctx.count("error:%s" % W.NAMES[p[4]["t"]].lower())


PROFILES = [
    dict(v5=.8, topics=TOPICS, filters=FILTERS, props=.5, hold=.8, relprops=.5, alias=.3, qos=(1, 1, 5), recvmax=(None,), ops=dict(ask=6, rel=14, pub=40)),
    dict(v5=.8, topics=TOPICS, filters=FILTERS, props=.6, hold=.3, relprops=.5, will=.6, session_expiry=(0, 30, 1000), ops=dict(ask=12, connect=14)),
    dict(v5=.6, topics=TOPICS, filters=FILTERS, hold=.4, relprops=.3, maxpkt=(None, None, 60, 200), ops=dict(ask=8, sub=25)),
]


def scenario(r, ctx, idx):
    onrel = idx % 4 == 3
    n = r.choice([5, 10])
    Asking(r, ctx, PROFILES[idx % 3], config=["receive_maximum %d" % n, "maximum_packet_size 2000", "topic_alias_maximum 3"],
           options={"publish_on_pubrel": True} if onrel else None,
           model=dict(receive_maximum=n, maximum_packet_size=2000, topic_alias_maximum=3, publish_on_pubrel=onrel)).run()
