"""C23: one connection per client identifier"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C23"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; takeovers at any moment; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 120, 'empty client identifiers refused': 20, 'assigned identifiers used': 15, 'scenarios with takeover': 300}

BASE = profile(dict(will=.5, will_delay=.3, manual=.5, persistent=.8, hold=.2, ops=dict(takeover=25, drop=3, disc=3, connect=10, advance=3)))
V4 = profile(dict(will=.5, v5=0, manual=.5, persistent=.8, ops=dict(takeover=25, drop=3, disc=3, connect=10)))


def chain(r, ctx):
    """one identifier handed from connection to connection while messages are under way; empty identifiers beside it."""
    d = new(r, ctx, v5=.8)
    v = r.choice([4, 5, 5])
    w = join(d, "w", 5)
    w.subscribe([("will/#", {"qos": 1})])
    p = join(d, "p", 5)
    cur = None
    for k in range(r.randrange(3, 9)):
        n = d.client("x.%d" % k, v, cid="x")
        n.ack = r.choice(["auto", "manual"])
        will = {"qos": 1, "retain": False, "topic": "will/x", "payload": b"w%d" % k, "props": []} if r.random() < .6 else None
        if cur is not None:
            d.clients.remove(cur)
        n.connect(clean=r.random() < .25, will=will, props=[(17, r.choice([0, 100]))] if v == 5 else None)
        n.acked = set()
        d.step()
        ctx.expect(n.connack is not None and n.connack["rc"] == 0, "the newer connection was refused")
        if cur is not None:
            ctx.expect(not cur.alive, "the older connection of the client is still open")
        cur = n
        if r.random() < .7:
            n.subscribe([("a", {"qos": 2} if v == 5 else 2)])
        for _ in range(r.randrange(4)):
            p.publish("a", d.payload(), r.randrange(3))
        if r.random() < .3:
            e = d.client("e%d" % k, 5 if v == 5 else 4, cid="")
            clean = r.random() < .4
            e.connect(clean=clean, props=[(17, 100)] if v == 5 and r.random() < .7 else None)
            d.step()
            ctx.count("empty client identifiers")
            if v == 4 and not clean:     # there is nothing to keep a session by
                ctx.count("empty client identifiers refused")
                d.clients.remove(e)
            elif r.random() < .4:
                d.clients.remove(e)
                e.disconnect()
            else:
                e.subscribe([("a", {"qos": 0} if e.v == 5 else 0)])
                if v == 5 and e.connack and r.random() < .6:      # the assigned identifier is one like others
                    ctx.count("assigned identifiers used")
                    d.clients.remove(e)
                    if r.random() < .5:
                        r.choice([e.drop, e.disconnect])()
                        p.publish("a", d.payload(), 1)
                        d.step()
                    f = d.client("f%d" % k, 5, cid=W.pget(e.connack["props"], "AssignedClientIdentifier"))
                    f.connect(clean=r.random() < .2)
                    d.step()
                    d.clients.remove(f)
                    f.disconnect()
        d.step()
        if r.random() < .15:
            cur.drop()
            d.step()
    for e in [c for c in d.clients if c.cid == ""]:
        d.clients.remove(e)
        e.disconnect()
        d.step()
    done(d)


scenario = mixed(BASE, V4, chain)
