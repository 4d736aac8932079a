"""C18: topic aliases"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C18"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; alias maxima 0 to 8 in both directions; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 100, 'scenarios with alias-used': 200, 'scenarios with out-alias-used': 100}

def _lim(r):
    r._alias = r.choice([0, 1, 2, 5, 8])
    return limits(r, alias=r._alias)[0]


IN = profile(lambda r: dict(v5=.95, alias=.7 if r._alias >= 2 else 0, hold=.2, ops=dict(drop=8, connect=20, rel=10)), config=_lim, model=lambda r: dict(topic_alias_maximum=r._alias))
OUT = profile(dict(v5=.95, aliasmax=(0, 1, 2, 3, 8), recvmax=(None, 1, 2), manual=.6, persistent=.9, topics=TOPICS + ["c/d", "c/e", "c"], filters=FILTERS + ["c/#", "#", "#"],
                   ops=dict(sub=20, ack=20, drop=8, connect=20, burst=5)))
BOTH = profile(dict(v5=1, alias=.5, aliasmax=(0, 2, 5), retain=.4, manual=.3, big=.2, maxpkt=(None, 60), ops=dict(drop=6, connect=16, takeover=4)))
ONREL = profile(dict(v5=1, alias=.6, qos=(1, 1, 5), hold=.6, ops=dict(drop=6, connect=16, rel=20)), options={"publish_on_pubrel": True}, model={"publish_on_pubrel": True})


def wrong(r, ctx):
    """aliases that are zero, too large, or mean nothing on this connection."""
    amax = r.choice([0, 1, 2, 5])
    cfg, mod = limits(r, alias=amax)
    d = new(r, ctx, cfg, None, mod)
    s = join(d, "s", r.choice([4, 5]))
    s.subscribe([("#", {"qos": 2} if s.v == 5 else 2)])
    p = join(d, "p", 5)
    bound = {}
    for _ in range(r.randrange(10, 25)):
        if not p.alive:
            bound = {}
            rejoin(d, p)
        x = r.random()
        q = r.randrange(3)
        if x < .45 and amax:
            a = r.randrange(1, amax + 1)
            bound[a] = r.choice(TOPICS)
            p.publish(bound[a], d.payload(), q, props=[(35, a)])
        elif x < .75 and bound:
            p.publish("", d.payload(), q, props=[(35, r.choice(sorted(bound)))])
        elif x < .85:
            p.drop()
        elif x < .95:
            a = r.choice([0, amax + 1, 65535] + [i for i in range(1, amax + 1) if i not in bound])
            t = r.choice(TOPICS) if a == 0 or a > amax else ""
            if r.random() < .5 and (a == 0 or a > amax):
                t = ""
            p.publish(t, d.payload(), q, props=[(35, a)], complete=False)
        else:
            p.publish("a", d.payload(), q)
        d.step()
    done(d)


scenario = mixed(IN, OUT, BOTH, ONREL, wrong)
