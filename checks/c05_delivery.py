"""C05: delivery sets"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C05"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; both protocol versions, random histories; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 560, "thorough": 20000}
REACH = {'deliveries': 4000, 'distinct': 150}

BASE = profile(dict(expiry=0))
MANY = profile(dict(clients=(5, 8), steps=(15, 30), ops=dict(sub=25, unsub=10, pub=50)))
SINGLE = profile(dict(ops=dict(sub=25, unsub=8)), options={"overlapping_single": False}, model={"overlapping_single": False})
DOLLAR = profile(dict(topics=["$x", "$x/a", "$SYS/b", "a", "$", "x/$y", "$share"], filters=["#", "+", "+/a", "$x", "$x/#", "$x/+", "$SYS/#", "$SYS/+", "+/b", "x/#", "x/$y", "$", "$/#", "a", "/#"]))
SPECIAL = profile(dict(topics=["test/QoS 1 only", "test/QoS 0 only", "test/nosubscribe", "a", "test/x"],
                       filters=["test/QoS 1 only", "test/QoS 0 only", "test/nosubscribe", "test/+", "test/#", "#", "a"], ops=dict(sub=25)))
UNSUB = profile(dict(clients=(2, 3), retain=0, filters=["a/b", "a/b/c", "a", "/a", "a/", "+/b", "a/#", "#"], ops=dict(sub=20, unsub=20, pub=40, drop=1, disc=1)))
scenario = mixed(BASE, BASE, MANY, SINGLE, DOLLAR, SPECIAL, UNSUB)
