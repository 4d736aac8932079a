"""C17: shared subscriptions"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C17"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; groups with changing members, beside ordinary subscriptions; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 120, 'shared deliveries': 3000}

BASE = profile(dict(v5=.95, share=.6, subid=.3, retain=.3, session_expiry=(0, 30, 1000), ops=dict(sub=30, unsub=10, drop=5, disc=5, connect=16, advance=2)))
FEW = profile(dict(clients=(3, 6), v5=1, share=.9, manual=.5, persistent=.9, filters=["a", "a/#", "#"], topics=["a", "a/b"],
                   ops=dict(sub=25, unsub=8, drop=6, connect=16, burst=4)))
BOTH = profile(dict(v5=.95, share=.5, subid=.3, ops=dict(sub=30)), options={"overlapping_single": False}, model={"overlapping_single": False})
scenario = mixed(BASE, FEW, BOTH)
