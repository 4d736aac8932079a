"""C16: subscription identifiers"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C16"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; overlapping subscriptions with, without and with replaced identifiers; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 450, "thorough": 20000}
REACH = {'distinct': 120, 'scenarios with overlap': 200}

BASE = profile(dict(v5=.9, subid=.7, retain=.3, persistent=.8, ops=dict(sub=35, unsub=8, drop=5, connect=14)))
FEW = profile(dict(clients=(2, 3), v5=1, subid=.7, recvmax=(None, 1, 2), retain=.3, filters=["a", "a/#", "#", "+", "+/b", "a/b"], topics=["a", "a/b"], ops=dict(sub=35, unsub=8)))
BOTH = profile(dict(v5=.9, subid=.7, retain=.3, ops=dict(sub=35)), options={"overlapping_single": False}, model={"overlapping_single": False})
scenario = mixed(BASE, FEW, BOTH)
