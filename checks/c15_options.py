"""C15: subscription options"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C15"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; random combinations of options, overlapping and replaced subscriptions; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 150, 'scenarios with nolocal': 100, 'scenarios with rap': 100, 'scenarios with resub': 150, 'scenarios with rh1-none': 20, 'scenarios with rh2-none': 80}

BASE = profile(dict(v5=.9, nl=.5, rap=.5, rh=.7, retain=.5, ops=dict(sub=35, unsub=8, pub=45)))
SELF = profile(dict(clients=(1, 2), v5=1, nl=.5, rap=.5, rh=.8, retain=.6, filters=["a", "a/#", "#", "+"], topics=["a", "a/b"], ops=dict(sub=35, unsub=10, connect=15, disc=8)))
BOTH = profile(dict(v5=.9, nl=.5, rap=.5, rh=.7, retain=.4, ops=dict(sub=35)), options={"overlapping_single": False}, model={"overlapping_single": False})
scenario = mixed(BASE, SELF, BOTH)
