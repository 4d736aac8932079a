"""C12: session life cycle"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C12"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; session expiry and reconnection in virtual time; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 150, 'scenarios with session-expired': 80, 'scenarios with clean-discards': 80, 'scenarios with resume': 150}

BASE = profile(dict(session_expiry=(0, 1, 2, 5, 30, 100, 1000, 0xFFFFFFFF), raise_expiry=.2, persistent=.7, manual=.5, hold=.3, qos=(1, 3, 3),
                    ops=dict(advance=14, drop=10, disc=12, connect=28, takeover=3, sub=14)))
QUEUES = profile(dict(clients=(2, 4), session_expiry=(5, 30, 100), persistent=.9, v5=.8, manual=.6, qos=(0, 1, 1),
                      ops=dict(advance=20, drop=10, disc=10, connect=25, burst=6)))
WILLS = profile(dict(raise_expiry=.2, session_expiry=(0, 30, 100), will=.5, will_delay=.6, ops=dict(advance=14, drop=10, disc=8, connect=28)))
scenario = mixed(BASE, BASE, QUEUES, WILLS)
