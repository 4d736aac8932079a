"""C10: outbound flow control"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C10"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; windows of 1 to 20, bursts, any order of acknowledgement, changed windows, expiry and size limits; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'deliveries': 5000, 'distinct': 120, 'resent': 100}

FLOW = profile(dict(recvmax=(1, 1, 2, 3), manual=.8, persistent=.9, qos=(1, 3, 3), v5=.9, ops=dict(ack=25, burst=8, drop=6, connect=15)))
LIMITED = profile(dict(recvmax=(1, 2), manual=.8, persistent=.9, qos=(1, 3, 3), v5=.9, expiry=.3, big=.2, maxpkt=(None, 60, 120),
                       ops=dict(ack=25, burst=8, drop=6, connect=15, advance=6)))
scenario = mixed(flow, flow, FLOW, LIMITED, deep_window)
