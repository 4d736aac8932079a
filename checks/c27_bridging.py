"""C27: properties and versions"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C27"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; rich properties, several subscribers, both versions; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 120, 'deliveries': 5000}

BASE = profile(dict(props=.9, v5=.7, expiry=.2, subid=.4, aliasmax=(0, 2, 3), retain=.3, will=.4, persistent=.8, recvmax=(None, 1, 2), manual=.4, big=.2, maxpkt=(None, None, 80),
                    ops=dict(sub=22, burst=4)))
MIXED = profile(dict(v5=.5, props=.5, persistent=.8, qos=(1, 2, 2), retain=.3, will=.4, hold=.2, ops=dict(takeover=2, drop=6, connect=14)))
V4 = profile(dict(v5=.15, persistent=.8, manual=.5, qos=(1, 2, 2), retain=.3, will=.4, ops=dict(drop=6, connect=14, ack=20)))
scenario = mixed(BASE, MIXED, V4)
