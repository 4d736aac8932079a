"""C19: message expiry"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C19"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; expiry intervals and waiting times in virtual time; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 100, 'deliveries': 4000}

BASE = profile(dict(v5=.85, expiry=.6, persistent=.9, retain=.3, qos=(1, 3, 3), ops=dict(advance=18, drop=10, connect=20)))
WINDOW = profile(dict(v5=.95, expiry=.7, recvmax=(1, 1, 2), manual=.8, persistent=.9, qos=(1, 3, 3), ops=dict(advance=14, ack=20, burst=8, drop=6, connect=14)))
RETAIN = profile(dict(v5=.9, expiry=.7, retain=.8, clear=.1, will=.3, ops=dict(advance=18, sub=30)))
scenario = mixed(BASE, WINDOW, RETAIN)
