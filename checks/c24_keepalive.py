"""C24: keep alive"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C24"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; intervals from 0 to 65535 s in virtual time, any packet as sign of life; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 320, "thorough": 12000}
REACH = {'keep alive scenarios': 100, 'keepalive closes': 200}

BASE = profile(dict(keepalive=.7, will=.6, will_delay=.2, ops=dict(advance=20, connect=25)))
scenario = mixed(keepalive, keepalive, BASE)
