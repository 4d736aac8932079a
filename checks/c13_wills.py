"""C13: wills"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C13"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; all ways a connection can end, delays and session expiry in virtual time; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'wills': 1000, 'distinct': 150, 'scenarios with will-delayed': 80, 'scenarios with will-cancelled': 25, 'protocol violations': 150}

BASE = profile(dict(will=.8, will_delay=.5, session_expiry=(0, 30, 100, 0xFFFFFFFF), ops=dict(advance=12, drop=12, disc=10, connect=28, takeover=5)))
scenario = mixed(endings, endings, endings, BASE)
