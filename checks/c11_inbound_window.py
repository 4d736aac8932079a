"""C11: inbound receive maximum"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C11"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; receive maxima 1 to 8; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 400, "thorough": 20000}
REACH = {'windows': 250, 'distinct': 40, 'deliveries': 1000}

scenario = mixed(inbound_window, inbound_window, inbound_qos2)
