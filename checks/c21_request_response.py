"""C21: request/response"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C21"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; requesters and responders interleaved, a ledger of correlation data; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 400, "thorough": 15000}
REACH = {'requests answered': 3000}

scenario = mixed(request_response)
