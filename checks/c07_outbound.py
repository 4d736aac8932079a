"""C07: outbound QoS 1 and 2 across reconnections"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C07"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; connection losses at every step of the exchange, several at a time; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'losses of the connection in an outbound exchange': 60, 'resent': 500, 'distinct': 100}

BASE = profile(dict(qos=(0, 3, 5), manual=.8, persistent=.95, takeover=0, ops=dict(ack=25, drop=10, disc=5, connect=20, burst=5, takeover=3)))
scenario = mixed(outbound, outbound, BASE)


def d_losses(r, ctx):
    outbound_loss(r, ctx)


DIRECTED = [d_losses]
