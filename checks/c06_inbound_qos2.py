"""C06: inbound QoS 2 and QoS 1"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C06"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; connection losses at every step of the exchange, repeats, reuse of identifiers, both modes of routing; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'losses of the connection in an inbound exchange': 32, 'distinct': 100}

Q2 = profile(dict(qos=(0, 1, 8), hold=.7, dup=.4, persistent=.9, v5=.5, ops=dict(rel=30, drop=6, disc=4, connect=14)))
REL = profile(dict(qos=(0, 1, 8), hold=.7, dup=.4, persistent=.9, v5=.5, ops=dict(rel=30, drop=6, disc=4, connect=14)),
              options={"publish_on_pubrel": True}, model={"publish_on_pubrel": True})
scenario = mixed(inbound_qos2, inbound_qos2, inbound_qos2, Q2, REL)


def d_losses(r, ctx):
    inbound_loss(r, ctx)


DIRECTED = [d_losses]
