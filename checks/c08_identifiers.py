"""C08: packet identifiers"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C08"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; more than 65535 messages to one subscriber with some of them unacknowledged throughout; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 160, "thorough": 6000}
REACH = {'messages to one subscriber': 131000, 'identifiers under way across the wrap': 10}

BASE = profile(dict(qos=(0, 3, 5), manual=.9, persistent=.95, ops=dict(ack=12, drop=8, connect=20, burst=8)))
scenario = mixed(outbound, BASE, inbound_qos2)


def d_wrap5(r, ctx):
    wrap(r, ctx, 5)


def d_wrap4(r, ctx):
    wrap(r, ctx, 4)


def d_wrap5_again(r, ctx):
    wrap(r, ctx, 5, qos=2)


def d_wrap4_again(r, ctx):
    wrap(r, ctx, 4, qos=2)


DIRECTED = [d_wrap5, d_wrap4]
THOROUGH = [d_wrap5_again, d_wrap4_again]
BUDGET = {"quick": 40, "thorough": 600}
GRACE = 600
