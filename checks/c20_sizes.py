"""C20: maximum packet sizes"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C20"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; sizes at and around the limits; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 450, "thorough": 20000}
REACH = {'distinct': 80, 'packets of exactly the maximum': 80, 'deliveries': 2500, 'scenarios with too-big': 100}

BASE = profile(dict(v5=.95, big=.5, maxpkt=(None, 40, 60, 80, 120), props=.5, subid=.3, recvmax=(None, 1, 2), manual=.4, persistent=.8, aliasmax=(0, 0, 2)))
scenario = mixed(sizes, sizes, BASE)
