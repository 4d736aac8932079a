"""C14: retained messages"""
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *

ID = "C14"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification; retained messages set, replaced, cleared, expired, and fetched; "
        "distinct = (features of the specification exercised, deliveries/4)")
ASSUMPTIONS = "the specification in mon/model.py reads the standards correctly; slow consumers, the same client identifier used in both versions, and instants close to a timer are left open"
PLAN = {"quick": 500, "thorough": 20000}
REACH = {'distinct': 100, 'scenarios with retained': 300, 'scenarios with retain-clear': 150}

BASE = profile(dict(retain=.6, clear=.25, will=.3, rh=.1, ops=dict(sub=30, unsub=8, pub=40)))
WIDE = profile(dict(clients=(2, 4), retain=.8, clear=.2, props=.6, expiry=.2, filters=FILTERS + ["+/#", "/#", "b/+", "a/b/#", "a/b/c/#", "+/b/c", "A", "A/#"],
                    topics=TOPICS + ["a//b", "b/", "a/b/", "A", "$x"], ops=dict(sub=40, unsub=12, pub=50, advance=4)))
GONE = profile(dict(retain=.7, clear=.1, will=.6, session_expiry=(0, 30), persistent=.5, ops=dict(sub=20, drop=10, disc=8, connect=25, advance=6, takeover=3)))
ONREL = profile(dict(retain=.6, clear=.25, qos=(1, 1, 4), hold=.5, ops=dict(sub=30, rel=20)), options={"publish_on_pubrel": True}, model={"publish_on_pubrel": True})
scenario = mixed(BASE, WIDE, GONE, ONREL)
