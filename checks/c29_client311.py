"""C29: the MQTT 3.1.1 client library under a scripted server."""
from mon import clientcases as K

ID = "C29"
V = 3
RULE = ("the real client library talks to a scripted server over loopback: random requests of the application interleaved with random legal packets of the "
        "server, repeated, cut into pieces, with handshakes open across each other and across reconnections; every callback and every packet is compared with "
        "a specification of the client role; distinct = (mode, multiset of packets, kinds of callbacks) per comparison")
ASSUMPTIONS = ["the codec in mon/wire.py is a correct reading of the standard", "the server reads what the client sends"]
PLAN = {"quick": 96, "thorough": 1500}
BUDGET = {"quick": 60, "thorough": 600}
WORKERS = 24
REACH = {"distinct": 300, "acknowledgements compared": 1000, "callbacks compared": 1000, "reconnections": 10}


def scenario(r, ctx, idx):
    K.scenario(r, ctx, idx, V)


DIRECTED = K.directed(V)
