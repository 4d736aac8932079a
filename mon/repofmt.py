"""Bridge between wire dicts and the repository's packet objects (public attributes only)."""
import sys
from . import wire as W
from .sim import IOP


def load():
    if IOP not in sys.path:
        sys.path.insert(0, IOP)
    import logging
    logging.getLogger("MQTT broker").setLevel(logging.CRITICAL)
    logging.getLogger("MQTT broker").propagate = False
    logging.getLogger("MQTT broker").addHandler(logging.NullHandler())
    from mqtt.formats import MQTTV5, MQTTV311
    return MQTTV5, MQTTV311


CLASS = {1: "Connects", 2: "Connacks", 3: "Publishes", 4: "Pubacks", 5: "Pubrecs", 6: "Pubrels", 7: "Pubcomps",
         8: "Subscribes", 9: "Subacks", 10: "Unsubscribes", 11: "Unsubacks", 12: "Pingreqs", 13: "Pingresps",
         14: "Disconnects", 15: "Auths"}


def set_props(obj, props):
    done = {}
    for i, v in props or []:
        done.setdefault(i, []).append(v)
    for i, vs in done.items():
        name = W.PROPS[i][0]
        if i in (38, 11):
            setattr(obj, name, list(vs))
        else:
            setattr(obj, name, vs[0])


def get_props(obj):
    out = []
    for i, (name, kind, where) in W.PROPS.items():
        if hasattr(obj, name):
            v = getattr(obj, name)
            if isinstance(v, list):
                out += [(i, x) for x in v]
            else:
                out.append((i, v))
    return out


def build5(M, p):
    t = p["t"]
    o = getattr(M, CLASS[t])()
    PT = t
    if t == W.CONNECT:
        o.CleanStart, o.KeepAliveTimer, o.ClientIdentifier = p["clean"], p["keepalive"], p["cid"]
        if p["will"]:
            w = p["will"]
            o.WillFlag, o.WillQoS, o.WillRETAIN = True, w["qos"], 1 if w["retain"] else 0
            o.WillTopic, o.WillMessage = w["topic"], w["payload"]
            set_props(o.WillProperties, w["props"])
        if p["username"] is not None:
            o.usernameFlag, o.username = True, p["username"]
        if p["password"] is not None:
            o.passwordFlag, o.password = True, p["password"]
    elif t == W.CONNACK:
        o.sessionPresent = p["sp"]
        o.reasonCode = M.ReasonCodes(PT, identifier=p["rc"])
    elif t == W.PUBLISH:
        o.fh.DUP, o.fh.QoS, o.fh.RETAIN = p["dup"], p["qos"], p["retain"]
        o.topicName, o.data = p["topic"], p["payload"]
        if p["qos"]:
            o.packetIdentifier = p["id"]
    elif t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP):
        o.packetIdentifier = p["id"]
        o.reasonCode = M.ReasonCodes(PT, identifier=p["rc"])
    elif t == W.SUBSCRIBE:
        o.packetIdentifier = p["id"]
        o.data = [(f, M.SubscribeOptions(QoS=x["qos"], noLocal=x["nl"], retainAsPublished=x["rap"],
                                         retainHandling=x["rh"])) for f, x in p["subs"]]
    elif t in (W.SUBACK, W.UNSUBACK):
        o.packetIdentifier = p["id"]
        o.reasonCodes = [M.ReasonCodes(PT, identifier=c) for c in p["rcs"]]
    elif t == W.UNSUBSCRIBE:
        o.packetIdentifier, o.topicFilters = p["id"], list(p["filters"])
    elif t in (W.DISCONNECT, W.AUTH):
        o.reasonCode = M.ReasonCodes(PT, identifier=p["rc"])
    if "props" in p:
        set_props(o.properties, p["props"])
    return o


def read5(o):
    """repository V5 packet object -> wire dict."""
    t = o.fh.PacketType
    p = {"t": t}
    if t not in (W.PINGREQ, W.PINGRESP):
        p["props"] = get_props(o.properties)
    if t == W.CONNECT:
        p.update(proto=o.ProtocolName, ver=o.ProtocolVersion, clean=bool(o.CleanStart), keepalive=o.KeepAliveTimer,
                 cid=o.ClientIdentifier, will=None,
                 username=o.username if o.usernameFlag else None,
                 password=bytes(o.password) if o.passwordFlag else None)
        if o.WillFlag:
            p["will"] = {"qos": o.WillQoS, "retain": bool(o.WillRETAIN), "topic": o.WillTopic,
                         "payload": bytes(o.WillMessage), "props": get_props(o.WillProperties)}
    elif t == W.CONNACK:
        p.update(sp=bool(o.sessionPresent), rc=o.reasonCode.value)
    elif t == W.PUBLISH:
        p.update(dup=bool(o.fh.DUP), qos=o.fh.QoS, retain=bool(o.fh.RETAIN), topic=o.topicName, payload=bytes(o.data))
        if o.fh.QoS:
            p["id"] = o.packetIdentifier
    elif t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP):
        p.update(id=o.packetIdentifier, rc=o.reasonCode.value)
    elif t == W.SUBSCRIBE:
        p.update(id=o.packetIdentifier,
                 subs=[(f, {"qos": x.QoS, "nl": bool(x.noLocal), "rap": bool(x.retainAsPublished),
                            "rh": x.retainHandling}) for f, x in o.data])
    elif t in (W.SUBACK, W.UNSUBACK):
        p.update(id=o.packetIdentifier, rcs=[c.value for c in o.reasonCodes])
    elif t == W.UNSUBSCRIBE:
        p.update(id=o.packetIdentifier, filters=list(o.topicFilters))
    elif t in (W.DISCONNECT, W.AUTH):
        p["rc"] = o.reasonCode.value
    return p


def build3(M, p):
    t = p["t"]
    o = getattr(M, CLASS[t])()
    if t == W.CONNECT:
        o.CleanSession, o.KeepAliveTimer, o.ClientIdentifier = p["clean"], p["keepalive"], p["cid"]
        if p["will"]:
            w = p["will"]
            o.WillFlag, o.WillQoS, o.WillRETAIN = True, w["qos"], 1 if w["retain"] else 0
            o.WillTopic, o.WillMessage = w["topic"], w["payload"]
        if p["username"] is not None:
            o.usernameFlag, o.username = True, p["username"]
        if p["password"] is not None:
            o.passwordFlag, o.password = True, p["password"]
    elif t == W.CONNACK:
        o.flags, o.returnCode = 1 if p["sp"] else 0, p["rc"]
    elif t == W.PUBLISH:
        o.fh.DUP, o.fh.QoS, o.fh.RETAIN = p["dup"], p["qos"], p["retain"]
        o.topicName, o.data = p["topic"], p["payload"]
        if p["qos"]:
            o.messageIdentifier = p["id"]
    elif t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP, W.UNSUBACK):
        o.messageIdentifier = p["id"]
    elif t == W.SUBSCRIBE:
        o.messageIdentifier, o.data = p["id"], list(p["subs"])
    elif t == W.SUBACK:
        o.messageIdentifier, o.data = p["id"], list(p["rcs"])
    elif t == W.UNSUBSCRIBE:
        o.messageIdentifier, o.data = p["id"], list(p["filters"])
    return o


def read3(o):
    t = o.fh.MessageType
    p = {"t": t}
    if t == W.CONNECT:
        p.update(proto=o.ProtocolName, ver=o.ProtocolVersion, clean=bool(o.CleanSession), keepalive=o.KeepAliveTimer,
                 cid=o.ClientIdentifier, will=None, username=o.username if o.usernameFlag else None,
                 password=bytes(o.password) if o.passwordFlag else None)
        if o.WillFlag:
            p["will"] = {"qos": o.WillQoS, "retain": bool(o.WillRETAIN), "topic": o.WillTopic,
                         "payload": bytes(o.WillMessage)}
    elif t == W.CONNACK:
        p.update(sp=bool(o.flags & 1), rc=o.returnCode)
    elif t == W.PUBLISH:
        p.update(dup=bool(o.fh.DUP), qos=o.fh.QoS, retain=bool(o.fh.RETAIN), topic=o.topicName, payload=bytes(o.data))
        if o.fh.QoS:
            p["id"] = o.messageIdentifier
    elif t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP):
        p.update(id=o.messageIdentifier, rc=0, props=[])
    elif t == W.UNSUBACK:
        p.update(id=o.messageIdentifier)
    elif t == W.SUBSCRIBE:
        p.update(id=o.messageIdentifier, subs=[(f, q) for f, q in o.data])
    elif t == W.SUBACK:
        p.update(id=o.messageIdentifier, rcs=list(o.data))
    elif t == W.UNSUBSCRIBE:
        p.update(id=o.messageIdentifier, filters=list(o.data))
    elif t == W.DISCONNECT:
        p.update(rc=0, props=[])
    return p
