"""MQTT-SN 1.2, independently of the repository: the messages its codec has (CONNECT, CONNACK, PUBLISH)."""

CONNECT, CONNACK, PUBLISH = 4, 5, 12
NAMES = {CONNECT: "CONNECT", CONNACK: "CONNACK", PUBLISH: "PUBLISH"}


class Bad(Exception):
    pass


def flags_byte(f):
    return (0x80 if f["dup"] else 0) | ({0: 0, 1: 1, 2: 2, -1: 3}[f["qos"]] << 5) | (0x10 if f["retain"] else 0) | \
        (0x08 if f["will"] else 0) | (0x04 if f["clean"] else 0) | f["tit"]


def flags_of(b):
    return {"dup": bool(b & 0x80), "qos": (0, 1, 2, -1)[b >> 5 & 3], "retain": bool(b & 0x10), "will": bool(b & 8), "clean": bool(b & 4), "tit": b & 3}


def encode(p, long=False):
    t = p["t"]
    if t == CONNECT:
        body = bytes([flags_byte(p["flags"]), p["proto"]]) + p["duration"].to_bytes(2, "big") + p["cid"].encode("utf-8")
    elif t == CONNACK:
        body = bytes([p["rc"]])
    else:
        body = bytes([flags_byte(p["flags"])]) + p["topic"].to_bytes(2, "big") + p["id"].to_bytes(2, "big") + p["data"]
    n = len(body) + 2
    if n > 255 or long:
        return b"\x01" + (n + 2).to_bytes(2, "big") + bytes([t]) + body
    return bytes([n, t]) + body


def decode(b):
    """(packet, canonical?) or Bad."""
    if len(b) < 2:
        raise Bad("shorter than any message")
    if b[0] == 1:
        if len(b) < 4:
            raise Bad("three-octet length cut short")
        n, rest = b[1] << 8 | b[2], b[3:]
    else:
        n, rest = b[0], b[1:]
    if n != len(b):
        raise Bad("length field %d for %d octets" % (n, len(b)))
    t, body = rest[0], rest[1:]
    canonical = b[0] != 1 or n > 255
    if t == CONNECT:
        if len(body) < 4:
            raise Bad("CONNECT cut short")
        try:
            cid = body[4:].decode("utf-8")
        except UnicodeDecodeError:
            raise Bad("client id is not UTF-8")
        p = {"t": t, "flags": flags_of(body[0]), "proto": body[1], "duration": int.from_bytes(body[2:4], "big"), "cid": cid}
        canonical = canonical and p["proto"] == 1 and 1 <= len(cid) <= 23 and not (body[0] & ~0x0C) and "\0" not in cid
    elif t == CONNACK:
        if len(body) != 1:
            raise Bad("CONNACK of %d octets" % len(b))
        p = {"t": t, "rc": body[0]}
        canonical = canonical and body[0] <= 3
    elif t == PUBLISH:
        if len(body) < 5:
            raise Bad("PUBLISH cut short")
        p = {"t": t, "flags": flags_of(body[0]), "topic": int.from_bytes(body[1:3], "big"), "id": int.from_bytes(body[3:5], "big"), "data": bytes(body[5:])}
        canonical = canonical and body[0] & 3 != 3 and not body[0] & 0x0C and p["topic"] not in (0, 65535)
    else:
        raise Bad("message type %d" % t)
    return p, canonical


def build(M, p):
    """the repository's object for p."""
    o = {CONNECT: M.Connects, CONNACK: M.Connacks, PUBLISH: M.Publishes}[p["t"]]()
    if "flags" in p:
        f = p["flags"]
        o.Flags.DUP, o.Flags.QoS, o.Flags.RETAIN, o.Flags.Will, o.Flags.CleanSession, o.Flags.TopicIdType = \
            f["dup"], f["qos"], f["retain"], f["will"], f["clean"], f["tit"]
    if p["t"] == CONNECT:
        o.ProtocolId, o.Duration, o.ClientId = p["proto"], p["duration"], p["cid"]
    elif p["t"] == CONNACK:
        o.ReturnCode = p["rc"]
    else:
        o.TopicId, o.MsgId, o.Data = p["topic"], p["id"], p["data"]
    return o


def read(M, o):
    """p for the repository's object."""
    p = {}
    if hasattr(o, "Flags"):
        f = o.Flags
        p["flags"] = {"dup": bool(f.DUP), "qos": f.QoS, "retain": bool(f.RETAIN), "will": bool(f.Will), "clean": bool(f.CleanSession), "tit": f.TopicIdType}
    if isinstance(o, M.Connects):
        p.update(t=CONNECT, proto=o.ProtocolId, duration=o.Duration, cid=o.ClientId)
    elif isinstance(o, M.Connacks):
        p.update(t=CONNACK, rc=o.ReturnCode)
    elif isinstance(o, M.Publishes):
        p.update(t=PUBLISH, topic=o.TopicId, id=o.MsgId, data=bytes(o.Data))
    else:
        p["t"] = type(o).__name__
    return p


U16 = [0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]


def u16(r):
    return r.choice(U16) if r.random() < .5 else r.randrange(65536)


def packet(r, t):
    """a random valid message."""
    p = {"t": t}
    f = {"dup": False, "qos": 0, "retain": False, "will": False, "clean": False, "tit": 0}
    if t == CONNECT:
        f.update(will=r.random() < .5, clean=r.random() < .5)
        n = r.randrange(1, 24)
        p.update(flags=f, proto=1, duration=u16(r), cid="".join(r.choice("abcXYZ019\u00e9\u4e2d\U0001f600") for _ in range(n)))
    elif t == CONNACK:
        p["rc"] = r.randrange(4)
    else:
        f.update(dup=r.random() < .5, qos=r.choice([0, 1, 2, -1]), retain=r.random() < .5, tit=r.randrange(3))
        n = r.choice([0, 1, 5, 40, 200, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 1000, r.randrange(300), 8000, 65535 - 9])
        p.update(flags=f, topic=min(65534, max(1, u16(r))), id=u16(r), data=r.randbytes(n))
    return p


def mutate(r, b):
    b = bytearray(b)
    m = r.randrange(8)
    if m == 0 and b:
        k = r.randrange(min(len(b), 12))
        b[k] = r.randrange(256)
    elif m == 1:
        b = b[:r.randrange(len(b) + 1)]
    elif m == 2:
        b += r.randbytes(r.randrange(1, 5))
    elif m == 3:
        # shorter or longer, with a length that fits
        b = b[:r.randrange(2, len(b) + 1)] + r.randbytes(r.choice([0, 0, 1, 3]))
        if b[0] == 1 and len(b) >= 4:
            b[1:3] = len(b).to_bytes(2, "big")
        elif len(b) < 256:
            b[0] = len(b)
    elif m == 4:
        b[0] = r.choice([0, 1, 2, 3, 255])
    elif m == 5 and len(b) > 1:
        b[1] = r.choice([0, 1, 2, 3, 6, 7, 10, 13, 18, 22, 24, 28, 29, 30, 31, 254, 255])
    elif m == 6:
        b = bytearray(r.randbytes(r.choice([0, 1, 2, 3, 4, 7, 30])))
    else:
        # three-octet length for a short message
        if b[0] != 1 and 1 < len(b) < 60000:
            b = bytearray(b"\x01" + (len(b) + 2).to_bytes(2, "big")) + b[1:]
    return bytes(b)


def show(p):
    return "%s%r" % (NAMES.get(p["t"], p["t"]), {k: v if not isinstance(v, bytes) or len(v) < 60 else v[:60] for k, v in p.items() if k != "t"})
