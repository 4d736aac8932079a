"""Independent MQTT 3.1.1 / MQTT 5 wire codec.

Written from the OASIS standards, sharing no code with the repository.  It is
both the mouth (raw byte builder for the workloads) and the judge (strict
decoder) of every monitor: whatever the repository's own codec believes is
never part of a verdict.

A packet is a dict with key 't' (type number) plus fields.  MQTT 5 properties
are a list of (identifier, value) pairs in wire order.
"""
CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, \
    UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
NAMES = {1: "CONNECT", 2: "CONNACK", 3: "PUBLISH", 4: "PUBACK", 5: "PUBREC", 6: "PUBREL",
         7: "PUBCOMP", 8: "SUBSCRIBE", 9: "SUBACK", 10: "UNSUBSCRIBE", 11: "UNSUBACK",
         12: "PINGREQ", 13: "PINGRESP", 14: "DISCONNECT", 15: "AUTH"}
WILL = 99


class Malformed(Exception):
    pass


# ---------------------------------------------------------------- primitives
def u16(n):
    return bytes([(n >> 8) & 255, n & 255])


def u32(n):
    return bytes([(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255])


def vbi(n):
    assert 0 <= n <= 268435455
    out = bytearray()
    while True:
        d = n & 127
        n >>= 7
        if n:
            out.append(d | 128)
        else:
            out.append(d)
            return bytes(out)


def utf(s):
    b = s if isinstance(s, (bytes, bytearray)) else s.encode("utf-8")
    return u16(len(b)) + bytes(b)


def binary(b):
    return u16(len(b)) + bytes(b)


class Reader:
    def __init__(self, b):
        self.b = bytes(b)
        self.p = 0

    def left(self):
        return len(self.b) - self.p

    def take(self, n):
        if self.left() < n:
            raise Malformed("truncated: want %d have %d" % (n, self.left()))
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        v = self.take(2)
        return v[0] * 256 + v[1]

    def u32(self):
        v = self.take(4)
        return ((v[0] * 256 + v[1]) * 256 + v[2]) * 256 + v[3]

    def vbi(self):
        mult, val, n = 1, 0, 0
        while True:
            d = self.u8()
            n += 1
            val += (d & 127) * mult
            if not d & 128:
                break
            if n == 4:
                raise Malformed("variable byte integer longer than 4 bytes")
            mult *= 128
        if len(vbi(val)) != n:
            raise Malformed("non-minimal variable byte integer")
        return val

    def utf(self):
        n = self.u16()
        raw = self.take(n)
        try:
            s = raw.decode("utf-8")
        except UnicodeDecodeError:
            raise Malformed("invalid utf-8")
        if "\x00" in s:
            raise Malformed("U+0000 in string")
        return s

    def bin(self):
        return self.take(self.u16())


# ---------------------------------------------------------------- properties
BYTE, TWO, FOUR, VAR, BIN, STR, PAIR = range(7)
PROPS = {
    1: ("PayloadFormatIndicator", BYTE, {PUBLISH, WILL}),
    2: ("MessageExpiryInterval", FOUR, {PUBLISH, WILL}),
    3: ("ContentType", STR, {PUBLISH, WILL}),
    8: ("ResponseTopic", STR, {PUBLISH, WILL}),
    9: ("CorrelationData", BIN, {PUBLISH, WILL}),
    11: ("SubscriptionIdentifier", VAR, {PUBLISH, SUBSCRIBE}),
    17: ("SessionExpiryInterval", FOUR, {CONNECT, CONNACK, DISCONNECT}),
    18: ("AssignedClientIdentifier", STR, {CONNACK}),
    19: ("ServerKeepAlive", TWO, {CONNACK}),
    21: ("AuthenticationMethod", STR, {CONNECT, CONNACK, AUTH}),
    22: ("AuthenticationData", BIN, {CONNECT, CONNACK, AUTH}),
    23: ("RequestProblemInformation", BYTE, {CONNECT}),
    24: ("WillDelayInterval", FOUR, {WILL}),
    25: ("RequestResponseInformation", BYTE, {CONNECT}),
    26: ("ResponseInformation", STR, {CONNACK}),
    28: ("ServerReference", STR, {CONNACK, DISCONNECT}),
    31: ("ReasonString", STR, {CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}),
    33: ("ReceiveMaximum", TWO, {CONNECT, CONNACK}),
    34: ("TopicAliasMaximum", TWO, {CONNECT, CONNACK}),
    35: ("TopicAlias", TWO, {PUBLISH}),
    36: ("MaximumQoS", BYTE, {CONNACK}),
    37: ("RetainAvailable", BYTE, {CONNACK}),
    38: ("UserProperty", PAIR, {CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP,
                               SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH}),
    39: ("MaximumPacketSize", FOUR, {CONNECT, CONNACK}),
    40: ("WildcardSubscriptionAvailable", BYTE, {CONNACK}),
    41: ("SubscriptionIdentifierAvailable", BYTE, {CONNACK}),
    42: ("SharedSubscriptionAvailable", BYTE, {CONNACK}),
}
PID = {v[0]: k for k, v in PROPS.items()}
MULTI = {38: None, 11: {PUBLISH}}

REASONS = {
    CONNACK: {0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95,
              0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F},
    PUBACK: {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
    PUBREC: {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99},
    PUBREL: {0, 0x92}, PUBCOMP: {0, 0x92},
    SUBACK: {0, 1, 2, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2},
    UNSUBACK: {0, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91},
    DISCONNECT: {0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94,
                 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2},
    AUTH: {0, 0x18, 0x19},
}


def P(**kw):
    """property list from keyword names; lists become repeated entries."""
    out = []
    for k, v in kw.items():
        ident = PID[k]
        if isinstance(v, list):
            out += [(ident, x) for x in v]
        elif v is not None:
            out.append((ident, v))
    return out


def pget(props, name, default=None):
    for i, v in props or []:
        if i == PID[name]:
            return v
    return default


def pgetall(props, name):
    return [v for i, v in props or [] if i == PID[name]]


def pdict(props):
    """canonical comparable form: name -> list of values."""
    d = {}
    for i, v in props or []:
        d.setdefault(PROPS[i][0], []).append(tuple(v) if isinstance(v, (list, tuple)) else
                                             bytes(v) if isinstance(v, (bytes, bytearray)) else v)
    return d


def enc_props(props):
    out = b""
    for ident, v in props or []:
        kind = PROPS[ident][1] if ident in PROPS else None
        out += vbi(ident)
        if kind == BYTE:
            out += bytes([v])
        elif kind == TWO:
            out += u16(v)
        elif kind == FOUR:
            out += u32(v)
        elif kind == VAR:
            out += vbi(v)
        elif kind == BIN:
            out += binary(v)
        elif kind == STR:
            out += utf(v)
        elif kind == PAIR:
            out += utf(v[0]) + utf(v[1])
        else:
            out += v
    return vbi(len(out)) + out


def dec_props(r, ptype):
    n = r.vbi()
    q = Reader(r.take(n))
    props, seen = [], set()
    while q.left():
        ident = q.vbi()
        if ident not in PROPS:
            raise Malformed("unknown property %d" % ident)
        name, kind, where = PROPS[ident]
        if ptype not in where:
            raise Malformed("property %s not allowed in %s" % (name, NAMES.get(ptype, "WILL")))
        if kind == BYTE:
            v = q.u8()
        elif kind == TWO:
            v = q.u16()
        elif kind == FOUR:
            v = q.u32()
        elif kind == VAR:
            v = q.vbi()
        elif kind == BIN:
            v = q.bin()
        elif kind == STR:
            v = q.utf()
        else:
            v = (q.utf(), q.utf())
        if ident in seen and ident not in MULTI:
            raise Malformed("duplicate property %s" % name)
        seen.add(ident)
        props.append((ident, v))
    return props


# ---------------------------------------------------------------- encode
def frame(b0, body):
    return bytes([b0]) + vbi(len(body)) + body


def encode(p, v=5):
    t = p["t"]
    pr = p.get("props") or []
    if t == CONNECT:
        will = p.get("will")
        flags = (2 if p.get("clean", True) else 0)
        if will:
            flags |= 4 | (will.get("qos", 0) << 3) | (0x20 if will.get("retain") else 0)
        if p.get("username") is not None:
            flags |= 0x80
        if p.get("password") is not None:
            flags |= 0x40
        flags = p.get("rawflags", flags)
        body = utf(p.get("proto", "MQTT")) + bytes([p.get("ver", 5 if v == 5 else 4), flags]) + u16(p.get("keepalive", 0))
        if v == 5:
            body += enc_props(pr)
        body += utf(p.get("cid", ""))
        if will:
            if v == 5:
                body += enc_props(will.get("props") or [])
            body += utf(will["topic"]) + binary(will["payload"])
        if p.get("username") is not None:
            body += utf(p["username"])
        if p.get("password") is not None:
            body += binary(p["password"])
        return frame(0x10, body)
    if t == CONNACK:
        body = bytes([1 if p.get("sp") else 0, p.get("rc", 0)])
        if v == 5:
            body += enc_props(pr)
        return frame(0x20, body)
    if t == PUBLISH:
        q = p.get("qos", 0)
        b0 = 0x30 | (8 if p.get("dup") else 0) | (q << 1) | (1 if p.get("retain") else 0)
        body = utf(p.get("topic", ""))
        if q:
            body += u16(p["id"])
        if v == 5:
            body += enc_props(pr)
        return frame(b0, body + bytes(p.get("payload", b"")))
    if t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        b0 = (t << 4) | (2 if t == PUBREL else 0)
        body = u16(p["id"])
        if v == 5:
            form = p.get("form")
            if form is None:
                form = "props" if pr else ("rc" if p.get("rc", 0) else "short")
            if form in ("rc", "props"):
                body += bytes([p.get("rc", 0)])
            if form == "props":
                body += enc_props(pr)
        return frame(b0, body)
    if t == SUBSCRIBE:
        body = u16(p["id"])
        if v == 5:
            body += enc_props(pr)
        for f, o in p["subs"]:
            if not isinstance(o, int):
                o = o["qos"] | (4 if o.get("nl") else 0) | (8 if o.get("rap") else 0) | (o.get("rh", 0) << 4)
            body += utf(f) + bytes([o])
        return frame(0x82, body)
    if t == SUBACK or (t == UNSUBACK and v == 5):
        body = u16(p["id"])
        if v == 5:
            body += enc_props(pr)
        return frame(t << 4, body + bytes(p["rcs"]))
    if t == UNSUBACK:
        return frame(t << 4, u16(p["id"]))
    if t == UNSUBSCRIBE:
        body = u16(p["id"])
        if v == 5:
            body += enc_props(pr)
        for f in p["filters"]:
            body += utf(f)
        return frame(0xA2, body)
    if t in (PINGREQ, PINGRESP):
        return frame(t << 4, b"")
    if t in (DISCONNECT, AUTH):
        body = b""
        if v == 5:
            form = p.get("form")
            if form is None:
                form = "props" if pr or t == AUTH else ("rc" if p.get("rc", 0) else "short")
            if form in ("rc", "props"):
                body += bytes([p.get("rc", 0)])
            if form == "props":
                body += enc_props(pr)
        return frame(t << 4, body)
    raise AssertionError(t)


# ---------------------------------------------------------------- decode
def decode(buf, v=5):
    """strictly decode one complete packet occupying the whole of buf."""
    r = Reader(buf)
    b0 = r.u8()
    t, fl = b0 >> 4, b0 & 15
    n = r.vbi()
    if r.left() != n:
        raise Malformed("remaining length %d, have %d" % (n, r.left()))
    if t == 0 or (t == AUTH and v != 5):
        raise Malformed("reserved packet type")
    want = 2 if t in (PUBREL, SUBSCRIBE, UNSUBSCRIBE) else 0
    if t != PUBLISH and fl != want:
        raise Malformed("reserved fixed header flags %d" % fl)
    p = {"t": t}
    if t == CONNECT:
        p["proto"] = r.utf()
        if p["proto"] != "MQTT":
            raise Malformed("protocol name")
        p["ver"] = r.u8()
        f = r.u8()
        if f & 1:
            raise Malformed("reserved connect flag")
        p["clean"] = bool(f & 2)
        p["keepalive"] = r.u16()
        if v == 5:
            p["props"] = dec_props(r, CONNECT)
        p["cid"] = r.utf()
        if f & 4:
            w = {"qos": (f >> 3) & 3, "retain": bool(f & 0x20)}
            if w["qos"] == 3:
                raise Malformed("will qos 3")
            if v == 5:
                w["props"] = dec_props(r, WILL)
            w["topic"] = r.utf()
            w["payload"] = r.bin()
            p["will"] = w
        else:
            if f & 0x38:
                raise Malformed("will flags without will")
            p["will"] = None
        p["username"] = r.utf() if f & 0x80 else None
        p["password"] = r.bin() if f & 0x40 else None
    elif t == CONNACK:
        f = r.u8()
        if f & 0xFE:
            raise Malformed("connack flags")
        p["sp"] = bool(f & 1)
        p["rc"] = r.u8()
        if v == 5:
            if p["rc"] not in REASONS[CONNACK]:
                raise Malformed("connack reason code")
            p["props"] = dec_props(r, CONNACK)
    elif t == PUBLISH:
        p["dup"], p["qos"], p["retain"] = bool(fl & 8), (fl >> 1) & 3, bool(fl & 1)
        if p["qos"] == 3:
            raise Malformed("qos 3")
        if p["qos"] == 0 and p["dup"]:
            raise Malformed("dup with qos 0")
        p["topic"] = r.utf()
        if p["qos"]:
            p["id"] = r.u16()
            if p["id"] == 0:
                raise Malformed("packet id 0")
        if v == 5:
            p["props"] = dec_props(r, PUBLISH)
        p["payload"] = r.take(r.left())
    elif t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
        p["rc"], p["props"] = 0, []
        if v == 5:
            if r.left():
                p["rc"] = r.u8()
                if p["rc"] not in REASONS[t]:
                    raise Malformed("reason code")
            if r.left():
                p["props"] = dec_props(r, t)
    elif t == SUBSCRIBE:
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
        if v == 5:
            p["props"] = dec_props(r, t)
        p["subs"] = []
        while r.left():
            f = r.utf()
            o = r.u8()
            if v == 5:
                if o & 0xC0 or o & 3 == 3 or (o >> 4) & 3 == 3:
                    raise Malformed("subscription options")
                p["subs"].append((f, {"qos": o & 3, "nl": bool(o & 4), "rap": bool(o & 8), "rh": o >> 4}))
            else:
                if o > 2:
                    raise Malformed("requested qos")
                p["subs"].append((f, o))
        if not p["subs"]:
            raise Malformed("empty subscribe")
    elif t == SUBACK or (t == UNSUBACK and v == 5):
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
        if v == 5:
            p["props"] = dec_props(r, t)
        p["rcs"] = list(r.take(r.left()))
        ok = REASONS[t] if v == 5 else {0, 1, 2, 0x80}
        for c in p["rcs"]:
            if c not in ok:
                raise Malformed("reason code %d" % c)
    elif t == UNSUBACK:
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
    elif t == UNSUBSCRIBE:
        p["id"] = r.u16()
        if p["id"] == 0:
            raise Malformed("packet id 0")
        if v == 5:
            p["props"] = dec_props(r, t)
        p["filters"] = []
        while r.left():
            p["filters"].append(r.utf())
        if not p["filters"]:
            raise Malformed("empty unsubscribe")
    elif t in (DISCONNECT, AUTH):
        p["rc"], p["props"] = 0, []
        if v == 5:
            if r.left():
                p["rc"] = r.u8()
                if p["rc"] not in REASONS[t]:
                    raise Malformed("reason code")
            if r.left():
                p["props"] = dec_props(r, t)
    if r.left():
        raise Malformed("%d trailing bytes" % r.left())
    return p


def split(buf):
    """split a byte stream into complete packets; returns (packets, rest)."""
    out = []
    buf = bytes(buf)
    while len(buf) >= 2:
        n, mult, i = 0, 1, 1
        while True:
            if i >= len(buf):
                return out, buf
            d = buf[i]
            n += (d & 127) * mult
            mult *= 128
            i += 1
            if not d & 128:
                break
            if i > 4:
                raise Malformed("remaining length")
        if len(buf) < i + n:
            return out, buf
        out.append(buf[:i + n])
        buf = buf[i + n:]
    return out, buf


def show(p):
    if p is None:
        return "None"
    d = {k: v for k, v in p.items() if k != "t" and v not in (None, [], False)}
    if "props" in d:
        d["props"] = {PROPS[i][0] if i in PROPS else i: v for i, v in d["props"]}
    return NAMES.get(p["t"], "?") + repr(d)
