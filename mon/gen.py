"""Random well-formed packet values (dicts in mon.wire form) and byte-level mutations."""
from . import wire as W

U16 = [0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]
U32 = [0, 1, 127, 255, 256, 65535, 65536, 16777215, 16777216, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1]
VB = [1, 2, 127, 128, 129, 16383, 16384, 2097151, 2097152, 268435454, 268435455]
CH = "abcXYZ019/_-. $" + "\u00e9\u00df\u20ac\u4e2d\u0416" + "\U0001f600\U00010348" + "\ufeff"


def u16(r, lo=0):
    v = r.choice(U16) if r.random() < .5 else r.randrange(65536)
    return max(lo, v)


def u32(r, lo=0):
    v = r.choice(U32) if r.random() < .5 else r.randrange(2 ** 32)
    return max(lo, v)


def varint(r):
    return r.choice(VB) if r.random() < .5 else r.randrange(1, 268435456)


def string(r, lo=0, hi=24):
    if r.random() < .02:
        hi = 400
    n = r.randrange(lo, hi + 1)
    if r.random() < .5:
        return "".join(r.choice(CH[:15]) for _ in range(n))
    return "".join(r.choice(CH) for _ in range(n))


def blob(r, hi=24):
    m = r.random()
    if m < .1:
        return b""
    if m < .15:
        n = r.choice([120, 125, 126, 127, 128, 129, 255, 256, 300, 16383])
    else:
        n = r.randrange(hi)
    return r.randbytes(n)


def topic(r):
    return "".join(r.choice(CH.replace("+", "").replace("#", "")) for _ in range(r.randrange(1, 20))) \
        if r.random() < .3 else r.choice(["a", "a/b", "/a", "a//b", "sensors/1/temp", "\u00e9t\u00e9/x", "$SYS/x"])


def tfilter(r):
    return r.choice(["#", "+", "a/+", "a/#", "+/b", "/+", "$share/g/a/#", topic(r), topic(r)])


def props(r, ptype, density=None):
    d = r.choice([0, .1, .3, .9]) if density is None else density
    out = []
    for ident, (name, kind, where) in W.PROPS.items():
        if ptype not in where or r.random() >= d:
            continue
        n = 1
        if ident == 38:
            n = r.randrange(1, 5)
        elif ident == 11 and ptype == W.PUBLISH:
            n = r.randrange(1, 4)
        for _ in range(n):
            if kind == W.BYTE:
                v = r.randrange(2)
            elif kind == W.TWO:
                v = u16(r, 1)
            elif kind == W.FOUR:
                v = u32(r, 1 if name == "MaximumPacketSize" else 0)
            elif kind == W.VAR:
                v = varint(r)
            elif kind == W.BIN:
                v = blob(r)
            elif kind == W.STR:
                v = topic(r) if name == "ResponseTopic" else string(r)
            else:
                v = (string(r), string(r))
            out.append((ident, v))
    return out


SAFE_REASONS = {t: sorted(v) for t, v in W.REASONS.items()}


def packet(r, t, v=5):
    """a random well-formed packet of type t for protocol version v."""
    five = v == 5
    p = {"t": t}
    if five and t not in (W.PINGREQ, W.PINGRESP):
        p["props"] = props(r, t)
    if t == W.CONNECT:
        p.update(proto="MQTT", ver=5 if five else 4, clean=r.random() < .5, keepalive=u16(r), cid=string(r),
                 will=None, username=None, password=None)
        if r.random() < .6:
            p["will"] = {"qos": r.randrange(3), "retain": r.random() < .5, "topic": topic(r), "payload": blob(r)}
            if five:
                p["will"]["props"] = props(r, W.WILL)
        if r.random() < .5:
            p["username"] = string(r)
            if r.random() < .6:
                p["password"] = blob(r)
    elif t == W.CONNACK:
        p["rc"] = r.choice(SAFE_REASONS[t]) if five else r.randrange(6)
        p["sp"] = r.random() < .5
    elif t == W.PUBLISH:
        q = r.randrange(3)
        p.update(qos=q, dup=bool(q) and r.random() < .4, retain=r.random() < .4, topic=topic(r), payload=blob(r))
        if q:
            p["id"] = u16(r, 1)
    elif t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP):
        p["id"] = u16(r, 1)
        p["rc"] = 0
        if five:
            p["rc"] = r.choice(SAFE_REASONS[t])
        else:
            p["props"] = []
    elif t == W.SUBSCRIBE:
        p["id"] = u16(r, 1)
        if five:
            p["subs"] = [(tfilter(r), {"qos": r.randrange(3), "nl": r.random() < .3, "rap": r.random() < .5,
                                       "rh": r.randrange(3)}) for _ in range(r.randrange(1, 6))]
        else:
            p["subs"] = [(tfilter(r), r.randrange(3)) for _ in range(r.randrange(1, 6))]
    elif t == W.SUBACK or (t == W.UNSUBACK and five):
        p["id"] = u16(r, 1)
        codes = SAFE_REASONS[t] if five else [0, 1, 2, 0x80]
        p["rcs"] = [r.choice(codes) for _ in range(r.randrange(1, 6))]
    elif t == W.UNSUBACK:
        p["id"] = u16(r, 1)
    elif t == W.UNSUBSCRIBE:
        p["id"] = u16(r, 1)
        p["filters"] = [tfilter(r) for _ in range(r.randrange(1, 6))]
    elif t in (W.DISCONNECT, W.AUTH):
        p["rc"] = 0
        p.setdefault("props", [])
        if five:
            p["rc"] = r.choice(SAFE_REASONS[t])
    return p


def canon(p):
    """comparable form of a decoded packet (property order across different names is not significant)."""
    q = {k: (bytes(v) if isinstance(v, (bytes, bytearray)) else v) for k, v in p.items()
         if k not in ("props", "will", "form", "size")}
    q["props"] = W.pdict(p.get("props"))
    if p.get("will"):
        w = dict(p["will"])
        w["props"] = W.pdict(w.get("props"))
        w["payload"] = bytes(w["payload"])
        q["will"] = w
    elif "will" in p:
        q["will"] = None
    if "subs" in q:
        q["subs"] = [(f, o) for f, o in q["subs"]]
    return q


def mutate(r, b):
    """one or two byte-level faults; header remaining length may or may not stay consistent."""
    b = bytearray(b)
    how = []
    for _ in range(r.choice([1, 1, 1, 2])):
        m = r.randrange(9)
        if m == 0 and b:
            i = r.randrange(len(b)); b[i] ^= 1 << r.randrange(8); how.append("flip")
        elif m == 1 and b:
            i = r.randrange(len(b)); b[i] = r.choice([0, 1, 2, 3, 0x7f, 0x80, 0xff]); how.append("set")
        elif m == 2 and len(b) > 2:
            k = r.randrange(1, len(b)); del b[k:]; how.append("cut")
        elif m == 3:
            b += r.randbytes(r.randrange(1, 4)); how.append("tail")
        elif m == 4 and len(b) > 2:
            i = r.randrange(2, len(b)); del b[i]; how.append("del")
        elif m == 5:
            i = r.randrange(2, len(b) + 1) if len(b) > 2 else len(b)
            b[i:i] = r.randbytes(1); how.append("ins")
        elif m == 6 and b:
            b[0] = (b[0] & 0xf0) | r.randrange(16); how.append("flags")
        elif m == 7 and b:
            b[0] = (b[0] & 0x0f) | (r.randrange(16) << 4); how.append("type")
        elif m == 8 and len(b) > 4:
            i = r.randrange(2, len(b) - 1); b[i:i] = b[i:i + r.randrange(1, 6)]; how.append("dup")
    return bytes(b), "+".join(how)


def reframe(b):
    """recompute the remaining length so the body is framed consistently (if the header parses)."""
    try:
        r = W.Reader(b)
        b0 = r.u8(); r.vbi()
        return W.frame(b0, r.b[r.p:])
    except W.Malformed:
        return b
