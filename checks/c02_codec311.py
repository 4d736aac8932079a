"""C02: MQTT 3.1.1 packet encode/decode fidelity."""
from mon import wire as W, gen, repofmt

ID = "C02"
RULE = ("random well-formed MQTT 3.1.1 packets of all 14 types; repository encoder read by an independent strict decoder "
        "and the reverse; distinct = (packet type, field shape, size class)")
ASSUMPTIONS = ["the independent codec in mon/wire.py is a correct reading of the OASIS MQTT 3.1.1 standard"]
PLAN = {"quick": 240, "thorough": 4000}
REACH = {"distinct": 150}
PER = 70
M3 = None


def setup(ctx):
    global M3
    M3 = repofmt.load()[1]


def one(r, ctx, t, p=None):
    p = p or gen.packet(r, t, 4)
    want = gen.canon(p)
    try:
        obj = repofmt.build3(M3, p)
        raw = obj.pack()
    except Exception as e:
        ctx.fail("packing a valid packet raised %r: %s" % (e, W.show(p)))
    try:
        got = gen.canon(W.decode(raw, 4))
    except W.Malformed as e:
        ctx.fail("packed bytes are not a valid MQTT 3.1.1 packet (%s): %s -> %s" % (e, W.show(p), raw[:80].hex()))
    ctx.expect(got == want, lambda: "packed bytes say something else: %s -> %s" % (want, got))
    ref = W.encode(p, 4)
    ctx.expect(raw == ref, lambda: "encodings differ: %s vs %s for %s" % (raw[:80].hex(), ref[:80].hex(), W.show(p)))
    try:
        back = M3.unpackPacket(ref)
    except Exception as e:
        ctx.fail("decoding a valid packet raised %r: %s %s" % (e, W.show(p), ref[:80].hex()))
    got = gen.canon(repofmt.read3(back))
    ctx.expect(got == want, lambda: "decoded value differs: %s -> %s" % (want, got))
    again = M3.unpackPacket(raw)
    ctx.expect(again == obj, lambda: "unpack(pack(p)) != p for %s" % W.show(p))
    ctx.expect(again.pack() == raw, lambda: "pack(unpack(pack(p))) differs for %s" % W.show(p))
    ctx.count("round trips")
    ctx.count("type " + W.NAMES[t])
    w = p.get("will") or {}
    multi = any(ord(c) > 127 for k in ("cid", "topic", "username") for c in (p.get(k) or "")) or \
        any(ord(c) > 127 for c in w.get("topic", ""))
    ctx.case((t, p.get("qos"), p.get("rc"), p.get("dup"), p.get("retain"), p.get("clean"), w.get("qos"), w.get("retain"),
              p.get("username") is not None, p.get("password") is not None, tuple(p.get("rcs", ())) or len(p.get("subs", ())),
              len(p.get("filters", ())), len(raw) < 128, multi), W.show(p)[:300])


def scenario(r, ctx, idx):
    for k in range(PER):
        one(r, ctx, k % 14 + 1)


def d_sizes(r, ctx):
    for total in list(range(118, 132)) + list(range(16370, 16390)) + [65535, 65536] + list(range(2097140, 2097160, 3)):
        one(r, ctx, W.PUBLISH, {"t": W.PUBLISH, "qos": 0, "dup": False, "retain": False, "topic": "t", "payload": b"x" * total})
    for n in (65535, 65534, 32768):
        one(r, ctx, W.PUBLISH, {"t": W.PUBLISH, "qos": 1, "id": 65535, "dup": True, "retain": True, "topic": "t" * n, "payload": b"p"})
        one(r, ctx, W.SUBSCRIBE, {"t": W.SUBSCRIBE, "id": 1, "subs": [("\u20ac" * (n // 3), 2), ("a", 0)]})
        one(r, ctx, W.UNSUBSCRIBE, {"t": W.UNSUBSCRIBE, "id": 1, "filters": ["\u20ac" * (n // 3), "a"]})
    for cid in ("", "a", "\u00e9", "\U0001f600" * 10):
        for un, pw in ((None, None), ("u", None), ("", b""), ("\u00fc", b"\xff\x00"), ("", None)):
            for will in (None, {"qos": 2, "retain": True, "topic": "\u00e9/\u20ac", "payload": b""}):
                one(r, ctx, W.CONNECT, {"t": W.CONNECT, "proto": "MQTT", "ver": 4, "clean": True, "keepalive": 256, "cid": cid,
                                        "will": will, "username": un, "password": pw})


DIRECTED = [d_sizes]
