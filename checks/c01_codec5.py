"""C01: MQTT 5 packet encode/decode fidelity."""
from mon import wire as W, gen, repofmt

ID = "C01"
RULE = ("random well-formed MQTT 5 packets of all 15 types (boundary integers, multi-byte UTF-8, empty and long fields, "
        "every property); the repository packs each and an independent strict decoder reads it, and the reverse; "
        "distinct = (packet type, property set, field-shape, size class)")
ASSUMPTIONS = ["the independent codec in mon/wire.py is a correct reading of the OASIS MQTT 5.0 standard"]
PLAN = {"quick": 240, "thorough": 4000}
REACH = {"distinct": 500}
PER = 60
M5 = None


def setup(ctx):
    global M5
    M5 = repofmt.load()[0]


def shape(p, n):
    return (p["t"], tuple(sorted(W.pdict(p.get("props")))), p.get("qos"), p.get("rc"), bool(p.get("will")),
            p.get("username") is not None, p.get("password") is not None, len(p.get("subs", ())),
            n < 128, n < 16384)


def one(r, ctx, t, p=None):
    p = p or gen.packet(r, t, 5)
    want = gen.canon(p)
    # encode with the repository, read with the reference
    try:
        obj = repofmt.build5(M5, p)
        raw = obj.pack()
    except Exception as e:
        ctx.fail("packing a valid packet raised %r: %s" % (e, W.show(p)))
    try:
        got = gen.canon(W.decode(raw, 5))
    except W.Malformed as e:
        ctx.fail("packed bytes are not a valid MQTT 5 packet (%s): %s -> %s" % (e, W.show(p), raw[:80].hex()))
    ctx.expect(got == want, lambda: "packed bytes say something else: %s -> %s" % (want, got))
    # encode with the reference, read with the repository
    forms = [None]
    if t in (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP, W.DISCONNECT):
        forms += ["props"] if not p["props"] else []
        forms += ["rc"] if not p["props"] else []
    for form in forms:
        q = dict(p)
        if form:
            q["form"] = form
        ref = W.encode(q, 5)
        try:
            back = M5.unpackPacket(ref)
        except Exception as e:
            ctx.fail("decoding a valid packet raised %r: %s %s" % (e, W.show(p), ref[:80].hex()))
        got = gen.canon(repofmt.read5(back))
        ctx.expect(got == want, lambda: "decoded value differs: %s -> %s" % (want, got))
        ctx.count("decodes")
    # and its own round trip compares equal
    again = M5.unpackPacket(raw)
    ctx.expect(again == obj, lambda: "unpack(pack(p)) != p for %s" % W.show(p))
    ctx.expect(again.pack() == raw, lambda: "pack(unpack(pack(p))) differs for %s" % W.show(p))
    ctx.count("encodes")
    ctx.count("type " + W.NAMES[t])
    ctx.case(shape(p, len(raw)), W.show(p)[:300])


def scenario(r, ctx, idx):
    for k in range(PER):
        one(r, ctx, k % 15 + 1)


def d_sizes(r, ctx):
    """remaining-length boundaries and maximum-length fields."""
    for total in [0, 1, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 16370] + list(range(16376, 16390)) + \
            [65535, 65536, 2097140] + list(range(2097144, 2097156)):
        p = {"t": W.PUBLISH, "qos": 0, "dup": False, "retain": False, "topic": "t", "payload": b"x" * total, "props": []}
        one(r, ctx, W.PUBLISH, p)
    for n in (65535, 65534, 32768):
        p = {"t": W.PUBLISH, "qos": 1, "id": 65535, "dup": True, "retain": True, "topic": "t" * n, "payload": b"p",
             "props": [(9, b"z" * n), (3, "\u20ac" * (n // 3)), (38, ("k" * n, "")), (38, ("", "v" * n))]}
        one(r, ctx, W.PUBLISH, p)


def d_reasons(r, ctx):
    """every reason code of every packet type, by number and by the name the API reports for it."""
    for t, codes in gen.SAFE_REASONS.items():
        for c in codes:
            rc = M5.ReasonCodes(t, identifier=c)
            name = rc.getName()
            ctx.expect(M5.ReasonCodes(t, aName=name).value == c, "reason %s/%d name %r maps elsewhere" % (W.NAMES[t], c, name))
            ctx.expect(rc.pack() == bytes([c]), "reason code %d packs as %r" % (c, rc.pack()))
            p = gen.packet(r, t, 5)
            if "rcs" in p:
                p["rcs"] = [c]
            else:
                p["rc"] = c
            one(r, ctx, t, p)


def d_props(r, ctx):
    """every property alone, in every packet that allows it, at boundary values."""
    for ident, (name, kind, where) in W.PROPS.items():
        for t in where:
            vals = {W.BYTE: [0, 1], W.TWO: [1, 255, 256, 65535], W.FOUR: [1, 255, 256, 65535, 65536, 16777215, 16777216, 2 ** 32 - 1],
                    W.VAR: gen.VB, W.BIN: [b"", b"\0", b"\xff" * 300], W.STR: ["", "a", "\u00e9", "\u20ac\U0001f600"],
                    W.PAIR: [("", ""), ("k", "v"), ("\u00e9", "\U0001f600")]}[kind]
            for v in vals:
                if t == W.WILL:
                    p = gen.packet(r, W.CONNECT, 5)
                    p["will"] = {"qos": 1, "retain": True, "topic": "w", "payload": b"x", "props": [(ident, v)]}
                    one(r, ctx, W.CONNECT, p)
                else:
                    p = gen.packet(r, t, 5)
                    p["props"] = [(ident, v)]
                    one(r, ctx, t, p)


DIRECTED = [d_sizes, d_reasons, d_props]
