"""C33: MQTT-SN packet encode/decode fidelity and rejection of other datagrams."""
import contextlib, io, itertools, logging, signal
from mon import sn, repofmt

ID = "C33"
RULE = ("random valid MQTT-SN CONNECT, CONNACK and PUBLISH messages (all flags, all size classes) through the repository's encoder and decoder against an independent codec; "
        "mutated datagrams (cut, extended, wrong lengths, types and octets) have to be refused, or decoded to what they say; distinct = (message type, flags, size class or "
        "kind of malformation)")
ASSUMPTIONS = ["mon/sn.py is a correct reading of MQTT-SN 1.2", "datagrams which are decodable but hold values the standard reserves may be refused or decoded"]
PLAN = {"quick": 200, "thorough": 4000}
REACH = {"distinct": 150, "round trips": 8000, "refused": 6000, "decoded": 2000}
M = None


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def setup(ctx):
    global M
    repofmt.load()
    from mqtt.formats import MQTTSN
    M = MQTTSN
    logging.getLogger("MQTT-SN").setLevel(logging.CRITICAL + 1)
    signal.signal(signal.SIGALRM, _alarm)


def one(r, ctx, p):
    ref = sn.encode(p)
    try:
        raw = sn.build(M, p).pack()
    except Exception as e:
        ctx.fail("packing a valid message raised %r: %s" % (e, sn.show(p)))
    ctx.expect(raw == ref, lambda: "encoded as %s instead of %s: %s" % (raw[:60].hex(), ref[:60].hex(), sn.show(p)))
    try:
        back = M.unpackPacket(ref)
    except Exception as e:
        ctx.fail("decoding a valid message raised %r: %s %s" % (e, ref[:60].hex(), sn.show(p)))
    got = sn.read(M, back)
    ctx.expect(got == p, lambda: "decoded as %s instead of %s" % (sn.show(got), sn.show(p)))
    ctx.expect(back == sn.build(M, p), lambda: "the decoded message does not equal the original: %s" % sn.show(p))
    ctx.expect(back.pack() == ref, lambda: "pack(unpack(b)) differs: %s" % ref[:60].hex())
    str(back)
    other = dict(p)
    k = r.choice([k for k in p if k != "t"])
    if k == "flags":
        f = dict(p["flags"])
        g = r.choice(list(f))
        f[g] = not f[g] if isinstance(f[g], bool) else (f[g] + 1) % 3
        other[k] = f
    else:
        other[k] = p[k] + (1 if isinstance(p[k], int) and p[k] < 200 else -1 if isinstance(p[k], int) else "x" if isinstance(p[k], str) else b"x")
    ctx.expect(not (sn.build(M, other) == back), lambda: "messages that differ in %s are equal: %s" % (k, sn.show(p)))
    ctx.count("round trips")
    ctx.case((p["t"], tuple(p.get("flags", {}).values()), len(ref) > 255, p.get("rc")), sn.show(p)[:200])


def bad(r, ctx, b):
    try:
        (want, canonical), why = sn.decode(b), None
    except sn.Bad as e:
        want, canonical, why = None, False, str(e)
    obj = exc = None
    signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            obj = M.unpackPacket(b)
    except Hang:
        ctx.fail("decoding does not end: %s" % b[:60].hex())
    except Exception as e:
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if obj is None:
        ctx.expect(not canonical, lambda: "valid message refused (%r): %s" % (exc, b[:60].hex()))
        ctx.count("refused")
        if why:
            ctx.case(("refused", b[1] if len(b) > 1 else -1, why.split(" ")[0], len(b) > 255), "%s: %s" % (b[:20].hex(), why))
        return
    ctx.expect(why is None, lambda: "datagram decoded that is no message (%s): %s as %s" % (why, b[:60].hex(), obj))
    got = sn.read(M, obj)
    ctx.expect(got == want, lambda: "%s decoded as %s instead of %s" % (b[:60].hex(), sn.show(got), sn.show(want)))
    ctx.count("decoded")


def scenario(r, ctx, idx):
    for k in range(60):
        one(r, ctx, sn.packet(r, r.choice([sn.CONNECT, sn.CONNACK, sn.PUBLISH, sn.PUBLISH])))
    for k in range(80):
        b = sn.encode(sn.packet(r, r.choice([sn.CONNECT, sn.CONNACK, sn.PUBLISH])))
        for n in range(r.choice([1, 1, 2])):
            b = sn.mutate(r, b) if len(b) > 1 else b
        bad(r, ctx, b)


def d_flags(r, ctx):
    """every combination of flags and every boundary of the length field."""
    for dup, q, ret, tit in itertools.product([False, True], [0, 1, 2, -1], [False, True], [0, 1, 2]):
        one(r, ctx, {"t": sn.PUBLISH, "flags": {"dup": dup, "qos": q, "retain": ret, "will": False, "clean": False, "tit": tit}, "topic": 24930, "id": 7, "data": b"x"})
    for n in list(range(240, 262)) + [65535 - 10, 65535 - 9]:
        f = {"dup": False, "qos": 0, "retain": False, "will": False, "clean": False, "tit": 2}
        one(r, ctx, {"t": sn.PUBLISH, "flags": f, "topic": 1, "id": 0, "data": b"y" * n})
    for n in range(0, 70):
        bad(r, ctx, bytes([n]) + r.randbytes(n))
    for t in range(256):
        for n in (2, 3, 7, 10):
            bad(r, ctx, bytes([n, t]) + bytes(n - 2))


DIRECTED = [d_flags]
