"""C03: decoders are total; malformed bytes are rejected, well-formed bytes are not; framing is exact."""
import contextlib, io, re, signal

from mon import wire as W, gen, repofmt, hostile
from mon.suite import new, join, done

ID = "C03"
RULE = ("byte-level faults (bit flips, truncations, insertions, length and flag changes, bad UTF-8) applied to random well-formed "
        "packets of both protocol versions, reframed so the outer length is consistent, judged against an independent strict "
        "decoder; plus getPacket() fed arbitrary segmentations and over-long length fields; "
        "distinct = (version, packet type, reference verdict)")
ASSUMPTIONS = ["the independent strict decoder mon/wire.py is a correct reading of the standards",
               "classes where the standards leave room are not judged: packet id 0 in acknowledgements, non-minimal remaining "
               "length in 3.1.1, one-byte AUTH, CONNECT with an unsupported protocol version"]
PLAN = {"quick": 200, "thorough": 6000}
REACH = {"distinct": 120, "rejected by both": 3000, "accepted by both": 1500, "frames": 500, "malformed packets to a live broker": 80}
PER = 150
LIVE = 6        # every LIVE-th scenario sends the malformed packets to a live broker
M = {}


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def setup(ctx):
    M[5], M[4] = repofmt.load()
    signal.signal(signal.SIGALRM, _alarm)


ACKS = (W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP, W.SUBACK, W.UNSUBACK)


def unjudged(reason, t, v, b):
    if reason is None:
        if t == W.AUTH and b[1] == 1:
            return True
        if t == W.CONNECT:
            p = W.decode(b, v)
            return p["ver"] != v or p["proto"] != "MQTT"
        return False
    if reason.startswith("packet id") and t in ACKS:
        return True
    return reason.startswith("non-minimal") and v == 4 and len(b) > 1


def judge(ctx, b, v, note):
    try:
        want, reason = gen.canon(W.decode(b, v)), None
    except W.Malformed as e:
        want, reason = None, str(e)
    t = b[0] >> 4
    signal.setitimer(signal.ITIMER_REAL, 10)
    obj, exc = None, None
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            obj = M[v].unpackPacket(b)
    except Hang:
        ctx.fail("decoding did not terminate within 10 s: %s" % b[:200].hex())
    except Exception as e:
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    ctx.count("decoded")
    if unjudged(reason, t, v, b):
        ctx.count("not judged")
        return
    kind = re.sub(r"[0-9]+", "N", reason or "valid")[:60]
    if reason is None:
        ctx.expect(exc is None and obj is not None, lambda: "well-formed v%d packet rejected (%r): %s [%s]" % (v, exc, b[:120].hex(), note))
        got = gen.canon((repofmt.read5 if v == 5 else repofmt.read3)(obj))
        ctx.expect(got == want, lambda: "decoded value differs: %s -> %s, %s" % (want, got, b[:120].hex()))
        ctx.count("accepted by both")
    else:
        ctx.expect(exc is not None or obj is None, lambda: "malformed v%d packet accepted (%s): %s [%s] as %s" %
                   (v, reason, b[:120].hex(), note, obj))
        ctx.count("rejected by both")
    ctx.case((v, t, kind), "v%d %s %s: %s" % (v, W.NAMES.get(t, t), kind, b[:40].hex()))


def malformed(r, v, types, limit=240):
    """a malformed packet, with the reason the independent decoder gives."""
    while True:
        good = W.encode(gen.packet(r, r.choice(types), v), v)
        if len(good) > limit:
            continue
        b = gen.reframe(gen.mutate(r, good)[0])
        try:
            W.decode(b, v)
        except W.Malformed as e:
            try:        # exactly one whole packet, so that the broker is not left waiting for the rest of it
                if len(b) > limit or len(W.split(b)[0]) != 1 or W.split(b)[1] or unjudged(str(e), b[0] >> 4, v, b):
                    continue
            except W.Malformed:
                continue
            return b, str(e)


CLIENT = (W.PUBLISH, W.PUBLISH, W.PUBACK, W.PUBREC, W.PUBREL, W.PUBCOMP, W.SUBSCRIBE, W.SUBSCRIBE, W.UNSUBSCRIBE, W.PINGREQ, W.DISCONNECT)


def live(r, ctx):
    """a live broker closes the connection on which a malformed packet arrives, and does not act on the packet."""
    d = new(r, ctx, ["maximum_packet_size 1000"], None, {"maximum_packet_size": 1000})
    for name, v in (("s5", 5), ("s4", 4)):
        s = join(d, name, v)
        s.subscribe([("#", {"qos": 2} if v == 5 else 2), ("+/#", {"qos": 1} if v == 5 else 1)])
    for k in range(14):
        v = r.choice([4, 5])
        if k % 3:
            c = join(d, "v%d" % k, v, props=[], clean=True)
            b, why = malformed(r, v, CLIENT + ((W.AUTH,) if v == 5 else ()))
            d.sim.log(c.name, "close!", ({0x81, 0x82, 0x90, 0x8f, 0x94, 0x99, 0xa2}, "malformed: " + why))
            c.send_raw(b)
            ctx.count("malformed packets to a live broker")
            ctx.case(("live", v, b[0] >> 4, re.sub(r"[0-9]+", "N", why)[:60]), "live v%d %s: %s" % (v, why, b[:40].hex()))
            d.step()
        else:
            b, why = malformed(r, v, (W.CONNECT,))
            first(d, ctx, b, why, k)
        d.clients[0].publish("a", d.payload(), 1)
        d.step()
    for i, (why, b) in enumerate(hostile.first_packets(r)):
        first(d, ctx, b, why, "f%d" % i)
    d.step()
    done(d)


def first(d, ctx, b, why, k):
    """a connection whose first bytes are b: it must not be accepted."""
    c = d.sim.client("x%s" % k, 5)
    c.quiet = True
    c.open()
    c.write(b)
    data = b""
    try:
        c.sock.shutdown(1)      # some are the beginning of something longer
        while True:
            x = c.sock.recv(4096)
            if not x:
                break
            data += x
    except OSError as e:
        ctx.expect("timed out" not in str(e), lambda: "connection not closed after %s: %s" % (why, b[:60].hex()))
    c.kill()
    ok = data[:1] != b"\x20" or len(data) > 3 and data[3] != 0
    ctx.expect(ok, lambda: "a connection that began with %s was accepted: %s -> %s" % (why, b[:80].hex(), data.hex()))
    ctx.count("malformed first packets to a live broker")


def scenario(r, ctx, idx):
    if idx % LIVE == 5:
        return live(r, ctx)
    v = 5 if idx % 3 else 4
    for k in range(PER):
        t = k % (15 if v == 5 else 14) + 1
        good = W.encode(gen.packet(r, t, v), v)
        b, how = gen.mutate(r, good)
        judge(ctx, gen.reframe(b), v, how)


def d_exhaustive(r, ctx):
    """every truncation and every bit of a set of small packets of each type; every first byte."""
    for v in (5, 4):
        for t in range(1, 16 if v == 5 else 15):
            for _ in range(6):
                good = W.encode(gen.packet(r, t, v), v)
                if len(good) > 90:
                    continue
                body = good[2:] if len(good) < 130 else None
                for k in range(len(body)):
                    judge(ctx, W.frame(good[0], body[:k]), v, "cut at %d" % k)
                for i in range(len(body)):
                    for bit in range(8):
                        m = bytearray(body)
                        m[i] ^= 1 << bit
                        judge(ctx, W.frame(good[0], bytes(m)), v, "bit %d of byte %d" % (bit, i))
                for b0 in range(16, 256):
                    if v == 4 and b0 >> 4 == 15:
                        continue
                    judge(ctx, W.frame(b0, body), v, "first byte %#x" % b0)


BADUTF = [b"\x00", b"a\x00b", b"\xc0\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xff", b"\xe2\x82", b"\xf4\x90\x80\x80", b"\xc1\xbf", b"\x80"]


def d_utf8(r, ctx):
    """ill-formed UTF-8 in every string position."""
    for bad in BADUTF:
        s = len(bad).to_bytes(2, "big") + bad
        ok = b"\0\1a"
        for v in (5, 4):
            P = b"\0" if v == 5 else b""
            head = b"\0\4MQTT" + bytes([v])
            cases = [(0x10, head + b"\2\0\0" + P + s), (0x10, head + b"\6\0\0" + P + ok + P + s + ok),
                     (0x10, head + b"\x82\0\0" + P + ok + s), (0x30, s + P + b"x"), (0x82, b"\0\1" + P + s + b"\0"),
                     (0xa2, b"\0\1" + P + s), (0x82, b"\0\1" + P + ok + b"\0" + s + b"\1")]
            if v == 5:
                for ident, (name, kind, where) in W.PROPS.items():
                    vals = {W.STR: [s], W.PAIR: [s + ok, ok + s]}.get(kind, [])
                    for val in vals:
                        pr = bytes([ident]) + val
                        pr = W.vbi(len(pr)) + pr
                        if W.PUBLISH in where:
                            cases.append((0x30, ok + pr + b"x"))
                        if W.CONNECT in where:
                            cases.append((0x10, head + b"\2\0\0" + pr + ok))
                        if W.CONNACK in where:
                            cases.append((0x20, b"\0\0" + pr))
                        if W.DISCONNECT in where:
                            cases.append((0xe0, b"\0" + pr))
            for b0, body in cases:
                judge(ctx, W.frame(b0, body), v, "bad utf-8 " + bad.hex())
                ctx.count("bad utf-8")


def d_dup_props(r, ctx):
    """every property twice; every property in every packet that does not allow it; unknown identifiers."""
    def enc(ident, kind):
        val = {W.BYTE: b"\1", W.TWO: b"\0\1", W.FOUR: b"\0\0\0\1", W.VAR: b"\1", W.BIN: b"\0\1x", W.STR: b"\0\1x",
               W.PAIR: b"\0\1k\0\1v"}[kind]
        return bytes([ident]) + val
    ok = b"\0\1a"
    holder = {W.CONNECT: lambda pr: W.frame(0x10, b"\0\4MQTT\5\2\0\0" + pr + ok), W.CONNACK: lambda pr: W.frame(0x20, b"\0\0" + pr),
              W.PUBLISH: lambda pr: W.frame(0x32, ok + b"\0\1" + pr + b"x"), W.PUBACK: lambda pr: W.frame(0x40, b"\0\1\0" + pr),
              W.PUBREC: lambda pr: W.frame(0x50, b"\0\1\0" + pr), W.PUBREL: lambda pr: W.frame(0x62, b"\0\1\0" + pr),
              W.PUBCOMP: lambda pr: W.frame(0x70, b"\0\1\0" + pr), W.SUBSCRIBE: lambda pr: W.frame(0x82, b"\0\1" + pr + ok + b"\0"),
              W.SUBACK: lambda pr: W.frame(0x90, b"\0\1" + pr + b"\0"), W.UNSUBSCRIBE: lambda pr: W.frame(0xa2, b"\0\1" + pr + ok),
              W.UNSUBACK: lambda pr: W.frame(0xb0, b"\0\1" + pr + b"\0"), W.DISCONNECT: lambda pr: W.frame(0xe0, b"\0" + pr),
              W.AUTH: lambda pr: W.frame(0xf0, b"\0" + pr),
              W.WILL: lambda pr: W.frame(0x10, b"\0\4MQTT\5\6\0\0\0" + ok + pr + ok + ok)}
    for t, make in holder.items():
        for ident, (name, kind, where) in W.PROPS.items():
            one = enc(ident, kind)
            for pr in (one, one + one, one + enc(38, W.PAIR), enc(38, W.PAIR) + one):
                judge(ctx, make(W.vbi(len(pr)) + pr), 5, "property %s in %s" % (name, W.NAMES.get(t, t)))
        for ident in range(1, 128):
            if ident not in W.PROPS:
                pr = bytes([ident, 1])
                judge(ctx, make(W.vbi(len(pr)) + pr), 5, "unknown property %d" % ident)


class Feed:
    """a socket that delivers fixed segments, then end of stream."""

    def __init__(self, segs):
        self.segs, self.reads = [s for s in segs if s], 0

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def recv(self, n):
        self.reads += 1
        if self.reads > 20000:
            raise Hang()
        if not self.segs:
            return b""
        s = self.segs[0]
        out, rest = s[:n], s[n:]
        if rest:
            self.segs[0] = rest
        else:
            self.segs.pop(0)
        return out

    def left(self):
        return b"".join(self.segs)


def d_framing(r, ctx):
    """getPacket() returns exactly one packet whatever the segmentation, and never runs on."""
    for n in range(400):
        v = r.choice([4, 5])
        pkts = [W.encode(gen.packet(r, r.randrange(1, 16 if v == 5 else 15), v), v) for _ in range(r.randrange(1, 4))]
        if n % 50 == 0:
            pkts.insert(0, W.encode({"t": W.PUBLISH, "topic": "t", "payload": b"x" * r.choice([122, 123, 16377, 16378, 70000]), "qos": 0,
                                     "dup": False, "retain": False, "props": []}, v))
        stream = b"".join(pkts)
        cuts = sorted(r.randrange(len(stream) + 1) for _ in range(r.randrange(0, 8)))
        f = Feed([stream[a:b] for a, b in zip([0] + cuts, cuts + [len(stream)])])
        for raw in pkts:
            got = M[v].getPacket(f)
            ctx.expect(got == raw, lambda: "getPacket returned %r for %s" % (got and got[:80].hex(), raw[:80].hex()))
            ctx.count("frames")
        ctx.expect(f.left() == b"", lambda: "getPacket left or took bytes")
        ctx.case(("frame", v, len(cuts), len(pkts)))
        # end of stream inside a packet: no packet, no endless loop
        cut = r.randrange(1, len(pkts[0]))
        f = Feed([pkts[0][:cut]])
        try:
            got = M[v].getPacket(f)
        except Exception:
            got = None
        ctx.expect(got is None, lambda: "getPacket made up a packet from %s" % pkts[0][:cut].hex())
        ctx.count("truncated streams")
    for v in (4, 5):
        for b0 in (0x10, 0x30, 0x82, 0xc0):
            for k in (4, 5, 8, 4000):
                f = Feed([bytes([b0]) + b"\xff" * k + b"\x01" + b"z" * 300])
                try:
                    got = M[v].getPacket(f)
                except Exception:
                    got = None
                ctx.expect(got is None, "a length field of %d bytes was accepted" % (k + 1))
                ctx.expect(f.reads < 2000, "an over-long length field was read on for %d reads" % f.reads)
                ctx.count("over-long lengths")
                ctx.case(("long", v, b0, k))


DIRECTED = [d_exhaustive, d_utf8, d_dup_props, d_framing]
