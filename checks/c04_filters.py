"""C04: topic filters"""
import itertools, socket
from mon import wire as W
from mon.drive import Drive
from mon.sim import real_select
from mon.model import matches
from mon.suite import *

ID = "C04"
RULE = ("one evaluation = one pair (topic filter, topic name) decided by a live broker, by delivery (MQTT 5: all filters at once, told apart by subscription "
        "identifiers; MQTT 3.1.1: one filter per client) or by retained messages; distinct = (path, filter, topic), or an invalid filter or topic")
ASSUMPTIONS = "the matcher in mon/model.py (12 lines) is a correct reading of section 4.7 of the standards; for an invalid filter a failure code and the end of the connection are both accepted"
PLAN = {"quick": 240, "thorough": 6000}
REACH = {"distinct": 15000, "invalid filters": 200, "invalid topics": 80, "pairs that match": 8000}

LEV = ["", "a", "A", "b", "$x"]


def all_topics(depth):
    for n in range(1, depth + 1):
        for t in itertools.product(LEV, repeat=n):
            s = "/".join(t)
            if s:
                yield s


def all_filters(depth):
    for n in range(1, depth + 1):
        for t in itertools.product(LEV + ["+"], repeat=n - 1):
            for last in LEV + ["+", "#"]:
                s = "/".join(t + (last,))
                if s:
                    yield s


T3, F3 = list(all_topics(3)), list(all_filters(3))
WORDS = ["", ".", "*", "(x)", "a|b", "\\", "[a]", "a{2}", "^a", "a?b", "a\nb", "]", "a", "b", "ab", "A", " ", "\u00e9", "\u20ac\u20ac", "$", "$x", "0", "sport", "a b", "\U0001f600", "x" * 40]


def wild(r, t):
    """a filter near the topic t."""
    ls = t.split("/")
    for i in range(len(ls)):
        x = r.random()
        if x < .3:
            ls[i] = "+"
        elif x < .36:
            ls[i] = r.choice(WORDS)
    x = r.random()
    if x < .35:
        ls = ls[:r.randrange(len(ls) + 1)] + ["#"]
    elif x < .42:
        ls.append("+")
    elif x < .47 and len(ls) > 1:
        ls.pop()
    return "/".join(ls) or "#"


def note(ctx, path, filters, topics):
    for f in filters:
        for t in topics:
            m = matches(f, t)
            ctx.count("pairs that match" if m else "pairs that do not match")
            ctx.case((path, f, t), "%s: filter %r topic %r %s" % (path, f, t, m))


def draw(r, idx, per):
    """filters and topics: the small alphabet chunk by chunk, then random longer ones."""
    if idx % 4 < 3:
        return [F3[(idx * per * 7 + i * 11) % len(F3)] for i in range(per)], r.sample(T3, 40)
    topics = ["/".join(r.choice(WORDS) for _ in range(r.randrange(1, 7))) for _ in range(40)]
    topics = sorted({t for t in topics if t})
    return sorted({wild(r, r.choice(topics)) for _ in range(per)}), topics


def publish_all(d, p, topics):
    for i, t in enumerate(topics):
        p.publish(t, d.payload(), d.r.randrange(3))
        if i % 10 == 9:
            d.step()
    d.step()


def by_id(r, ctx, idx):
    """one client, a subscription identifier for each filter."""
    if r.random() < .5:
        fs, ts = r.sample(F3, 120), r.sample(T3, 60)
    else:
        fs, ts = draw(r, 3, 60)
    d = new(r, ctx)
    s = join(d, "s", 5)
    for i, f in enumerate(fs):
        s.subscribe([(f, {"qos": r.randrange(3)})], props=[(11, i + 1)])
    d.step()
    publish_all(d, join(d, "p", 5), ts)
    gone = r.sample(fs, len(fs) // 2)
    s.unsubscribe(gone)
    d.step()
    publish_all(d, d.clients[1], r.sample(ts, len(ts) // 2))
    note(ctx, "v5", fs, ts)
    done(d)


def by_client(r, ctx, idx):
    """one filter for each client."""
    v = 4 if r.random() < .75 else 5
    fs, ts = draw(r, idx, 12)
    d = new(r, ctx)
    for i, f in enumerate(fs):
        s = join(d, "s%d" % i, v)
        s.subscribe([(f, {"qos": 2} if v == 5 else 2)])
    publish_all(d, join(d, "p", r.choice([4, 5])), ts)
    note(ctx, "v%d each" % v, fs, ts)
    done(d)


def by_retained(r, ctx, idx):
    """retained messages sent for a new subscription."""
    fs, ts = draw(r, idx, 60)
    d = new(r, ctx)
    p = join(d, "p", r.choice([4, 5]))
    for t in ts:
        p.publish(t, d.payload(), r.randrange(3), retain=True)
    d.step()
    for v in (4, 5):
        s = join(d, "s%d" % v, v)
        for k in range(0, len(fs), 3):
            s.subscribe([(f, {"qos": 2} if v == 5 else 2) for f in fs[k:k + 3]])
            d.step()
            s.unsubscribe(fs[k:k + 3])
        note(ctx, "v%d retained" % v, fs, ts)
    for t in r.sample(ts, 5):
        p.publish(t, b"", 1, retain=True)
    d.step()
    s.subscribe([("#", {"qos": 1}), ("$x/#", {"qos": 1})])
    done(d)


BADF = ["a#", "#a", "a/#/b", "#/", "#/a", "##", "a/b#", "a+", "+a", "a/+b", "a/b+/c", "++", "+#", "a/#b", "a/+#", "#/#", "/a#", "a//#/", "+/a+/b"]
BADSHARE = ["$share/g/a#", "$share/g/#/a", "$share//a", "$share/g", "$share/g/", "$share/+/a", "$share/#", "$share/g+/a", "$share/#/a", "$share/"]
BADT = ["+", "#", "a/+", "a/#", "+/a", "a/+/b", "a+", "a#b", "/#", "a\0b", "\0", ""]


class Raw:
    """a connection of its own, beside those the trace specification watches."""

    def __init__(self, d, v, n):
        self.s = socket.create_connection(d.sim.addr, 10)
        self.v, self.buf = v, b""
        self.send({"t": W.CONNECT, "clean": True, "keepalive": 0, "cid": "raw%d" % n, "will": None, "props": [], "username": None, "password": None})
        p = self.read()
        assert p and p["t"] == W.CONNACK and p["rc"] == 0, p

    def send(self, p):
        self.s.sendall(W.encode(p, self.v))

    def read(self):
        """the next packet, or None at the end."""
        while True:
            ps, rest = W.split(self.buf)
            if ps:
                self.buf = self.buf[len(ps[0]):]
                return W.decode(ps[0], self.v)
            try:
                x = self.s.recv(4096)
            except ConnectionError:
                return None
            if not x:
                return None
            self.buf += x


def invalid(r, ctx, idx):
    d = new(r, ctx)
    w5, w4 = join(d, "w5", 5), join(d, "w4", 4)
    w5.subscribe([("#", {"qos": 2})])
    w4.subscribe([("#", 2)])
    d.step()
    n = 0
    for v in (4, 5):
        for f in r.sample(BADF, 12) + (r.sample(BADSHARE, 5) if v == 5 else []) + ["a\0"]:
            n += 1
            c = Raw(d, v, n)
            good = [("b", {"qos": 1} if v == 5 else 1)]
            subs = r.choice([[], good]) + [(f, {"qos": 1} if v == 5 else 1)] + r.choice([[], good])
            c.send({"t": W.SUBSCRIBE, "id": 7, "subs": subs, "props": []})
            p = c.read()
            if p is not None and not (v == 5 and p["t"] == W.DISCONNECT):
                i = [x[0] for x in subs].index(f)
                ctx.expect(p["t"] == W.SUBACK and p["rcs"][i] >= 0x80, lambda: "v%d: the invalid topic filter %r was granted: %s" % (v, f, W.show(p)))
            ctx.count("invalid filters")
            ctx.case(("filter", v, f), "v%d invalid filter %r: %s" % (v, f, p and W.NAMES[p["t"]]))
            c.s.close()
        for t in BADT:
            n += 1
            c = Raw(d, v, n)
            c.send({"t": W.PUBLISH, "topic": t, "payload": b"bad", "qos": r.randrange(3), "id": 1, "retain": r.random() < .5, "dup": False, "props": []})
            if r.random() < .5:
                try:
                    c.send({"t": W.PUBREL, "id": 1})
                except OSError:
                    pass
            while True:         # either way, what was published must not turn up anywhere
                p = c.read()
                if p is None or p["t"] != W.DISCONNECT:
                    break
            ctx.count("invalid topics")
            ctx.case(("topic", v, t), "v%d invalid topic %r: %s" % (v, t, p and W.NAMES[p["t"]]))
            c.s.close()
        d.step()
        w5.publish("a", d.payload(), 1)
        d.step()
    late = join(d, "late", 5)
    late.subscribe([("#", {"qos": 1}), ("+/#", {"qos": 0})])
    done(d)


def scenario(r, ctx, idx):
    (by_id, by_client, by_client, by_retained, invalid)[idx % 5](r, ctx, idx // 5)
