"""Trace specification of an MQTT broker, checked against recorded executions.

The monitor consumes the event trace of a Sim (what every client sent and
received, connection ends, virtual time steps).  It keeps the state a client can
rely on - sessions, subscriptions, retained messages, in-flight messages - and
judges each arrival: was it owed, in this order, with this content and these
flags?  At quiescent points it also asks whether something owed has not come.

It was written from the MQTT 3.1.1 and 5.0 standards.  Where they leave a choice
the monitor accepts every permitted outcome (see 'optional' entries).
"""
from . import wire as W
from .runner import Violation

FWD = ("PayloadFormatIndicator", "ContentType", "ResponseTopic", "CorrelationData", "UserProperty")
INF = 0xFFFFFFFF


def levels(s):
    return s.split("/")


def matches(flt, topic):
    """MQTT 4.7: does the filter match the topic name?"""
    f, t = levels(flt), levels(topic)
    if topic[:1] == "$" and f[0] in ("+", "#"):
        return False
    for i, x in enumerate(f):
        if x == "#":
            return True
        if i >= len(t):
            return False
        if x != "+" and x != t[i]:
            return False
    return len(t) == len(f)


def valid_filter(flt):
    if not flt or "\0" in flt or len(flt.encode()) > 65535:
        return False
    ls = levels(flt)
    for i, x in enumerate(ls):
        if "#" in x and (x != "#" or i != len(ls) - 1):
            return False
        if "+" in x and x != "+":
            return False
    return True


def valid_shared(flt):
    """of a filter starting with $share/"""
    parts = flt.split("/", 2)
    return len(parts) == 3 and parts[1] != "" and not set(parts[1]) & set("+#") and valid_filter(parts[2])


class Sub:
    __slots__ = ("flt", "qos", "nl", "rap", "subid", "share", "eff")

    def __init__(self, flt, qos, nl=False, rap=False, subid=None):
        self.flt, self.qos, self.nl, self.rap, self.subid = flt, qos, nl, rap, subid
        self.share, self.eff = None, flt
        if flt.startswith("$share/"):
            _, self.share, self.eff = flt.split("/", 2)


# closes for which the standard prescribes a DISCONNECT with a reason
MUST_TELL = ("taken over", "receive maximum exceeded", "packet too large", "topic alias invalid", "asked for")


class Entry:
    """one delivery owed (or allowed) to one session."""
    __slots__ = ("topic", "payload", "qos", "retain", "props", "subids", "expiry", "at", "batch", "optional", "dup_ok",
                 "group", "label")

    def __init__(self, **kw):
        self.optional = self.dup_ok = False
        self.group = None
        self.expiry = None
        self.label = ""
        for k, v in kw.items():
            setattr(self, k, v)

    def clone(self):
        e = Entry()
        for k in self.__slots__:
            setattr(e, k, getattr(self, k))
        return e

    def __repr__(self):
        return "%s %r qos%d%s%s" % (self.topic, self.payload[:24], self.qos, " optional" if self.optional else "",
                                    " " + self.label if self.label else "")


class Group:
    """a shared-subscription delivery: exactly one member gets it."""
    __slots__ = ("key", "claimed", "alts", "live", "excused", "qos", "what", "subs")

    def __init__(self, key, qos, what):
        self.key, self.claimed, self.live, self.excused, self.qos, self.what = key, None, set(), False, qos, what
        self.alts = []      # other groups the delivery claimed for this one might be meant for


class InFlight:
    __slots__ = ("id", "e", "state", "need", "seen")

    def __init__(self, id, e):
        self.id, self.e, self.state, self.need = id, e, "sent", None


class Sess:
    def __init__(self, cid, v):
        self.cid, self.v = cid, v
        self.subs = {}
        self.inflight = []
        self.queue = []
        self.inq2 = set()
        self.compfail = set()      # QoS 2 publications which are to end with an error
        self.conn = None
        self.will = None
        self.will_delay = 0
        self.expiry = 0
        self.ended = None
        self.clean = True
        self.recvmax, self.maxpkt, self.aliasmax = 65535, 268435455, 0
        self.pending_will = None   # (due, will)


class Conn:
    def __init__(self, name, v):
        self.name, self.v = name, v
        self.sess = None
        self.state = "open"
        self.connacked = False
        self.expect = []        # replies owed, in order
        self.maybe = []         # replies allowed
        self.close_rcs = None
        self.close_why = None
        self.unacked = []
        self.pubrels = []       # PUBRELs owed
        self.aliases = {}
        self.out_aliases = set()
        self.keepalive = 0
        self.last = 0
        self.sp = None
        self.refused = None
        self.told = False       # a DISCONNECT has come


class Model:
    def __init__(self, ctx=None, receive_maximum=2, topic_alias_maximum=2, maximum_packet_size=256,
                 server_keep_alive=60, publish_on_pubrel=False, overlapping_single=True):
        self.ctx = ctx
        self.cfg_recv, self.cfg_alias, self.cfg_max, self.cfg_ka = (receive_maximum, topic_alias_maximum,
                                                                  maximum_packet_size, server_keep_alive)
        self.on_pubrel, self.single = publish_on_pubrel, overlapping_single
        self.sess = {}
        self.conns = {}
        self.retained = {}
        self.groups = []
        self.allgroups = []
        self.owing = []
        self.now = 1000.0
        self.batch = 0
        self.fed = 0
        self.in_advance = False
        self.feats = set()
        self.delivered = 0
        self.held = {}            # QoS 2 publications held until PUBREL (publish_on_pubrel)
        self.illegal = {}
        self.uuid_ok = set()

    # ------------------------------------------------------------------ util
    def fail(self, what, key=None):
        raise Violation(what, key)

    def count(self, k, n=1):
        if self.ctx is not None:
            self.ctx.count(k, n)

    def feat(self, *f):
        self.feats.update(f)

    def feed(self, trace):
        while self.fed < len(trace):
            ev = trace[self.fed]
            self.fed += 1
            try:
                self.event(*ev)
            except Violation as v:
                raise Violation("event %d: %s" % (ev[0], v.what), v.key)

    def event(self, n, t, client, kind, pkt):
        self.now = t
        if kind == ">":
            self.sent(client, pkt)
        elif kind == "<":
            self.arrived(client, pkt)
        elif kind == "drop":
            c = self.conns.get(client)
            if c and c.state == "open":
                self.end(c, will=True)
        elif kind == "eof":
            self.eof(client)
        elif kind == "advance":
            pass
        elif kind == "advanced":
            self.advanced()
        elif kind == "illegal":
            self.illegal[client] = pkt     # allowed reason codes / True
        elif kind == "close!":
            self.must_close(self.conns[client], *pkt)
        elif kind == "reset":
            self.reset()
        elif kind == "outside":     # a publication that came in another way than MQTT
            self.route(None, pkt["topic"], pkt["payload"], 0, pkt["retain"], [], False)
        elif kind == "bad":
            self.fail("%s received bytes that are no valid packet: %s" % (client, pkt))
        elif kind in ("timeout",):
            self.fail("%s: an answer did not come" % client)
        elif kind == "noeof":
            self.fail("%s: the broker did not close the connection" % client)

    def reset(self):
        """reinitialize(): nothing of before remains."""
        self.sess.clear()
        self.conns.clear()
        self.retained.clear()
        self.groups = []
        self.allgroups = []
        self.owing = []
        self.held.clear()
        self.illegal.clear()

    # ------------------------------------------------------------ client sends
    def sent(self, name, p):
        t = p["t"]
        if t == W.CONNECT and not (name in self.conns and self.conns[name].state == "open"):
            self.do_connect(name, p)
            return
        c = self.conns.get(name)
        if c is None or c.state != "open":
            return
        if name in self.illegal:
            rcs = self.illegal.pop(name)
            self.must_close(c, rcs, "protocol violation")
            return
        c.last = self.now
        if c.v == 5 and len(W.encode(p, 5)) > self.cfg_max:
            self.must_close(c, {0x95}, "packet too large")
            return
        f = getattr(self, "s_" + W.NAMES[t].lower(), None)
        if f:
            f(c, c.sess, p)

    def do_connect(self, name, p):
        v = p["_v"]
        c = Conn(name, v)
        self.conns[name] = c
        c.last = self.now
        if name in self.illegal:
            rcs = self.illegal.pop(name)
            c.refused = rcs
            c.state = "closing"
            c.close_why = "refused"
            return
        cid = p["cid"]
        props = p.get("props") or []
        if cid == "":
            if v == 4 and not p["clean"]:
                c.refused = {2}
                c.state = "closing"
                c.close_why = "refused"
                return
            cid = ("auto", name, self.fed)
            c.auto = True
            self.feat("auto-id")
        # takeover
        for o in self.conns.values():
            if o is not c and o.state == "open" and o.sess and o.sess.cid == cid:
                self.feat("takeover")
                self.must_close(o, {0x8E}, "taken over", will=True)
        old = self.sess.get(cid)
        if old is not None and self.expired(old):
            self.kill_session(old)
            old = None
            self.feat("session-expired")
        clean = p["clean"]
        if clean and old is not None:
            self.kill_session(old)
            old = None
            self.feat("clean-discards")
        if old is None:
            s = Sess(cid, v)
            self.sess[cid] = s
            c.sp = False
        else:
            s = old
            c.sp = True
            self.feat("resume")
        if s.pending_will:
            self.feat("will-cancelled")
            s.pending_will = None
        s.conn = c
        c.sess = s
        s.clean = clean
        s.recvmax = W.pget(props, "ReceiveMaximum", 65535) if v == 5 else 10 ** 9
        s.maxpkt = W.pget(props, "MaximumPacketSize", 268435455) if v == 5 else 268435455
        s.aliasmax = W.pget(props, "TopicAliasMaximum", 0) if v == 5 else 0
        s.expiry = (W.pget(props, "SessionExpiryInterval", 0) if v == 5 else (0 if clean else INF))
        w = p.get("will")
        s.will = w
        s.will_delay = W.pget(w.get("props") or [], "WillDelayInterval", 0) if w and v == 5 else 0
        c.keepalive = p["keepalive"]
        if v == 5 and c.keepalive > self.cfg_ka:
            c.keepalive = self.cfg_ka
            c.ska = True
        for f in s.inflight:
            f.need = "pub" if f.state == "sent" else "rel"
            if f.need == "rel":
                c.pubrels.append(f.id)

    def expired(self, s):
        return s.conn is None and s.expiry < INF and s.ended is not None and self.now - s.ended >= s.expiry

    def kill_session(self, s):
        for e in s.queue:
            if e.group:
                e.group.excused = True
        for f in s.inflight:
            if f.e.group and f.e.group.claimed is None:
                f.e.group.excused = True
        self.sess.pop(s.cid, None)
        s.dead = True
        if s.pending_will:
            due, w = s.pending_will
            s.pending_will = None
            self.publish_will(s, w)

    def publish_will(self, s, w):
        self.feat("will%d%s" % (s.v, "r" if w["retain"] else ""))
        self.count("wills")
        self.route(s, w["topic"], w["payload"], w["qos"], w["retain"],
                   [q for q in (w.get("props") or []) if q[0] != W.PID["WillDelayInterval"]], v5=s.v == 5)

    def must_close(self, c, rcs, why, will=True):
        if c.state != "open":
            return
        self.feat("close:" + why)
        c.close_rcs, c.close_why = rcs, why
        self.end(c, will)
        c.state = "closing"

    def end(self, c, will):
        """the session's use of this connection is over."""
        s = c.sess
        c.state = "closed"
        if s is None or s.conn is not c:
            return
        for e in s.queue:
            e.dup_ok = True
        w = s.will
        delay = min(s.will_delay, s.expiry)
        s.will = None
        before = len(s.queue)
        if will and w and delay == 0:
            self.publish_will(s, w)
            for e in s.queue[before:]:
                e.dup_ok = True
                e.optional = e.optional or self.big(s, e)    # may have been given up for this connection
            w = None
        for e in s.queue:
            if self.big(s, e):      # may have been given up for this connection, and may not
                e.optional = True
                if e.group:
                    e.group.excused = True
        s.conn = None
        s.ended = self.now
        s.queue = [e for e in s.queue if not self.drop_offline(e)]
        for f in s.inflight:
            f.need = None
        if s.expiry == 0:
            self.kill_session(s)
        elif will and w:
            s.pending_will = (self.now + delay, w)
            self.feat("will-delayed")

    def drop_offline(self, e):
        if e.qos == 0:
            if e.group:
                e.group.excused = True
            return True
        return False

    def eof(self, name):
        c = self.conns.get(name)
        if c is None:
            return
        if c.state == "open":
            self.fail("%s: the broker closed the connection although nothing gave it cause to" % name)
        if c.state == "closing":
            c.state = "closed"
            if c.close_why in MUST_TELL and c.v == 5 and c.connacked and not c.told:
                self.fail("%s: closed for %s without being told the reason %s" %
                          (name, c.close_why, sorted(hex(x) for x in c.close_rcs)))

    # handlers of what clients send
    def s_connect(self, c, s, p):
        self.must_close(c, {0x82}, "second CONNECT")

    def s_disconnect(self, c, s, p):
        rc = p.get("rc", 0)
        se = W.pget(p.get("props") or [], "SessionExpiryInterval")
        if se is not None:
            if s.expiry == 0 and se > 0:
                self.must_close(c, {0x82}, "session expiry raised from 0")
                return
            s.expiry = se
            self.feat("disconnect-expiry")
        self.feat("disconnect%d" % rc)
        self.end(c, will=rc != 0)
        c.state = "closing"
        c.close_rcs = None
        c.close_why = "DISCONNECT"

    def s_pingreq(self, c, s, p):
        c.expect.append({"t": W.PINGRESP})

    def s_subscribe(self, c, s, p):
        codes = []
        props = p.get("props") or []
        subid = W.pget(props, "SubscriptionIdentifier")
        self.batch += 1
        for flt, o in p["subs"]:
            if not isinstance(o, dict):
                o = {"qos": o}
            q = o["qos"]
            if flt == "test/nosubscribe":
                codes.append({0x80})
                continue
            if flt == "test/QoS 1 only":
                q = min(1, q)
            elif flt == "test/QoS 0 only":
                q = 0
            codes.append({q})
            new = flt not in s.subs
            sub = s.subs[flt] = Sub(flt, q, o.get("nl", False), o.get("rap", False), subid)
            self.feat("sub" if new else "resub")
            rh = o.get("rh", 0)
            if sub.share is not None:
                self.feat("share")
                continue
            if c.v == 5 and (rh == 2 or (rh == 1 and not new)):
                self.feat("rh%d-none" % rh)
                continue
            for topic, m in self.retained.items():
                if not matches(flt, topic):
                    continue
                self.feat("retained")
                e = Entry(topic=topic, payload=m["payload"], qos=min(m["qos"], q), retain={True}, at=m["at"],
                          props=m["props"], expiry=m["expiry"], batch=("r", self.batch),
                          subids=frozenset([subid]) if subid else frozenset(), label="retained")
                self.owe(s, e)
        c.expect.append({"t": W.SUBACK, "id": p["id"], "codes": codes, "up": W.pgetall(props, "UserProperty")})

    def s_unsubscribe(self, c, s, p):
        codes = []
        for f in p["filters"]:
            codes.append({0} if f in s.subs else {0x11})
            s.subs.pop(f, None)
            self.feat("unsub")
        c.expect.append({"t": W.UNSUBACK, "id": p["id"], "codes": codes})

    def s_publish(self, c, s, p):
        props = p.get("props") or []
        topic = p["topic"]
        if "+" in topic or "#" in topic:
            self.must_close(c, {0x90, 0x82, 0x81}, "wildcard in topic name")
            return
        if topic == "cmd/disconnectWithRC" and c.v == 5:
            c.maxpkt = s.maxpkt
            self.must_close(c, {int(p["payload"])}, "asked for", will=False)
            return
        if p["qos"] and c.v == 5 and p["id"] not in s.inq2 and len(s.inq2) >= self.cfg_recv:
            self.must_close(c, {0x93}, "receive maximum exceeded")
            return
        al = W.pget(props, "TopicAlias") if c.v == 5 else None
        if al is not None:
            if al == 0 or al > self.cfg_alias or (topic == "" and al not in c.aliases):
                self.must_close(c, {0x94, 0x82}, "topic alias invalid")
                return
            if topic:
                c.aliases[al] = topic
                self.feat("alias-set")
            else:
                topic = c.aliases[al]
                self.feat("alias-used")
        elif topic == "":
            self.must_close(c, {0x82, 0x90, 0x81}, "empty topic name")
            return
        fwd = [q for q in props if q[0] != W.PID["TopicAlias"]]
        self.count("publications")
        if p["qos"] == 0:
            self.route(s, topic, p["payload"], 0, p["retain"], fwd, c.v == 5)
        elif p["qos"] == 1:
            n = self.route(s, topic, p["payload"], 1, p["retain"], fwd, c.v == 5)
            c.expect.append({"t": W.PUBACK, "id": p["id"], "rcs": {0} if n else {0, 0x10}})
            if topic == "test_qos_1_2_errors":
                c.expect[-1]["rcs"] = {0x87}
                c.expect[-1]["told"] = W.pgetall(props, "UserProperty")
                self.feat("PUBACK refuses")
        else:
            rcs = {0, 0x10}
            if p["id"] in s.inq2:
                self.feat("q2-dup")
            elif self.on_pubrel:
                s.inq2.add(p["id"])
                self.held[(s.cid, p["id"])] = (topic, p["payload"], p["retain"], fwd, self.now)
            else:
                s.inq2.add(p["id"])
                n = self.route(s, topic, p["payload"], 2, p["retain"], fwd, c.v == 5)
                rcs = {0} if n else {0, 0x10}
            if topic == "test_qos_1_2_errors" and c.v == 5:
                rcs = {0x87}
                s.inq2.discard(p["id"])
                c.expect.append({"t": W.PUBREC, "id": p["id"], "rcs": rcs, "told": W.pgetall(props, "UserProperty")})
                self.feat("PUBREC refuses")
                return
            if topic == "test_qos_1_2_errors_pubcomp" and c.v == 5:
                s.compfail.add(p["id"])
                self.count("failing PUBCOMPs at once", len(s.compfail) > 1)
            c.expect.append({"t": W.PUBREC, "id": p["id"], "rcs": rcs})

    def s_pubrel(self, c, s, p):
        known = p["id"] in s.inq2
        s.inq2.discard(p["id"])
        if known and self.on_pubrel:
            topic, payload, retain, fwd, at = self.held.pop((s.cid, p["id"]))
            self.route(s, topic, payload, 2, retain, fwd, c.v == 5, at=at)
        self.feat("pubrel" if known else "pubrel-unknown")
        if known and p["id"] in s.compfail and c.v == 5:
            s.compfail.discard(p["id"])
            c.expect.append({"t": W.PUBCOMP, "id": p["id"], "rcs": {0x92}, "told": W.pgetall(p.get("props"), "UserProperty")})
            self.feat("PUBCOMP refuses")
            return
        c.expect.append({"t": W.PUBCOMP, "id": p["id"], "rcs": {0} if known else {0x92} if c.v == 5 else {0}})

    def s_puback(self, c, s, p):
        if p["id"] in c.unacked:
            c.unacked.remove(p["id"])
        for f in s.inflight:
            if f.id == p["id"]:
                if f.e.qos == 1:
                    s.inflight.remove(f)
                    self.count("completed")
                return
        self.feat("ack-unknown")

    def s_pubrec(self, c, s, p):
        bad = c.v == 5 and p.get("rc", 0) >= 0x80
        for f in s.inflight:
            if f.id == p["id"] and f.e.qos == 2:
                if f.state == "sent":
                    if bad:
                        s.inflight.remove(f)
                        if f.id in c.unacked:
                            c.unacked.remove(f.id)
                        self.feat("pubrec-error")
                    else:
                        f.state = "rec"
                        f.need = None
                        c.pubrels.append(f.id)
                else:
                    c.maybe.append({"t": W.PUBREL, "id": p["id"]})
                return
        self.feat("ack-unknown")
        c.maybe.append({"t": W.PUBREL, "id": p["id"]})

    def s_pubcomp(self, c, s, p):
        for f in s.inflight:
            if f.id == p["id"] and f.e.qos == 2:
                if f.state == "rec":
                    s.inflight.remove(f)
                    self.count("completed")
                    if p["id"] in c.unacked:
                        c.unacked.remove(p["id"])
                return
        self.feat("ack-unknown")

    def s_auth(self, c, s, p):
        pass

    # ------------------------------------------------------------------ route
    def route(self, pub, topic, payload, qos, retain, props, v5, at=None):
        """what a publication owes to whom; returns the number of receivers."""
        at = self.now if at is None else at
        exp = W.pget(props, "MessageExpiryInterval") if v5 else None
        fwd = [(i, x) for i, x in props if W.PROPS[i][0] in FWD] if v5 else []
        if retain:
            if payload == b"":
                self.retained.pop(topic, None)
                self.feat("retain-clear")
            else:
                self.retained[topic] = {"payload": payload, "qos": qos, "props": fwd, "expiry": exp, "at": at, "v5": v5}
                self.feat("retain-set")
        if not self.in_advance:
            self.batch += 1
        n = 0
        groups = {}
        for s in list(self.sess.values()):
            mine = [x for x in s.subs.values() if x.share is None and matches(x.eff, topic)]
            share = [x for x in s.subs.values() if x.share is not None and matches(x.eff, topic)]
            for x in share:
                groups.setdefault((x.share, x.eff), []).append((s, x))
            if mine:
                n += 1
            keep = [x for x in mine if not (x.nl and pub is not None and s.cid == pub.cid)]
            if len(mine) != len(keep):
                self.feat("nolocal")
            if not keep:
                continue
            for subs in ([keep] if self.single or len(keep) == 1 else [[x] for x in keep]):
                if len(subs) > 1:
                    self.feat("overlap")
                q = min(qos, max(x.qos for x in subs))
                if s.v == 5:
                    rt = {bool(retain) if x.rap else False for x in subs}
                    ids = frozenset(x.subid for x in subs if x.subid)
                    pr = fwd
                    if not v5 and (True in rt or ids):
                        self.feat("options for 3.1.1 publication")
                else:
                    rt, ids, pr = {False}, frozenset(), []
                if True in rt:
                    self.feat("rap")
                if qos > q:
                    self.feat("downgrade")
                self.owe(s, Entry(topic=topic, payload=payload, qos=q, retain=rt, at=at, props=pr,
                                  expiry=exp, batch=self.batch, subids=ids))
                if s.conn is None:
                    self.feat("offline%d" % q)
        for key, members in groups.items():
            n += 1
            if not v5:
                self.feat("shared 3.1.1 publication")
            g = Group(key, qos, "%s to %s" % (payload[:20], key))
            g.subs = [x for _, x in members]
            self.groups.append(g)
            self.allgroups = self.allgroups[-300:] + [g]
            for s, x in members:
                # a member that may lose it for reasons of its own excuses the group
                e = Entry(topic=topic, payload=payload, qos=min(qos, x.qos), at=at, props=fwd, expiry=exp,
                          retain={bool(retain) if x.rap else False}, batch=self.batch, group=g,
                          subids=frozenset([x.subid] if x.subid else []), label="shared")
                g.live.add(s.cid)
                self.owe(s, e)
                if e.optional:
                    g.excused = True
                e.optional = True
        # of several deliveries of one publication to one session the order is open, and so is which find a full window
        for s in self.sess.values():
            q0 = [e for e in s.queue if e.qos == 0 and e.batch == self.batch and e.label != "retained"]
            if q0 and s.conn is not None and len(s.inflight) + sum(1 for x in s.queue if x.qos) >= s.recvmax:
                for e in q0:
                    e.optional = True
                    if e.group:
                        e.group.excused = True
        return n

    def owe(self, s, e):
        if e.qos == 0:
            if s.conn is None:
                e.optional = True
            elif len(s.inflight) + sum(1 for x in s.queue if x.qos and not x.group) >= s.recvmax:
                e.optional = True
                self.feat("window-full-q0")
        elif s.conn is not None and len(s.inflight) >= s.recvmax:
            self.feat("window-full")
        if self.big(s, e):
            self.feat("too-big")
            if s.conn is not None and e.group:
                e.group.excused = True
        s.queue.append(e)

    def big(self, s, e):
        """may the message be too big for what the client of the session now accepts?"""
        return s.v == 5 and s.maxpkt < 268435455 and len(W.encode(self.as_packet(e), 5)) + 4 > s.maxpkt

    def free(self, s, e):
        """may this message be left out?"""
        return e.optional or self.past(e) or self.big(s, e)

    def as_packet(self, e):
        props = list(e.props)
        for i in e.subids or ():
            props.append((11, i))
        if e.expiry is not None:
            props.append((2, e.expiry))
        return {"t": W.PUBLISH, "qos": e.qos, "id": 1, "topic": e.topic, "payload": e.payload, "props": props,
                "retain": False, "dup": False}

    def past(self, e, slack=0.0):
        return e.expiry is not None and self.now - e.at >= e.expiry

    # ------------------------------------------------------------ client receives
    def arrived(self, name, p):
        c = self.conns.get(name)
        t = p["t"]
        if c is None:
            self.fail("%s received %s before it sent CONNECT" % (name, W.show(p)))
        if t == W.CONNACK:
            if c.connacked:
                self.fail("%s received a second CONNACK" % name)
            c.connacked = True
            self.connack(c, p)
            return
        if t == W.DISCONNECT:
            if c.v != 5:
                self.fail("DISCONNECT sent to a 3.1.1 client")
            if c.state == "open":
                self.fail("%s was told %s although nothing gave cause to" % (name, W.show(p)))
            if c.close_why == "DISCONNECT":
                self.fail("DISCONNECT in answer to DISCONNECT")
            if c.close_rcs is not None and p["rc"] not in c.close_rcs:
                self.fail("%s: closed for %s with reason 0x%02x, expected one of %s" %
                          (name, c.close_why, p["rc"], sorted(hex(x) for x in c.close_rcs)))
            if c.close_why == "asked for":
                want = {"ReasonString": ["This is a custom Reason String"], "ServerReference": ["tcp://localhost:1883"], "UserProperty": [("key", "value")]}
                if W.pdict(p["props"]) != (want if c.maxpkt > 300 else {}) and not (c.maxpkt <= 300 and W.pdict(p["props"]) == want):
                    self.fail("%s: %s, expected the properties %s" % (name, W.show(p), want))
                self.count("disconnections asked for")
            c.told = True
            self.feat("server-disconnect-%02x" % p["rc"])
            return
        if not c.connacked:
            self.fail("%s received %s before CONNACK" % (name, W.show(p)))
        s = c.sess
        if s is not None and c.v == 5 and p["size"] > s.maxpkt and s.conn in (c, None):
            self.fail("%s received a packet of %d bytes, its maximum packet size is %d: %s" %
                      (name, p["size"], s.maxpkt, W.show(p)))
        if t == W.PUBLISH:
            self.delivery(c, s, p)
        elif t == W.PUBREL:
            if p["id"] in c.pubrels:
                if c.pubrels[0] == p["id"] or True:
                    c.pubrels.remove(p["id"])
                    for f in s.inflight:
                        if f.id == p["id"] and f.need == "rel":
                            f.need = None
            else:
                self.take_maybe(c, p)
        else:
            for i, x in enumerate(c.expect):
                if x["t"] == t:
                    if "id" in x and x["id"] != p["id"]:
                        self.fail("%s: %s answers another request; the next owed is for id %s" % (name, W.show(p), x["id"]))
                    if "codes" in x and c.v == 5 or t == W.SUBACK:
                        if len(p["rcs"]) != len(x["codes"]) or any(a not in b for a, b in zip(p["rcs"], x["codes"])):
                            self.fail("%s: reason codes %s, expected %s" % (name, p["rcs"], x["codes"]))
                    if "rcs" in x and c.v == 5 and p["rc"] not in x["rcs"]:
                        self.fail("%s: %s, expected reason code in %s" % (name, W.show(p), sorted(x["rcs"])))
                    if "told" in x and s.maxpkt > 300 and W.pgetall(p["props"], "UserProperty") != x["told"]:
                        self.fail("%s: %s, expected the user properties %s" % (name, W.show(p), x["told"]))
                    if t in (W.SUBACK, W.UNSUBACK) and c.v == 5 and x.get("up") and W.pgetall(p["props"], "UserProperty") \
                            not in ([], x["up"]):
                        self.fail("%s: user properties of the answer differ" % name)
                    del c.expect[i]
                    return
            if c.state != "open":
                return
            self.fail("%s received %s which answers nothing it sent" % (name, W.show(p)))

    def take_maybe(self, c, p):
        for i, x in enumerate(c.maybe):
            if x["t"] == p["t"] and x["id"] == p["id"]:
                del c.maybe[i]
                return
        if c.state != "open":
            return
        self.fail("%s received %s which answers nothing it sent" % (c.name, W.show(p)))

    def connack(self, c, p):
        if c.refused is not None:
            if c.refused is not True and p["rc"] not in c.refused:
                self.fail("CONNACK 0x%02x, expected refusal %s" % (p["rc"], sorted(c.refused)))
            if p["rc"] == 0:
                self.fail("%s was accepted although its CONNECT must be refused" % c.name)
            if p["sp"]:
                self.fail("session present in a refusing CONNACK")
            return
        if p["rc"] != 0:
            self.fail("%s: CONNACK 0x%02x for a valid CONNECT" % (c.name, p["rc"]))
        if bool(p["sp"]) != c.sp:
            self.fail("%s: session present is %s, expected %s" % (c.name, p["sp"], c.sp))
        if c.v == 5:
            d = {k: x[0] for k, x in W.pdict(p["props"]).items()}
            for k, want, absent in (("ReceiveMaximum", self.cfg_recv, 65535), ("TopicAliasMaximum", self.cfg_alias, 0),
                                    ("MaximumPacketSize", self.cfg_max, None)):
                if d.get(k, absent) != want:
                    self.fail("CONNACK announces %s %r, configured is %r" % (k, d.get(k), want))
            if d.get("ServerKeepAlive") is not None and d["ServerKeepAlive"] != c.keepalive:
                self.fail("CONNACK ServerKeepAlive %r, expected %r" % (d["ServerKeepAlive"], c.keepalive))
            if getattr(c, "ska", False) and d.get("ServerKeepAlive") is None:
                self.fail("CONNACK lacks ServerKeepAlive %r" % c.keepalive)
            if getattr(c, "auto", False):
                a = d.get("AssignedClientIdentifier")
                if not a:
                    self.fail("no AssignedClientIdentifier for an empty client id")
                if a in self.sess:
                    self.fail("assigned client id is in use")
                self.uuid_ok.add(a)
                s = c.sess
                if self.sess.get(s.cid) is s:
                    del self.sess[s.cid]
                    s.cid = a
                    self.sess[a] = s
            elif "AssignedClientIdentifier" in d:
                self.fail("AssignedClientIdentifier for a client with an id of its own")

    def delivery(self, c, s, p):
        self.count("deliveries")
        if c.state != "open":
            # sent while the connection was being closed: if it comes again it is no surprise
            if s is not None:
                for e in s.queue:
                    if e.payload == p["payload"] and e.topic == p["topic"]:
                        e.dup_ok = True
            return
        if p.get("badalias"):
            self.fail("%s received a publication whose topic alias means nothing: %s" % (c.name, W.show(p)))
        al = W.pget(p["props"], "TopicAlias") if c.v == 5 else None
        if al is not None:
            if al < 1 or al > s.aliasmax:
                self.fail("%s received topic alias %d, its maximum is %d" % (c.name, al, s.aliasmax))
            self.feat("out-alias-used" if p["rawtopic"] == "" else "out-alias-set")
        if p["qos"]:
            for f in s.inflight:
                if f.id == p["id"]:
                    self.resent(c, s, f, p)
                    return
        elif p["dup"]:
            self.fail("DUP on QoS 0: %s" % W.show(p))
        # a new message
        for f in s.inflight:
            if f.need == "pub" and not self.resend_optional(s, f):
                self.fail("%s received %s before the unacknowledged message %d was sent again" % (c.name, W.show(p), f.id))
        self.drop_unsent(s)
        cand = [e for e in s.queue if e.payload == p["payload"] and e.topic == p["topic"] and
                not (e.group and e.group.claimed is not None)]
        best, why = None, None
        for e in cand:
            why1 = self.differs(e, p, c.v)
            if why1 is None:
                best = e
                break
            why = why or why1
        if best is None:
            for e in s.queue:
                if e.group and e.payload == p["payload"] and e.topic == p["topic"] and e.group.claimed is not None \
                        and self.differs(e, p, c.v) is None and self.reassign(e.group, set()):
                    best = e
                    break
        if best is None:
            taken = [e for e in s.queue if e.payload == p["payload"] and e.topic == p["topic"]]
            if why:
                self.fail("%s received %s: %s" % (c.name, W.show(p), why))
            if taken:
                self.fail("%s received %s, but another member of the group already has it" % (c.name, W.show(p)))
            self.fail("%s (%s) received %s which it is not owed (not subscribed, a duplicate, dropped or expired)" %
                      (c.name, sorted(s.subs), W.show(p)))
        # order: everything owed before it must have come
        i = s.queue.index(best)
        for e in s.queue[:i]:
            if e.batch == best.batch:
                continue
            if not self.free(s, e):
                self.fail("%s received %s, but %r was published before and has not come" % (c.name, W.show(p), e))
        for e in s.queue[:i]:
            if e.batch != best.batch:
                self.dropped(s, e)
        s.queue.remove(best)
        if best.group:
            g = best.group
            g.claimed = s.cid
            g.alts = [e.group for e in s.queue if e.group and e.payload == p["payload"] and e.topic == p["topic"]
                      and self.differs(e, p, c.v) is None]
            self.count("shared deliveries")
        if p["dup"] and not best.dup_ok:
            self.fail("%s received %s: DUP set on the first delivery" % (c.name, W.show(p)))
        self.delivered += 1
        if p["qos"]:
            if len(c.unacked) >= s.recvmax:
                self.fail("%s received a %dth unacknowledged message, its receive maximum is %d" %
                          (c.name, len(c.unacked) + 1, s.recvmax))
            c.unacked.append(p["id"])
            s.inflight.append(InFlight(p["id"], best))

    def reassign(self, g, seen):
        """the delivery counted for g was meant for another group?"""
        seen.add(id(g))
        for h in g.alts:
            if id(h) in seen:
                continue
            if h.claimed is None or self.reassign(h, seen):
                h.claimed, h.alts = g.claimed, [g] + [x for x in g.alts if x is not h]
                g.claimed, g.alts = None, []
                return True
        return False

    def rescue(self, g, seen):
        """find g a delivery that was counted for a group which can do without."""
        seen.add(id(g))
        for h in self.allgroups:
            if h.claimed is None or id(h) in seen or not any(x is g for x in h.alts):
                continue
            others = h.live - {h.claimed}       # members which may still get it
            if h.excused or others or self.rescue(h, seen):
                g.claimed, g.alts = h.claimed, [h] + [x for x in h.alts if x is not g]
                h.claimed, h.alts = None, []
                h.live = others
                self.owing.append(h)
                return True
        return False

    def dropped(self, s, e):
        s.queue.remove(e)
        g = e.group
        if g:
            g.live.discard(s.cid)
            if self.past(e) or self.big(s, e):
                g.excused = True

    def resent(self, c, s, f, p):
        e = f.e
        if f.need != "pub":
            if f.state == "rec":
                self.fail("%s: PUBLISH %d sent again after its PUBREC: %s" % (c.name, f.id, W.show(p)))
            if p["payload"] == e.payload and p["topic"] == e.topic:
                self.fail("%s: a second copy of message %d on one connection: %s" % (c.name, f.id, W.show(p)))
            self.fail("%s: packet id %d is still in use for %r: %s" % (c.name, f.id, e, W.show(p)))
        if p["payload"] != e.payload or p["topic"] != e.topic:
            # an expired or oversized message may have been given up, and its id used again
            if self.resend_optional(s, f):
                s.inflight.remove(f)
                self.delivery(c, s, p)
                return
            self.fail("%s: packet id %d resent with other content: %s, was %r" % (c.name, f.id, W.show(p), e))
        why = self.differs(e, p, c.v, again=True)
        if why:
            self.fail("%s: resent message differs: %s: %s" % (c.name, W.show(p), why))
        if not p["dup"]:
            self.fail("%s: %s sent again without DUP" % (c.name, W.show(p)))
        for g in s.inflight:
            if g is f:
                break
            if g.need == "pub" and not self.resend_optional(s, g):
                self.fail("%s: message %d sent again before %d, which is older" % (c.name, f.id, g.id))
        if len(c.unacked) >= s.recvmax:
            self.fail("%s: resending exceeds the receive maximum %d" % (c.name, s.recvmax))
        self.drop_unsent(s, upto=f)
        f.need = None
        c.unacked.append(f.id)
        self.count("resent")
        self.feat("resent%d" % e.qos)

    def resend_optional(self, s, f):
        e = f.e
        return e.optional and not e.group or self.past(e) or self.big(s, e)

    def drop_unsent(self, s, upto=None):
        for g in list(s.inflight):
            if g is upto:
                break
            if g.need == "pub" and self.resend_optional(s, g):
                s.inflight.remove(g)

    def differs(self, e, p, v, again=False):
        if p["qos"] != e.qos:
            return "QoS %d, expected %d" % (p["qos"], e.qos)
        if bool(p["retain"]) not in e.retain:
            return "RETAIN %s, expected %s" % (p["retain"], sorted(e.retain))
        if v != 5:
            if not again and e.expiry is not None and self.now - e.at > e.expiry:
                return "message expired %.1f s ago" % (self.now - e.at - e.expiry)
            return None
        props = p.get("props") or []
        for k in FWD:
            a, b = W.pgetall(props, k), W.pgetall(e.props, k)
            if a != b:
                return "%s is %r, published was %r" % (k, a, b)
        ids = W.pgetall(props, "SubscriptionIdentifier")
        if e.subids is not None:
            if frozenset(ids) != e.subids:
                return "subscription identifiers %r, expected %r" % (ids, sorted(e.subids))
        x = W.pget(props, "MessageExpiryInterval")
        if e.expiry is None:
            if x is not None:
                return "message expiry %r, published without" % x
        elif x is None:
            return "no message expiry, published was %d" % e.expiry
        else:
            waited = self.now - e.at
            if waited > e.expiry:
                return "message expired %.1f s ago" % (waited - e.expiry)
            if abs(e.expiry - waited - x) > 1.0:
                return "message expiry %d, expected about %.1f" % (x, e.expiry - waited)
        for i, v in props:
            n = W.PROPS[i][0]
            if n not in FWD and n not in ("SubscriptionIdentifier", "MessageExpiryInterval", "TopicAlias"):
                return "property %s in a publication" % n
        return None

    # ------------------------------------------------------------------ time
    def advanced(self):
        """virtual time has moved on and the broker's idle loops have run."""
        self.in_advance = True
        self.batch += 1
        try:
            for c in list(self.conns.values()):
                if c.state == "open" and c.keepalive and c.connacked and self.now - c.last > 1.5 * c.keepalive:
                    self.count("keepalive closes")
                    self.must_close(c, {0x8D}, "keep alive timeout")
            for s in list(self.sess.values()):
                if s.pending_will and self.now >= s.pending_will[0]:
                    w = s.pending_will[1]
                    s.pending_will = None
                    self.publish_will(s, w)
            for s in list(self.sess.values()):
                if self.expired(s):
                    self.kill_session(s)
                    self.feat("session-expired")
        finally:
            self.in_advance = False

    def hazards(self, t, margin=2.2):
        """is time t too close to a timer for its outcome to be settled?"""
        for s in self.sess.values():
            if s.pending_will and -margin < s.pending_will[0] - t < .3:
                return True
            if s.conn is None and s.expiry < INF and s.ended is not None and -margin < s.ended + s.expiry - t < .3:
                return True
            for e in s.queue + [f.e for f in s.inflight]:
                if e.expiry is not None and abs(e.at + e.expiry - t) < .3:
                    return True
        for m in self.retained.values():
            if m["expiry"] is not None and abs(m["at"] + m["expiry"] - t) < .3:
                return True
        for c in self.conns.values():
            if c.state == "open" and c.keepalive and abs(c.last + 1.5 * c.keepalive - t) < .3:
                return True
        return False

    # ------------------------------------------------------------------ quiescence
    def quiescent(self):
        """nothing is under way: what is owed must have come."""
        self.count("quiescent checks")
        for c in self.conns.values():
            if c.state == "closing":
                self.fail("%s: the broker should have closed the connection (%s)" % (c.name, c.close_why))
            if c.state != "open":
                continue
            s = c.sess
            if not c.connacked:
                self.fail("%s: no CONNACK" % c.name)
            if c.expect:
                self.fail("%s: still waits for %s" % (c.name, [W.NAMES[x["t"]] for x in c.expect]))
            if c.pubrels:
                self.fail("%s: no PUBREL for %s" % (c.name, c.pubrels))
            used = sum(1 for f in s.inflight if f.need != "pub")
            for f in list(s.inflight):
                if f.need == "pub" and used < s.recvmax:
                    if self.resend_optional(s, f):
                        s.inflight.remove(f)     # given up
                        continue
                    else:
                        self.fail("%s: unacknowledged message %d (%r) was not sent again" % (c.name, f.id, f.e))
                if f.need == "pub":
                    used += 1
            if len(s.inflight) < s.recvmax:
                for e in s.queue:
                    if not self.free(s, e):
                        self.fail("%s: %r has not come, although only %d of %d are unacknowledged" %
                                  (c.name, e, len(s.inflight), s.recvmax))
                # what is optional and has not come by now is gone
                for e in list(s.queue):
                    self.dropped(s, e)
        for g in self.groups:
            if g.claimed is None and not g.excused and not g.live and g.qos and not self.rescue(g, set()):
                self.fail("shared publication %s reached no member of the group" % g.what)
        self.groups = [g for g in self.groups + self.owing if g.claimed is None and not g.excused and g.live]
        self.owing = []

    def all_done(self):
        """at the end of a scenario, with every session connected and everything acknowledged."""
        for g in self.groups:
            if g.claimed is None and not g.excused and g.qos and not self.rescue(g, set()):
                self.fail("shared publication %s reached no member of the group" % g.what)
