"""C36: what is persisted is there again after a restart"""
import os, signal, socket
from mon import wire as W
from mon.process import Space, Tap, port
from mon.sim import Client, HarnessError
from mon.clock import real_sleep, real_monotonic

ID = "C36"
RULE = ("one evaluation = one life of a real broker process over a data directory: the retained messages and sessions found by clients after the start, compared with those "
        "of the life before it; distinct = (how the life before ended, retained, sessions, version of the reader)")
ASSUMPTIONS = ("ZODB is not installed here: a stand-in (mon/zodb) stores persistent objects with pickle and, like ZODB, notices no change inside of ordinary ones; data is "
               "committed at an orderly shutdown, so a kill brings back what the last one left, and a kill during a shutdown either; session expiry intervals are not persisted")
PLAN = {"quick": 85, "thorough": 1500}
REACH = {"distinct": 40, "lives": 100, "retained found": 180, "retained with properties": 15, "retained deleted": 20, "sessions resumed": 60, "sessions cleaned": 20,
         "without persistence": 15, "killed": 15, "killed during shutdown": 6, "deliveries to restored subscriptions": 60, "expired": 1, "retained wills": 10}
ZODB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mon", "zodb")
TOPICS = ["a", "a/b", "a/b/c", "/a", "b//c", "ünï/✓", "$a/b", "$SYS/x", "x" * 60]
FILTERS = ["a", "a/b", "a/+", "a/#", "+/b", "#", "b//c", "/a", "ünï/+", "$a/b", "$a/#"]


def matches(f, t):
    f, t = f.split("/"), t.split("/")
    if t[0].startswith("$") and f[0][:1] in "+#":
        return False
    for i, x in enumerate(f):
        if x == "#":
            return True
        if i >= len(t) or x not in ("+", t[i]):
            return False
    return len(f) == len(t)


class State:
    def __init__(self):
        self.retained = {}   # topic: (payload, qos, props, time, expiry)
        self.sessions = {}   # (name, version): {filter: (qos, subid, rap, shared)}

    def copy(self):
        s = State()
        s.retained = dict(self.retained)
        s.sessions = {k: dict(v) for k, v in self.sessions.items()}
        return s


class World:
    def __init__(self, r, ctx, persistent):
        self.r, self.ctx, self.persistent = r, ctx, persistent
        self.port = port()
        self.tap = Tap(("127.0.0.1", self.port))
        ctx.sim = self.tap
        self.now = State()       # in the running broker
        self.stored = State()    # what the last orderly shutdown left
        self.n = 0

    def config(self):
        r = self.r
        lines = ["# %d" % self.n, "maximum_packet_size 5000"]
        if self.persistent:
            lines.append("persistence true")
        elif r.random() < .5:
            lines.append("persistence false")
        lines.append("listener %d 127.0.0.1" % self.port)
        return lines

    def client(self, name, v, clean=True, expiry=None, **kw):
        c = Client(self.tap, name, v)
        c.connect(clean=clean, keepalive=0, props=[(17, expiry)] if expiry else [], **kw)
        self.ctx.expect(c.connack and c.connack["rc"] == 0, lambda: "%s can't connect" % name)
        return c

    # ------------------------------------------------------------- what is there
    def retained(self, candidates):
        """compare the retained messages with those of the candidates (states); returns the fitting ones."""
        ctx, r = self.ctx, self.r
        v = r.choice([4, 5])
        c = self.client("reader", v)
        q = r.randrange(3)
        for f in ["#", "$a/#", "$SYS/#"]:
            c.subscribe([(f, {"qos": q} if v == 5 else q)])
        ctx.expect(c.ping(), "no answer from the broker after a restart")
        found = {}
        for p in c.publishes():
            ctx.expect(p["topic"] not in found, lambda: "the retained message of %r is there twice" % p["topic"])
            ctx.expect(p["retain"], lambda: "%s is not marked retained" % W.show(p))
            found[p["topic"]] = p
        t = real_monotonic()
        c.disconnect()
        ok, why = [], "?"
        for s in candidates:
            bad = None
            for topic in set(found) | set(s.retained):
                if topic not in s.retained:
                    bad = "a retained message which should not exist: %s" % W.show(found[topic])
                    break
                payload, qos, props, since, expiry = s.retained[topic]
                age = t - since
                if topic not in found:
                    if expiry and age > expiry - .5:
                        ctx.count("expired")
                        continue
                    bad = "the retained message of %r is lost" % topic
                    break
                p = found[topic]
                if expiry and age > expiry + 2.5:
                    bad = "%s should have expired %.1f s ago" % (W.show(p), age - expiry)
                elif p["payload"] != payload:
                    bad = "the retained message of %r is %r, not %r" % (topic, p["payload"], payload)
                elif p["qos"] != min(qos, q):
                    bad = "the retained message of %r has QoS %d, not %d" % (topic, p["qos"], min(qos, q))
                elif v == 5:
                    got = [x for x in p["props"] if x[0] not in (2, 35)]
                    if sorted(map(repr, got)) != sorted(map(repr, props)):
                        bad = "the retained message of %r has properties %r, not %r" % (topic, got, props)
                    left = W.pget(p["props"], "MessageExpiryInterval")
                    if (left is None) != (not expiry) or (expiry and not expiry - age - 2 <= left <= expiry):
                        bad = "the retained message of %r expires in %r, it was %r %.1f s ago" % (topic, left, expiry, age)
                if bad:
                    break
            if bad:
                why = bad
            else:
                ok.append(s)
        ctx.expect(ok, lambda: "after a restart (%s): %s" % (self.how, why))
        ctx.count("retained found", len(found))
        if v == 5:
            ctx.count("retained with properties", sum(1 for p in found.values() if p["props"]))
        return ok, (v, len(found))

    def sessions(self, candidates):
        ctx, r = self.ctx, self.r
        names = sorted(set(n for s in candidates for n in s.sessions))
        opened = self.tried = {}
        for k in names:
            if r.random() < .3:
                continue
            clean = r.random() < .25
            c = self.client(k[0], k[1], clean, 5000 if k[1] == 5 else None)
            want = [s for s in candidates if c.connack["sp"] == bool(not clean and s.sessions.get(k))]
            ctx.expect(want, lambda: "after a restart (%s): session present is %s for %s, whose subscriptions before were %s" % (
                self.how, c.connack["sp"], k[0], [sorted(s.sessions.get(k, {})) for s in candidates]))
            candidates = want
            if clean:
                ctx.count("sessions cleaned")
            elif c.connack["sp"]:
                ctx.count("sessions resumed")
            opened[k] = (c, clean)
        # what do they get of live messages
        if opened:
            p = self.client("live", 5)      # (messages from 3.1.1 carry no subscription identifiers)
            sent = []
            for t in r.sample(TOPICS[:-2], 4):
                q = r.randrange(3)
                b = b"live %d" % len(sent)
                p.publish(t, b, q)
                sent.append((t, b, q))
            p.ping()
            p.disconnect()
            for k, (c, clean) in opened.items():
                ctx.expect(c.ping(), lambda: "%s gets no answer after a restart" % k[0])
                real_sleep(.01)
                c.ping()
                got = [(x["topic"], bytes(x["payload"]), x["qos"], x["retain"], sorted(b for a, b in x["props"] if a == 11) if k[1] == 5 else []) for x in c.publishes()]
                fits, why = [], None
                for s in candidates:
                    want = []
                    for t, b, q in sent:
                        subs = [] if clean else [(f, o) for f, o in s.sessions.get(k, {}).items() if matches(f.split("/", 2)[2] if o[3] else f, t)]
                        plain = [o for f, o in subs if not o[3]]
                        if plain:
                            want.append((t, b, min(q, max(o[0] for o in plain)), False, sorted(o[1] for o in plain if o[1])))
                        want += [(t, b, min(q, o[0]), False, [o[1]] if o[1] else []) for f, o in subs if o[3]]
                    if sorted(want) == sorted(got):
                        fits.append(s)
                        ctx.count("deliveries to restored subscriptions", len(want))
                    else:
                        why = "%s has subscriptions %s and gets %s for %s, not %s" % (k[0], {} if clean else s.sessions.get(k, {}), got, sent, want)
                ctx.expect(fits, lambda: "after a restart (%s): %s" % (self.how, why))
                candidates = fits
        for k, (c, clean) in opened.items():
            if clean:
                for s in candidates:
                    s.sessions[k] = {}
            c.disconnect() if r.random() < .7 else c.drop()
        return candidates, len(opened)

    # ------------------------------------------------------------- what happens
    def live(self):
        r, ctx, s = self.r, self.ctx, self.now
        conns = {}
        for n in range(r.randrange(1, 14)):
            v = r.choice([4, 5])
            if r.random() < .6:
                t = r.choice(TOPICS)
                if r.random() < .15 and t[0] != "$":
                    c = self.client("willer", v, will={"qos": 1, "retain": True, "topic": t, "payload": b"will", "props": []})
                    c.drop()
                    s.retained[t] = (b"will", 1, [], real_monotonic(), None)
                    ctx.count("retained wills")
                    continue
                k = ("pub%d" % v, v)
                if k not in conns:
                    conns[k] = self.client(*k)
                b = b"" if r.random() < .2 else b"%d-%d" % (self.n, n) if r.random() < .8 else bytes(r.randrange(256) for _ in range(r.choice([1, 50, 1000])))
                q = r.randrange(3)
                props, expiry = [], None
                if v == 5 and r.random() < .6:
                    props = [x for x in [(1, 1) if b.isascii() else None, (3, "type"), (8, "answers/here"), (9, b"\x00\xff"), (38, ("k", "v")), (38, ("k", "w"))] if x and r.random() < .5]
                    expiry = r.choice([None, None, 1, 3, 100, 5000])
                conns[k].publish(t, b, q, retain=True, props=props + ([(2, expiry)] if expiry else []))
                conns[k].ping()
                if b:
                    s.retained[t] = (b, q, props, real_monotonic(), expiry)
                elif s.retained.pop(t, None):
                    ctx.count("retained deleted")
            else:
                k = (r.choice(["s", "t"]) + str(v), v)
                if k not in conns:
                    conns[k] = c = self.client(k[0], v, False, 5000 if v == 5 else None)
                    ctx.expect(c.connack["sp"] == bool(self.known(k)), lambda: "session present is %s for %s" % (c.connack["sp"], k[0]))
                    s.sessions.setdefault(k, {})
                c, subs = conns[k], s.sessions[k]
                if subs and r.random() < .25:
                    f = r.choice(sorted(subs))
                    c.unsubscribe([f])
                    del subs[f]
                    continue
                f, q = r.choice(FILTERS), r.randrange(3)
                i = r.choice([0, 0, 1, 77, 100000]) if v == 5 else 0
                shared = v == 5 and f[0] != "$" and r.random() < .2
                if shared:
                    f = "$share/only%s/%s" % (k[0], f)
                c.subscribe([(f, {"qos": q} if v == 5 else q)], props=[(11, i)] if i else [])
                subs[f] = (q, i, False, shared)
        for c in conns.values():
            x = r.random()
            if x < .4:
                c.disconnect()
            elif x < .6:
                c.drop()
        self.conns = conns
        self.seen = self.seen | set(k for k in conns if k in s.sessions)

    def known(self, k):
        """is there a session in this life, or are there stored subscriptions?"""
        return k in self.seen or self.now.sessions.get(k)

    def run(self, space):
        r, ctx = self.r, self.ctx
        self.how = "first start"
        candidates = [State()]
        for turn in range(r.choice([2, 3, 3, 4])):
            self.n = turn
            if turn and r.random() < .1:      # killed while it starts
                b = space.run(self.config(), env={"PYTHONPATH": ZODB})
                real_sleep(r.random() * .6)
                b.kill()
            b = space.run(self.config(), env={"PYTHONPATH": ZODB})
            ctx.expect(b.ready([self.port]), lambda: "the broker does not start (%s): %s" % (self.how, b.text()[-600:]))
            ctx.count("lives")
            for c in candidates:
                c.disk = c.copy()
            candidates, found = self.retained(candidates)
            candidates, sessions = self.sessions(candidates)
            ctx.case((self.how, found, sessions, self.persistent), "%s: retained found %s, sessions tried %d" % (self.how, found, sessions))
            if len(candidates) > 1:           # they fit as well as each other; find out for certain
                same = all((c.retained, c.sessions) == (candidates[0].retained, candidates[0].sessions) for c in candidates)
                if not same:
                    break
            self.now, self.stored = candidates[0].copy(), candidates[0].disk
            self.seen = set(k for k, (c, clean) in self.tried.items() if k[1] == 5 or not clean)       # sessions which exist in this life, with subscriptions or not
            self.live()
            x = r.random()
            if x < .65:
                sig = r.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT])
                self.tap.log("-", "signal", sig.name)
                b.signal(sig)
                rc = b.wait(30)
                ctx.expect(rc == 0, lambda: "the broker ends with status %s after %s: %s" % (rc, sig.name, b.text()[-600:]))
                self.how = "orderly shutdown"
                self.stored = self.now.copy()
                candidates = [self.now.copy()]
            elif x < .8:
                self.tap.log("-", "kill")
                b.kill()
                self.how = "kill"
                ctx.count("killed")
                candidates = [self.stored.copy()]
            else:
                b.signal()
                real_sleep(r.random())
                b.kill()
                self.tap.log("-", "signal, kill")
                self.how = "kill during shutdown"
                ctx.count("killed during shutdown")
                candidates = [self.now.copy(), self.stored.copy()]
            for c in self.conns.values():
                c.kill()
            if not self.persistent:
                candidates = [State()]
                self.stored = State()
                self.how += " without persistence"
                ctx.count("without persistence")
                ctx.expect(not any(f.startswith("sharedData") for f in os.listdir(space.dir)), "data is stored without persistence")


def scenario(r, ctx, idx):
    with Space() as space:
        World(r, ctx, idx % 6 != 5).run(space)
