"""Random workloads on a Sim, watched by the trace specification in model.py."""
from . import wire as W
from .sim import Sim, HarnessError
from .model import Model, matches
from .clock import CLOCK

TOPICS = ["a", "a/b", "a/b/c", "b", "/a", "a/", "b/c"]
FILTERS = ["a", "a/b", "a/#", "a/+", "#", "+", "+/b", "a/+/c", "/a", "/+", "b", "b/#", "+/+", "a/", "b/c"]

DEFAULT = dict(
    clients=(3, 5), v5=.6, steps=(25, 45), persistent=.6, manual=.3,
    topics=TOPICS, filters=FILTERS, qos=(1, 1, 1), retain=.15, clear=.2,
    props=.3, expiry=0, raise_expiry=.05, alias=.1, will=.2, will_delay=0, keepalive=0,
    recvmax=(None, None, 1, 2, 3), maxpkt=(None,), aliasmax=(0, 0, 1, 3), session_expiry=(0, 100, 1000, 0xFFFFFFFF),
    nl=.15, rap=.3, rh=.3, subid=.3, share=0, dup=.1, hold=.1, multi=.2, big=0, dollar=0,
    ops=dict(pub=40, sub=14, unsub=4, drop=4, disc=4, connect=10, takeover=1, ack=14, advance=1, rel=4, burst=2),
)


class Drive:
    def __init__(self, rng, ctx, prof=None, config=(), options=None, model=None):
        self.r, self.ctx = rng, ctx
        self.p = dict(DEFAULT)
        ops = dict(DEFAULT["ops"])
        ops.update((prof or {}).get("ops", {}))
        self.p.update(prof or {})
        self.p["ops"] = {k: v for k, v in ops.items() if v}
        self.sim = ctx.sim = Sim(config=config, options=options)
        self.m = Model(ctx, **(model or {}))
        self.serial = 0
        self.clients = []
        self.fresh = 0

    # ------------------------------------------------------------- plumbing
    def step(self):
        self.sim.barrier()
        self.m.feed(self.sim.trace)
        self.m.quiescent()

    def client(self, name, v, **kw):
        c = self.sim.client(name, v, **kw)
        c.acked = set()
        c.held = {}
        c.nl = self.r.random() < self.p["nl"]
        c.stable = {}
        self.clients.append(c)
        return c

    def up(self):
        return [c for c in self.clients if c.alive and c.connected]

    def down(self):
        return [c for c in self.clients if c.sock is None or not c.alive]

    def advance(self, dt):
        t = CLOCK.now + dt
        for _ in range(200):
            if not self.m.hazards(t):
                break
            t += .37
        else:
            return
        if self.r.random() < .2:    # somebody sets the time of day
            CLOCK.wall = 1_700_000_000.0 + self.r.choice([0, 0, -3600, 3600, -10 ** 7, 40, -40, 10 ** 7])
            self.sim.log("-", "time of day", "%d" % CLOCK.wall)
        self.sim.advance(t - CLOCK.now)
        self.step()

    def illegal(self, c, rcs):
        self.sim.log(c.name, "illegal", rcs)

    # ------------------------------------------------------------- values
    def payload(self):
        self.serial += 1
        if self.p.get("same") and self.r.random() < self.p["same"]:
            return b"m0."
        return b"m%d." % self.serial

    def pubprops(self):
        r, p = self.r, self.p
        out = []
        if r.random() < p["props"]:
            if r.random() < .4:
                out.append((1, r.randrange(2)))
            if r.random() < .4:
                out.append((3, r.choice(["text/plain", "x", "\u00e9"])))
            if r.random() < .4:
                out.append((8, "reply/%d" % r.randrange(3)))
            if r.random() < .4:
                out.append((9, r.randbytes(r.randrange(5))))
            for _ in range(r.randrange(3)):
                out.append((38, (r.choice(["k", "j", ""]), r.choice(["v", "w", "\u20ac"]))))
        if p["expiry"] and r.random() < p["expiry"]:
            out.append((2, r.choice([5, 20, 60, 300])))
        return out

    def will(self, c):
        r, p = self.r, self.p
        w = {"qos": self.qos(), "retain": r.random() < .25, "topic": r.choice(p["topics"]), "payload": b"will" + self.payload(),
             "props": []}
        if w["retain"]:      # several wills may fall due together: which of them is retained must be settled
            w["topic"] = p["topics"][int(c.cid[1:]) % len(p["topics"])]
        if c.v == 5:
            w["props"] = self.pubprops()
            if p["will_delay"] and r.random() < p["will_delay"]:
                w["props"].append((24, r.choice([0, 5, 30, 200])))
        return w

    def qos(self):
        return self.r.choices((0, 1, 2), self.p["qos"])[0]

    def opt(self, choices):
        return self.r.choice(list(choices))

    # ------------------------------------------------------------- operations
    def do_connect(self, c, **force):
        r, p = self.r, self.p
        keep = r.random() < p["persistent"]
        kw = dict(clean=(not keep) or r.random() < .15, keepalive=0, props=[])
        if c.v == 5:
            props = []
            if keep:
                se = self.opt(p["session_expiry"])
                if se:
                    props.append((17, se))
            for ident, key in ((33, "recvmax"), (39, "maxpkt"), (34, "aliasmax")):
                v = self.opt(p[key])
                if v:
                    props.append((ident, v))
            kw["props"] = props
        if p["keepalive"] and r.random() < p["keepalive"]:
            kw["keepalive"] = r.choice([10, 30, 100])
        if r.random() < p["will"]:
            kw["will"] = self.will(c)
        kw.update(force)
        c.ack = "manual" if r.random() < p["manual"] else "auto"
        c.acked = set()
        c.connect(**kw)

    def op_connect(self):
        cs = self.down()
        if cs:
            self.do_connect(self.r.choice(cs))

    def op_takeover(self):
        cs = self.up()
        if not cs:
            return
        old = self.r.choice(cs)
        self.fresh += 1
        c = self.client("%s'%d" % (old.name.split("'")[0], self.fresh), old.v, cid=old.cid)
        c.nl = old.nl
        self.clients.remove(old)
        self.do_connect(c)

    def op_drop(self):
        cs = self.up()
        if cs:
            self.r.choice(cs).drop()

    def op_disc(self):
        cs = self.up()
        if cs:
            c = self.r.choice(cs)
            props = []
            rc = 0
            if c.v == 5:
                rc = self.r.choice([4, 4, 0x80, 0x82, 0x97]) if self.r.random() < .3 else 0
                s = self.m.conns[c.name].sess
                if self.r.random() < (.3 if s.expiry else self.p["raise_expiry"]):   # refused if raised from 0
                    props = [(17, self.r.choice([0, 1, 2, 50, 500]))]
            c.disconnect(rc, props)

    def op_sub(self):
        cs = self.up()
        if not cs:
            return
        r, p = self.r, self.p
        c = r.choice(cs)
        subs, seen = [], set()
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            f = r.choice(p["filters"])
            if p["share"] and c.v == 5 and r.random() < p["share"]:
                f = "$share/%s/%s" % (r.choice("gh"), f)
            if f in seen or not self.allowed(c, f):
                continue
            seen.add(f)
            o = {"qos": self.qos_sub()}
            if c.v == 5:
                sh = f.startswith("$share/")
                o["nl"] = c.nl and not sh
                o["rap"] = r.random() < p["rap"]
                o["rh"] = r.randrange(3) if r.random() < p["rh"] else 0
            subs.append((f, o if c.v == 5 else o["qos"]))
        if not subs:
            return
        props = [(11, r.randrange(1, 300))] if c.v == 5 and r.random() < p["subid"] else []
        if c.v == 5 and r.random() < .1:
            props.append((38, ("a", "b")))
        c.subscribe(subs, props)

    def allowed(self, c, f):
        """avoid what the standard leaves open: a client matching one topic both by shared and own subscriptions."""
        return True
        mc = self.m.conns.get(c.name)
        if mc is None or mc.sess is None:
            return True
        eff = f.split("/", 2)[2] if f.startswith("$share/") else f
        for x in mc.sess.subs.values():
            if x.flt == f:
                continue
            if (x.share is not None or f.startswith("$share/")) and any(
                    matches(x.eff, t) and matches(eff, t) for t in self.p["topics"]):
                return False
        return True

    def qos_sub(self):
        return self.r.choices((0, 1, 2), (1, 2, 3))[0]

    def op_unsub(self):
        cs = self.up()
        if not cs:
            return
        r = self.r
        c = r.choice(cs)
        mine = sorted(self.m.conns[c.name].sess.subs)
        fs = []
        for _ in range(r.choice([1, 1, 2])):
            f = r.choice(mine) if mine and r.random() < .7 else r.choice(self.p["filters"])
            if f not in fs:
                fs.append(f)
        c.unsubscribe(fs)

    def message(self, c):
        r, p = self.r, self.p
        topic = r.choice(p["topics"])
        retain = r.random() < p["retain"]
        payload = b"" if retain and r.random() < p["clear"] else self.payload()
        if p["big"] and r.random() < p["big"] and payload:
            payload += b"x" * r.choice([20, 60, 100, 150])
        qos = self.qos()
        props = []
        if c.v == 5:
            props = self.pubprops()
            if r.random() < p["alias"]:
                a = r.randrange(1, 3)
                ma = self.m.conns[c.name].aliases
                props.append((35, a))
                if a in ma and r.random() < .6:
                    topic = ""
        return topic, payload, qos, retain, props

    def op_pub(self):
        cs = self.up()
        if not cs:
            return
        r, p = self.r, self.p
        c = r.choice(cs)
        topic, payload, qos, retain, props = self.message(c)
        if payload == b"" and not retain:
            payload = self.payload()
        s = self.m.conns[c.name].sess
        if qos == 2 and c.v == 5 and len(s.inq2) >= self.m.cfg_recv:
            return
        ident = None
        if qos:
            while c.nextid in s.inq2:
                c.newid()
        hold = qos == 2 and r.random() < p["hold"]
        pkt = c.publish(topic, payload, qos, retain, props, complete=not hold, dup=qos > 0 and r.random() < .1)
        if hold and pkt is not None:
            c.held[pkt["id"]] = pkt
            i = pkt["id"]
            c.wait_for(lambda q: q["t"] == W.PUBREC and q["id"] == i)
        elif qos and r.random() < p["dup"] and c.alive:
            # QoS 2: repeat the PUBREL; QoS 1: repeat the publication
            if qos == 2:
                c.send({"t": W.PUBREL, "id": self.last_id(c)})

    def last_id(self, c):
        return c.nextid - 1 or 65535

    def op_burst(self):
        """several publications at once, without waiting."""
        cs = self.up()
        if not cs:
            return
        c = self.r.choice(cs)
        s = self.m.conns[c.name].sess
        for _ in range(self.r.randrange(2, 7)):
            t, pl, q, rt, props = self.message(c)
            if t == "" or W.pget(props, "TopicAlias"):
                continue
            while c.nextid in s.inq2:
                c.newid()
            c.publish(t, pl or self.payload(), min(q, 1), rt, props, complete=False)

    def op_rel(self):
        """go on with a QoS 2 publication left open: duplicate PUBLISH, or PUBREL."""
        r, p = self.r, self.p
        cs = [c for c in self.up() if self.m.conns[c.name].sess.inq2]
        if not cs:
            return
        c = r.choice(cs)
        i = r.choice(sorted(self.m.conns[c.name].sess.inq2))
        if i in c.held and r.random() < .5:
            mark = len(c.inbox)
            props = [x for x in c.held[i].get("props") or [] if x[0] != 35]
            if c.held[i]["topic"]:
                c.send(dict(c.held[i], dup=True, props=props))
                c.wait_for(lambda q: q["t"] == W.PUBREC and q["id"] == i, start=mark)
                return
        mark = len(c.inbox)
        props = [(38, ("rel", "x")), (38, ("", "%d" % i))] if c.v == 5 and p.get("relprops") and r.random() < p["relprops"] else []
        c.send(dict({"t": W.PUBREL, "id": i}, **({"rc": 0, "props": props} if props else {})))
        c.wait_for(lambda q: q["t"] == W.PUBCOMP and q["id"] == i, start=mark)

    def pending(self, c):
        """acknowledgements this client could send now."""
        out = []
        for k, p in enumerate(c.inbox):
            if (k, 0) in c.acked:
                continue
            if p["t"] == W.PUBLISH and p["qos"]:
                out.append((k, {"t": W.PUBACK if p["qos"] == 1 else W.PUBREC, "id": p["id"]}))
            elif p["t"] == W.PUBREL:
                out.append((k, {"t": W.PUBCOMP, "id": p["id"]}))
        return out

    def op_ack(self):
        r = self.r
        cs = [c for c in self.up() if c.ack == "manual" and self.pending(c)]
        if not cs:
            return
        c = r.choice(cs)
        todo = self.pending(c)
        n = r.choice([1, 1, 2, len(todo)])
        if r.random() < .2:
            r.shuffle(todo)
        for k, p in todo[:n]:
            c.acked.add((k, 0))
            if p["t"] == W.PUBREC and c.v == 5 and r.random() < .08:
                p = dict(p, rc=0x80)
            c.send(p)
            if r.random() < .05:
                c.send(p)      # an acknowledgement of nothing (any more)
            if p["t"] == W.PUBREC and p.get("rc", 0) == 0 and r.random() < .1:
                c.drop()
                return

    def op_advance(self):
        self.advance(self.r.choice([.5, 3.5, 12.5, 40.5, 150.5]))

    def start(self):
        r, p = self.r, self.p
        n = r.randint(*p["clients"])
        for i in range(n):
            c = self.client("c%d" % i, 5 if r.random() < p["v5"] else 4)
            if r.random() < .8:
                self.do_connect(c)
        self.step()

    def run(self):
        self.start()
        r = self.r
        names, weights = zip(*self.p["ops"].items())
        for _ in range(r.randint(*self.p["steps"])):
            getattr(self, "op_" + r.choices(names, weights)[0])()
            self.step()
        self.finish()

    def finish(self, drain=True):
        """everyone comes back and acknowledges everything."""
        if drain:
            for c in self.clients:
                if c.alive and c.connected:
                    if c.ack == "manual":
                        c.ack = "auto"
                        for k, p in self.pending(c):
                            c.send(p)
                else:
                    s = self.m.sess.get(c.cid)
                    if s is None:
                        continue
                    c.ack = "auto"
                    c.acked = set()
                    props = [(17, 1000)] if c.v == 5 else []
                    c.connect(clean=False, props=props)
                    c.ack = "auto"
                self.step()
            self.step()
            self.m.all_done()
        f = sorted(self.m.feats)
        self.ctx.case((tuple(f), min(self.m.delivered, 60) // 4), "features: %s; %d deliveries" % (", ".join(f), self.m.delivered))
        for x in f:
            self.ctx.count("scenarios with " + x)
