"""Building blocks of the broker checks: profiles of the random driver and directed generators."""
from . import wire as W, hostile
from .drive import Drive, TOPICS, FILTERS
from .clock import CLOCK


def profile(prof=None, config=(), options=None, model=None):
    """a scenario function from a driver profile (values may be functions of the random source)."""
    def fn(r, ctx):
        cfg, opt, mod = (x(r) if callable(x) else x for x in (config, options, model))
        Drive(r, ctx, prof(r) if callable(prof) else prof, config=cfg or (), options=opt, model=mod).run()
    return fn


def limits(r, recv=None, alias=None, size=None):
    """configuration lines and the matching model arguments."""
    cfg, mod = [], {}
    if recv:
        cfg.append("receive_maximum %d" % recv)
        mod["receive_maximum"] = recv
    if alias is not None:
        cfg.append("topic_alias_maximum %d" % alias)
        mod["topic_alias_maximum"] = alias
    if size:
        cfg.append("maximum_packet_size %d" % size)
        mod["maximum_packet_size"] = size
    return cfg, mod


def mixed(*fns):
    """scenario function which deals the scenarios out to several generators, weights by repetition."""
    def scenario(r, ctx, idx):
        fns[idx % len(fns)](r, ctx)
    return scenario


def new(r, ctx, config=(), options=None, model=None, **prof):
    base = dict(will=0, alias=0, props=0, persistent=1, session_expiry=(1000,), recvmax=(None,), maxpkt=(None,), aliasmax=(0,), manual=0,
                nl=0)
    base.update(prof)
    return Drive(r, ctx, base, config=config, options=options, model=model)


def join(d, name, v, **kw):
    c = d.client(name, v)
    ack = kw.pop("ack", "auto")
    c.ack = ack
    if v == 5 and "props" not in kw:
        kw["props"] = [(17, 1000)]
    c.connect(clean=kw.pop("clean", False), **kw)
    c.ack = ack
    c.acked = set()
    d.step()
    return c


def rejoin(d, c, ack=None, **kw):
    if ack:
        c.ack = ack
    c.acked = set()
    if c.v == 5 and "props" not in kw:
        kw["props"] = [(17, 1000)]
    c.connect(clean=kw.pop("clean", False), **kw)
    d.step()


def leave(d, c):
    """one of the ways to go."""
    if d.r.random() < .6:
        c.drop()
    else:
        c.disconnect(0)
    d.step()


def done(d, drain=True):
    d.finish(drain)


def offend(d, c, v=None, which=None):
    """the client commits one protocol violation."""
    r = d.r
    name, mk, rcs = which or r.choice(hostile.violations(c.v, d.m.cfg_alias, d.m.cfg_max))
    b = mk(r)
    d.sim.log(c.name, "close!", (rcs, {"packet too large": "packet too large"}.get(name, name)))
    c.send_raw(b)
    d.ctx.count("protocol violations")
    d.m.feat("offence " + name)
    d.step()


# ------------------------------------------------------------------ inbound QoS 2
def inbound_qos2(r, ctx):
    """one publisher works through QoS 2 exchanges in any legal order, with repeats, losses and reconnections."""
    onrel = r.random() < .4
    v = r.choice([4, 5])
    limit = r.choice([2, 3, 5])
    cfg, mod = limits(r, recv=limit)
    d = new(r, ctx, cfg, {"publish_on_pubrel": True} if onrel else None, dict(mod, publish_on_pubrel=onrel), same=.4 * (r.random() < .25))
    s = join(d, "s5", 5)
    t = join(d, "s4", 4)
    s.subscribe([("a/#", {"qos": 2})])
    t.subscribe([("#", 2)])
    p = join(d, "p", v)
    open_, recent = {}, []
    for _ in range(r.randrange(10, 30)):
        x = r.random()
        if not p.alive:
            rejoin(d, p)
        if x < .3:
            free = [i for i in r.sample(range(1, 6), 5) if i not in open_]
            if v == 5 and len(open_) >= limit or not free:
                continue
            i = free[0]
            pk = {"t": W.PUBLISH, "topic": r.choice(["a", "a/b"]), "payload": d.payload(), "qos": 2, "retain": r.random() < .1, "props": [], "dup": False,
                  "id": i}
            open_[i] = pk
            p.send(pk)
        elif x < .5 and open_:
            i = r.choice(sorted(open_))
            p.send(dict(open_[i], dup=True))
        elif x < .75 and open_:
            i = r.choice(sorted(open_))
            recent.append(i)
            del open_[i]
            p.send({"t": W.PUBREL, "id": i})
        elif x < .82:
            p.send({"t": W.PUBREL, "id": r.choice([i for i in recent if i not in open_] or [77])})
        elif x < .9:
            p.send({"t": W.PUBLISH, "topic": "a", "payload": d.payload(), "qos": 1, "retain": False, "props": [], "dup": r.random() < .3,
                    "id": r.randrange(60, 65)})
        else:
            p.drop()
        if r.random() < .7:
            d.step()
    if not p.alive:
        rejoin(d, p)
    for i in sorted(open_):
        p.send({"t": W.PUBREL, "id": i})
    d.step()
    done(d)


def inbound_loss(r, ctx):
    """the connection is lost after each step of the exchange, and the client carries on as the standard asks."""
    for v in (5, 4):
        for onrel in (False, True):
            d = new(r, ctx, (), {"publish_on_pubrel": True} if onrel else None, dict(publish_on_pubrel=onrel))
            s = join(d, "s", 5)
            s.subscribe([("a", {"qos": 2})])
            for lost in ("publish", "pubrec", "pubrel", "pubcomp"):
                for again in (1, 2):
                    p = join(d, "p%s%d" % (lost, again), v)
                    i = r.randrange(1, 65536)
                    pk = {"t": W.PUBLISH, "topic": "a", "payload": d.payload(), "qos": 2, "retain": False, "props": [], "dup": False, "id": i}
                    p.send(pk)
                    if lost != "publish":
                        p.wait_for(lambda q: q["t"] == W.PUBREC)
                    if lost in ("pubrel", "pubcomp"):
                        p.send({"t": W.PUBREL, "id": i})
                    if lost == "pubcomp":
                        p.wait_for(lambda q: q["t"] == W.PUBCOMP)
                    p.drop()
                    d.step()
                    for _ in range(again):
                        rejoin(d, p)
                        if lost == "publish":
                            p.send(dict(pk, dup=True))
                            p.wait_for(lambda q: q["t"] == W.PUBREC)
                        if lost != "publish" or r.random() < .5 or _ == again - 1:
                            p.send({"t": W.PUBREL, "id": i})
                            p.wait_for(lambda q: q["t"] == W.PUBCOMP)
                        p.drop()
                        d.step()
                    # the identifier may now be used for a new message
                    rejoin(d, p)
                    p.publish("a", d.payload(), 2, ident=i)
                    d.step()
                    p.disconnect()
                    d.step()
                    d.ctx.count("losses of the connection in an inbound exchange")
            done(d)
            d.sim.stop()


# ------------------------------------------------------------------ outbound
def outbound(r, ctx):
    """one subscriber acknowledges, loses its connection, and comes back, in any order, while messages arrive."""
    v = r.choice([4, 5])
    d = new(r, ctx, same=.4 * (r.random() < .25))
    win = r.choice([None, None, 1, 2, 3])

    def sprops():
        w = win if r.random() < .7 else r.choice([None, 1, 2, 4])
        return [(17, 1000)] + ([(33, w)] if w else []) + ([(34, 2)] if r.random() < .3 else [])
    s = join(d, "s", v, ack="manual", props=sprops() if v == 5 else None)
    pubs = [join(d, "p%d" % i, r.choice([4, 5])) for i in range(2)]
    s.subscribe([("a/#", {"qos": 2} if v == 5 else 2)])
    d.step()
    for _ in range(r.randrange(15, 40)):
        x = r.random()
        if x < .35:
            p = r.choice(pubs)
            for _ in range(r.choice([1, 1, 2, 4])):
                p.publish(r.choice(["a", "a/b"]), d.payload(), r.choice([1, 2, 2, 0]))
        elif not s.alive:
            if x < .7:
                rejoin(d, s, "manual", props=sprops() if v == 5 else None)
        elif x < .8:
            todo = d.pending(s)
            for k, p in todo[:r.choice([1, 1, 2, 9])]:
                s.acked.add((k, 0))
                if p["t"] == W.PUBREC and v == 5 and r.random() < .1:
                    p = dict(p, rc=0x97)
                elif v == 5 and r.random() < .15:
                    p = dict(p, rc=0x10 if p["t"] in (W.PUBACK, W.PUBREC) else 0)
                s.send(p)
        else:
            leave(d, s)
            continue
        d.step()
    done(d)


def outbound_loss(r, ctx):
    """the connection is lost after each step of the acknowledgement, once or several times."""
    for v in (5, 4):
        for qos in (1, 2):
            for n in (1, 2, 3):
                d = new(r, ctx)
                p = join(d, "p", 5)
                for steps in range(0, 2 * n + 1):
                    for times in (1, 2):
                        s = join(d, "s%d.%d" % (steps, times), v, ack="manual")
                        s.subscribe([("a", {"qos": 2} if v == 5 else 2)])
                        for _ in range(n):
                            p.publish("a", d.payload(), qos)
                        d.step()
                        for _ in range(steps):
                            todo = d.pending(s)
                            if not todo:
                                break
                            k, a = todo[0] if r.random() < .6 else r.choice(todo)
                            s.acked.add((k, 0))
                            s.send(a)
                            if r.random() < .7:
                                d.step()
                        for t in range(times):
                            leave(d, s)
                            if r.random() < .5:
                                p.publish("a", d.payload(), r.choice([1, 2]))
                            rejoin(d, s, "manual" if t < times - 1 else "auto")
                        d.step()
                        s.unsubscribe(["a"])
                        s.disconnect()
                        d.step()
                        d.ctx.count("losses of the connection in an outbound exchange")
                done(d)
                d.sim.stop()


# ------------------------------------------------------------------ flow
def flow(r, ctx):
    """bursts against small windows, acknowledgements in any order, changing windows, expiring and oversized messages."""
    d = new(r, ctx, size=None, config=["maximum_packet_size 2000"], model=dict(maximum_packet_size=2000), same=.4 * (r.random() < .25))
    win = r.choice([1, 1, 2, 3, 5, 10])

    def props():
        w = win if r.random() < .6 else r.choice([1, 2, 4, 20, None])
        return [(17, 1000)] + ([(33, w)] if w else []) + ([(39, 80)] if big else [])
    big = r.random() < .3
    s = join(d, "s", 5, ack="manual", props=props())
    t = join(d, "t", r.choice([4, 5]))
    s.subscribe([("a/#", {"qos": 2}), ("b", {"qos": 1})])
    t.subscribe([("#", {"qos": 1} if t.v == 5 else 1)])
    pubs = [join(d, "p%d" % i, r.choice([4, 5, 5])) for i in range(2)]
    for _ in range(r.randrange(12, 30)):
        x = r.random()
        if x < .4:
            p = r.choice(pubs)
            for _ in range(r.choice([1, 2, win, win + 1, 3 * win])):
                pl = d.payload() + (b"x" * 90 if big and r.random() < .25 else b"")
                pr = [(2, r.choice([20, 60]))] if p.v == 5 and r.random() < .15 else []
                p.publish(r.choice(["a", "a/b", "b"]), pl, r.choice([1, 1, 2, 0]), props=pr)
        elif x < .8:
            if s.alive:
                todo = d.pending(s)
                if r.random() < .3:
                    r.shuffle(todo)
                for k, p in todo[:r.choice([1, 1, 2, 3, 9])]:
                    s.acked.add((k, 0))
                    if p["t"] == W.PUBREC and r.random() < .15:
                        p = dict(p, rc=r.choice([0x80, 0x83, 0x97]))
                    s.send(p)
        elif x < .88:
            d.advance(r.choice([15.5, 45.5]))
            continue
        elif s.alive:
            leave(d, s)
            continue
        if not s.alive and r.random() < .6:
            rejoin(d, s, "manual", props=props())
        d.step()
    done(d)


def deep_window(r, ctx):
    """more messages than any explicit window: the default of 65535 leaves them all outstanding."""
    d = new(r, ctx, same=.4 * (r.random() < .25))
    s = join(d, "s", 5, ack="manual", props=[(17, 1000)])
    w = r.choice([20, 50])
    u = join(d, "u", 5, ack="manual", props=[(17, 1000), (33, w)])
    for x in (s, u):
        x.subscribe([("a", {"qos": 1})])
    p = join(d, "p", 5)
    for _ in range(w + r.choice([1, 10, 40])):
        p.publish("a", d.payload(), 1, complete=False)
    d.step()
    for x in (s, u):
        todo = d.pending(x)
        r.shuffle(todo)
        for k, a in todo:
            x.acked.add((k, 0))
            x.send(a)
    d.step()
    done(d)


# ------------------------------------------------------------------ inbound window
def inbound_window(r, ctx):
    limit = r.choice([1, 2, 3, 5, 8])
    cfg, mod = limits(r, recv=limit)
    d = new(r, ctx, cfg, None, mod)
    s = join(d, "s", 5)
    s.subscribe([("a", {"qos": 0})])
    p = join(d, "p", 5, will={"qos": 0, "retain": False, "topic": "a", "payload": b"will", "props": []})
    open_ = []
    nid = 0
    err = r.random() < .4
    for _ in range(r.randrange(15, 40)):
        x = r.random()
        if not p.alive:
            if r.random() < .2:
                open_ = []
                rejoin(d, p, clean=True)
            else:
                rejoin(d, p)
            open_ = [i for i in open_ if i in d.m.sess["p"].inq2]
        if x < .45:
            if len(open_) < limit or r.random() < .12:
                nid = nid % 200 + 1
                if nid in open_:
                    continue
                bad = err and r.random() < .4   # refused, so it is not open
                p.send({"t": W.PUBLISH, "topic": "test_qos_1_2_errors" if bad else "a", "payload": d.payload(), "qos": 2, "retain": False, "props": [], "dup": False, "id": nid})
                if not bad:
                    open_.append(nid)
        elif x < .55 and open_:
            i = r.choice(open_)
            p.send({"t": W.PUBLISH, "topic": "a", "payload": b"again", "qos": 2, "retain": False, "props": [], "dup": True, "id": i})
        elif x < .85 and open_:
            i = open_.pop(r.randrange(len(open_)))
            p.send({"t": W.PUBREL, "id": i})
        elif x < .92:
            if len(open_) < limit:
                p.publish("a", d.payload(), 1, complete=False, ident=r.randrange(300, 400))
            elif r.random() < .15:      # a QoS 1 publication counts as well
                p.publish("a", d.payload(), 1, complete=False, ident=r.randrange(300, 400))
        elif x < .96:
            p.drop()
        else:
            p.publish("a", d.payload(), 0)
        if r.random() < .8:
            d.step()
            open_ = [i for i in open_ if i in d.m.sess["p"].inq2] if "p" in d.m.sess else []
        if d.m.conns["p"].state != "open":
            d.step()
    d.ctx.count("windows", 1)
    done(d)


# ------------------------------------------------------------------ ends of connections
def endings(r, ctx):
    """clients with wills end their connections in every possible way; a watcher sees the wills."""
    d = Drive(r, ctx, dict(will=.9, will_delay=.5, persistent=.6, session_expiry=(0, 8, 30, 100, 1000), keepalive=.3, manual=0, retain=0, recvmax=(None,),
                           v5=.7, expiry=.1))
    w5, w4 = join(d, "c7", 5), join(d, "c8", 4)
    w5.subscribe([("#", {"qos": 2, "rap": True})])
    w4.subscribe([("#", 2)])
    for i in range(r.randrange(2, 5)):
        c = d.client("c%d" % i, 5 if r.random() < .7 else 4)
    mine = d.clients[2:]
    for _ in range(r.randrange(10, 25)):
        mine = d.clients[2:]
        c = r.choice(mine)
        x = r.random()
        if c.alive and c.connected:
            if x < .2:
                c.drop()
            elif x < .3:
                c.disconnect(0)
            elif x < .4:
                c.disconnect(r.choice([4, 4, 0x80, 0x81, 0x83, 0x99]) if c.v == 5 else 0)
            elif x < .5:
                s = d.m.conns[c.name].sess
                c.disconnect(r.choice([0, 4]) if c.v == 5 else 0, [(17, r.choice([0, 20, 200]))] if c.v == 5 and s.expiry else [])
            elif x < .65:
                offend(d, c)
            elif x < .75:
                d.fresh += 1
                n = d.client("%s'%d" % (c.cid, d.fresh), c.v, cid=c.cid)
                d.clients.remove(c)
                d.do_connect(n)
            elif x < .8:
                d.op_pub()
            else:
                if d.m.conns[c.name].keepalive:
                    d.advance(d.m.conns[c.name].keepalive * 1.5 + 1.5)
                else:
                    d.advance(r.choice([4.5, 10.5, 35.5]))
        elif x < .6:
            d.do_connect(c)
        else:
            d.advance(r.choice([3.5, 10.5, 35.5, 120.5, 250.5]))
        d.step()
    d.advance(300.5)
    done(d)


# ------------------------------------------------------------------ keep alive
def keepalive(r, ctx):
    """clients of all intervals; each is silent, or sends one kind of packet from time to time; sessions are resumed with other intervals."""
    d = new(r, ctx)
    w = join(d, "w", 5)
    w.subscribe([("#", {"qos": 0})])
    cs = []

    def args(c):
        kw = dict(keepalive=r.choice([0, 1, 2, 5, 10, 30, 59, 60, 61, 100, 1000, 65535]), clean=not c.persist or r.random() < .1,
                  props=[(17, 10 ** 8)] if c.v == 5 and c.persist else [])
        if r.random() < .8:
            kw["will"] = {"qos": 0, "retain": False, "topic": "gone", "payload": b"k" + d.payload(), "props": []}
        return kw

    def again(c):
        c.quiet = False
        rejoin(d, c, **args(c))
        c.quiet = True
    for i in range(r.randrange(2, 6)):
        c = d.client("k%d" % i, r.choice([4, 5]))
        c.persist = r.random() < .6
        cs.append(c)
        c.connect(**args(c))
        d.step()
        c.quiet = True
    for c in cs:
        if r.random() < .4:
            c.quiet = False
            leave(d, c)
            again(c)
    d.step()
    for _ in range(r.randrange(6, 16)):
        for c in cs:
            if c.alive and r.random() < .4:
                k = r.randrange(5)
                if k == 0:
                    c.send({"t": W.PINGREQ})
                elif k == 1:
                    c.publish("x", d.payload(), 0)
                elif k == 2:
                    c.subscribe([("q", {"qos": 0} if c.v == 5 else 0)])
                elif k == 3:
                    c.publish("x", d.payload(), r.choice([1, 2]))
                else:
                    c.send({"t": W.PUBACK, "id": r.randrange(1, 9)})
                settle(d)
        live = [d.m.conns[c.name] for c in cs if c.alive]
        deadlines = [x.last + 1.5 * x.keepalive for x in live if x.keepalive]
        near = [t - CLOCK.now for t in deadlines if t > CLOCK.now]
        x = r.random()
        if near and x < .8:
            dt = r.choice(near) + r.choice([-.9, -.6, .6, .9, 3])
        else:
            dt = r.choice([.7, 5.5, 40.5, 1200.5])
        if dt > 0:
            d.advance(dt)
        for c in cs:
            c.pump(.002)
        d.step()
        for c in cs:
            if not c.alive and r.random() < .4:
                again(c)
    d.ctx.count("keep alive scenarios")
    for c in cs:
        c.quiet = False
    d.step()
    done(d)


def settle(d):
    """let what the quiet clients sent arrive: the broker reads each connection in its own thread."""
    import time
    from .clock import real_sleep
    CLOCK.settle(passes=3)
    for c in d.clients:
        if c.quiet and c.sock is not None:
            c.pump(.002)


# ------------------------------------------------------------------ size limits
def sizes(r, ctx):
    """publications of sizes around the receiver's and the broker's maxima."""
    bmax = r.choice([256, 256, 100, 500])
    cfg, mod = limits(r, size=bmax)
    d = new(r, ctx, cfg, None, mod)
    subs = []
    for i in range(3):
        m = r.choice([30, 40, 64, 100, 130, 200])
        c = join(d, "s%d" % i, 5, props=[(17, 1000), (39, m)] + ([(34, 2)] if r.random() < .3 else []) + ([(33, 1)] if r.random() < .3 else []))
        c.m = m
        c.subscribe([("a", {"qos": r.randrange(3)})], [(11, r.choice([5, 200]))] if r.random() < .3 else [])
        subs.append(c)
    p = join(d, "p", 5)
    z = join(d, "z", 4)
    z.subscribe([("a", 2)])
    d.step()
    for _ in range(r.randrange(10, 25)):
        x = r.random()
        if x < .7:
            c = r.choice(subs)
            qos = r.randrange(3)
            pl = d.payload()
            # aim at the size of the packet as the receiver gets it
            k = len(W.encode({"t": W.PUBLISH, "topic": "a", "payload": pl, "qos": 1, "id": 1, "props": [], "dup": 0, "retain": 0}, 5))
            pl += b"p" * max(0, c.m - k + r.choice([-9, -3, -2, -1, 0, 1, 2, 3, 9]))
            pk = {"t": W.PUBLISH, "topic": "a", "payload": pl, "qos": qos, "id": 1, "props": [], "dup": 0, "retain": 0}
            if len(W.encode(pk, 5)) <= bmax:
                p.publish("a", pl, qos)
        elif x < .8:
            # just at the broker's own limit
            pk = {"t": W.PUBLISH, "topic": "b", "payload": b"", "qos": 0, "props": [], "dup": 0, "retain": 0}
            pk["payload"] = b"q" * (bmax - len(W.encode(dict(pk, payload=b"q" * 130), 5)) + 130) if bmax > 140 else b"q" * (bmax - len(W.encode(pk, 5)))
            n = len(W.encode(pk, 5))
            pk["payload"] += b"q" * (bmax - n) if n < bmax else b""
            if len(W.encode(pk, 5)) == bmax:
                d.ctx.count("packets of exactly the maximum")
            if r.random() < .4:
                pk["payload"] += b"!" * r.choice([1, 2, 50])
            p.send(pk)
            d.step()
            if not p.alive:
                rejoin(d, p)
        else:
            c = r.choice(subs)
            if c.alive:
                leave(d, c)
            else:
                rejoin(d, c, props=[(17, 1000), (39, c.m)])
        d.step()
    done(d)


# ------------------------------------------------------------------ request/response
def request_response(r, ctx):
    """requesters and responders; a ledger tells which request each response answers."""
    d = new(r, ctx, config=["maximum_packet_size 1000", "receive_maximum 20"], model=dict(maximum_packet_size=1000, receive_maximum=20))
    nq, ns = r.randrange(2, 5), r.randrange(1, 4)
    reqs = [join(d, "q%d" % i, 5) for i in range(nq)]
    resp = [join(d, "r%d" % i, 5, ack=r.choice(["auto", "auto", "manual"])) for i in range(ns)]
    for i, q in enumerate(reqs):
        q.rt = r.choice(["reply/%d" % i, "%s/%s" % (r.choice(["\u00e9", "x", "", "/"]), i)])
        q.subscribe([(q.rt, {"qos": 2})])
        q.asked = {}
        q.n = 0
        q.got = []
    for i, s in enumerate(resp):
        s.subscribe([("svc/%d/#" % i, {"qos": r.choice([1, 2])})])
        s.mark = 0
    d.step()
    answered = 0

    def back(q):
        q.got += q.inbox
        rejoin(d, q)

    for _ in range(r.randrange(15, 40)):
        x = r.random()
        if x < .5:
            q = r.choice(reqs)
            if not q.alive:
                back(q)
            cd = bytes([q.n & 255]) + r.randbytes(r.randrange(0, 20))
            if r.random() < .2:
                cd = r.choice([b"", b"\0", b"\xff\xff", b"same"]) + bytes([q.n & 255])
            q.n += 1
            k = r.randrange(ns)
            same = r.random() < .4      # like another request, but for the correlation data
            body = b"same" if same else d.payload()
            q.asked[cd] = (k, body)
            q.publish("svc/%d/op" % k, body, r.choice([1, 2] if same else [0, 1, 2]) if resp[k].ack == "auto" else 1, props=[(8, q.rt), (9, cd)])
        elif x < .6:
            q = r.choice(reqs)
            if q.alive:
                leave(d, q)         # its answers wait for it
            else:
                back(q)
        else:
            s = r.choice(resp)
            s.pump()
            if s.ack == "manual":
                for k, p in d.pending(s):
                    s.acked.add((k, 0))
                    s.send(p)
            got = [p for p in s.inbox[s.mark:] if p["t"] == W.PUBLISH]
            s.mark = len(s.inbox)
            r.shuffle(got)
            for p in got:
                rt, cd = W.pget(p["props"], "ResponseTopic"), W.pget(p["props"], "CorrelationData")
                ctx.expect(rt is not None and cd is not None, "request came without response topic or correlation data: %s" % W.show(p))
                here = all(q.alive for q in reqs) and p["payload"] != b"same"
                s.publish(rt, b"re:" + s.name.encode() + b":" + p["payload"], r.choice([0, 1, 2] if here else [1, 2]), props=[(9, cd)])
        d.step()
    for _ in range(3):
        for s in resp:
            s.pump()
            for k, p in d.pending(s) if s.ack == "manual" else []:
                s.acked.add((k, 0))
                s.send(p)
        d.step()
    for s in resp:
        for p in [p for p in s.inbox[s.mark:] if p["t"] == W.PUBLISH]:
            s.publish(W.pget(p["props"], "ResponseTopic"), b"re:" + s.name.encode() + b":" + p["payload"], 1,
                      props=[(9, W.pget(p["props"], "CorrelationData"))])
    d.step()
    for q in reqs:
        if not q.alive:
            back(q)
    d.step()
    for q in reqs:
        for p in q.got + q.inbox:
            if p["t"] != W.PUBLISH:
                continue
            cd = W.pget(p["props"], "CorrelationData")
            ctx.expect(cd in q.asked, "%s got a response with correlation data it did not send, or twice: %s" % (q.name, W.show(p)))
            k, body = q.asked.pop(cd)
            ctx.expect(p["payload"] == b"re:r%d:" % k + body, "%s: response %s answers another request" % (q.name, W.show(p)))
            answered += 1
        ctx.expect(not q.asked, "%s: no response to %r" % (q.name, q.asked))
    ctx.count("requests answered", answered)
    done(d)


# ------------------------------------------------------------------ identifiers
def wrap(r, ctx, v=None, n=None, qos=1):
    """past the end of the packet identifiers, with some of them still under way."""
    v = v or r.choice([4, 5])
    d = new(r, ctx)
    d.sim.keep = 3000
    s = join(d, "s", v, ack="manual", props=[(17, 10000)] if v == 5 else None)
    p = join(d, "p", 4)
    s.subscribe([("a", {"qos": 2} if v == 5 else 2)])
    held = []
    total = 0

    def burst(k, hold=0):
        for _ in range(k):
            p.publish("a", b"%d" % d.serial, qos, complete=False)
            d.serial += 1
        d.step()
        for j, (kk, a) in enumerate(d.pending(s)):
            if hold and j % 7 == 3:
                hold -= 1
                s.acked.add((kk, 0))
                held.append(a)
                continue
            s.acked.add((kk, 0))
            s.send(a)
        if qos == 2:
            d.step()
            for x in p.inbox:
                if x["t"] == W.PUBREC:
                    p.send({"t": W.PUBREL, "id": x["id"]})
            for kk, a in d.pending(s):
                s.acked.add((kk, 0))
                s.send(a)
        d.step()
        p.inbox.clear()
        s.inbox.clear()
        s.acked.clear()
    burst(60, hold=8)
    total = 60
    goal = n or 65600
    while total < goal:
        k = min(500, goal - total)
        burst(k)
        total += k
    ctx.count("messages to one subscriber", total)
    ctx.count("identifiers under way across the wrap", len(held))
    if r.random() < .5:
        leave(d, s)
        rejoin(d, s, "auto", props=[(17, 10000)] if v == 5 else None)
        held = []
    for a in held:
        s.send(a)
    d.step()
    burst(30)
    s.ack = "auto"
    d.step()
    ctx.case(("wrap", v, len(held)), "v%d: %d messages, %d held" % (v, total, len(held)))
