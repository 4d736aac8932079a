"""Workloads for the client library checks (C28, C29)."""
import time
from . import wire as W, gen, clientlib


def scenario(r, ctx, idx, v):
    rig = clientlib.Rig(r, ctx, v, callback=idx % 5 != 4)
    keep = r.random() < .5
    if v == 5 and keep:
        rig.client.sessionexpiry = 100
    rig.connect(clean=not keep)
    for part in range(r.randrange(2, 6)):
        for batch in range(r.randrange(1, 5)):
            steps(rig, r.randrange(1, 14))
            rig.settle()
        what = r.random()
        if what < .35 and rig.callback:
            reconnect(rig, keep)
        elif what < .5 and rig.callback:
            pause(rig)
    rig.drain()
    rig.settle()
    if rig.v == 5 and r.random() < .3 and rig.callback:
        rig.sdisconnect()
        rig.settle()
    if rig.callback or r.random() < .5:
        rig.goodbye()
        ctx.count("disconnects")


def steps(rig, n):
    r = rig.r
    sent = []
    for _ in range(n):
        x = r.random()
        if x < .35:
            decline = rig.callback and r.random() < .1
            p = rig.message(dup=r.random() < .2, decline=decline)
            if p["qos"]:
                sent.append(p)
        elif x < .45 and sent:
            p = r.choice(sent)
            if p["qos"] == 1 or p["id"] in rig.inq and rig.inq[p["id"]][1:3] == (p["topic"], p["payload"]):
                rig.message(again=p, decline=rig.callback and r.random() < .1)
                rig.ctx.count("repeated publications")
        elif x < .62:
            if rig.inq and r.random() < .8:
                n = r.choice(list(rig.inq))
                rig.release(n, decline=rig.callback and r.random() < .15)
                if r.random() < .2:
                    rig.release(n)
                    rig.ctx.count("repeated releases")
            else:
                rig.release(rig.newid())
        elif x < .75:
            rig.advance_one()
        elif x < .9:
            rig.publish()
        elif x < .95:
            rig.subscribe()
        else:
            rig.unsubscribe()


def pause(rig):
    """a paused client ignores publications; they are sent again later."""
    rig.client.pause()
    rig.paused = True
    lost = [rig.message(qos=rig.r.randrange(3)) for _ in range(rig.r.randrange(1, 4))]
    rig.settle()
    rig.client.resume()
    rig.paused = False
    for p in lost:
        if p["qos"]:
            rig.message(again=p)
    rig.settle()
    rig.ctx.count("pauses")


def reconnect(rig, keep):
    """the server drops the connection; the application connects again."""
    if rig.r.random() < .7:
        rig.conn.close()
        time.sleep(rig.r.choice([0, .02, .15, .5]))
    else:
        rig.drain()
        rig.settle()
        rig.goodbye()
    clean = not keep or rig.r.random() < .3
    rig.connect(clean=clean, sp=not clean)
    rig.ctx.count("reconnections")
    rig.settle()


def directed(v):
    def d_slow(r, ctx):
        """a packet which takes its time, in every type."""
        rig = clientlib.Rig(r, ctx, v)
        rig.connect()
        for qos in (0, 1, 2):
            rig.message(qos=qos, slow=.8)
            rig.settle()
        rig.drain()
        rig.settle()
        rig.goodbye()

    def d_big(r, ctx):
        """large packets both ways."""
        rig = clientlib.Rig(r, ctx, v)
        rig.connect()
        for n in (127, 128, 16383, 16384, 100000, 2097152):
            rig.publish(qos=n % 3, payload=b"x" * n)
            rig.settle()
        rig.drain()
        rig.settle()
        rig.goodbye()

    def d_goodbye(r, ctx):
        """disconnect() right after publishing: the handshakes are completed first."""
        import threading
        for k in range(3):
            rig = clientlib.Rig(r, ctx, v)
            rig.connect()
            for _ in range(3):
                rig.publish(qos=r.choice([1, 2]))
            rig.settle()
            t = threading.Thread(target=lambda: (time.sleep(.05 + .3 * k), rig.drain()))
            t.start()
            rig.call("disconnect() with %d handshakes open" % len(rig.out), rig.client.disconnect)
            t.join()
            rig.want_req.append({"t": W.DISCONNECT, "rc": 0, "props": []})
            rig.settle(barrier=False) if False else late(rig)
            ctx.count("disconnects with open handshakes")
            rig.stop()

    def late(rig):
        acks = []
        while True:
            p = rig.conn.next("DISCONNECT")
            if p is None or p["t"] == W.DISCONNECT:
                break
            acks.append(p["t"])
        rig.expect(p is not None, "disconnect() closed the connection without DISCONNECT")
        want = [a["t"] for a in rig.want_acks]
        rig.expect(acks == want, lambda: "acknowledgements %r instead of %r before DISCONNECT" % (acks, want))
        rig.compare(rig.seen, rig.want_cb, "called back")

    def d_refused(r, ctx):
        for rc in (gen.SAFE_REASONS[W.CONNACK] if v == 5 else range(6)):
            if rc:
                rig = clientlib.Rig(r, ctx, v)
                rig.connect(refuse=rc)
                ctx.count("refused connections")
                rig.conn.close()
                rig.listener.close()

    def d_identifiers(r, ctx):
        """identifiers over the wrap, with some under way."""
        rig = clientlib.Rig(r, ctx, v)
        rig.connect()
        held = [rig.publish(qos=1 + k % 2, payload=b"h") for k in range(5)]
        rig.settle()
        start = rig.client.publish
        for k in range(66000):
            n = rig.call("publish", rig.client.publish, "t", b"", 1, False)
            rig.expect(n not in held and 0 < n < 65536, lambda: "identifier %r given out again while under way" % n)
            p = rig.conn.next("PUBLISH")
            rig.expect(p["t"] == W.PUBLISH and p["id"] == n, "PUBLISH with another identifier")
            rig.conn.send(W.encode({"t": W.PUBACK, "id": n, "rc": 0, "props": []}, v))
            rig.want_cb.append(("published", n))
            if k % 500 == 499:
                rig.settle()
        ctx.count("identifiers given out", 66000)
        rig.drain()
        rig.settle()
        rig.goodbye()

    return [d_slow, d_big, d_goodbye, d_refused, d_identifiers]
