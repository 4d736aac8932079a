"""C09: messages of one publisher keep their order"""
import hashlib
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.suite import *
from mon.sim import Sim
from mon.storm import Storm

ID = "C09"
RULE = ("one evaluation = one history of the live broker judged event by event by the trace specification, or one storm of concurrent publishers whose "
        "subscribers' logs are judged offline; distinct = (features of the specification exercised, deliveries/4) or the hash of the interleaving seen")
ASSUMPTIONS = "shared subscriptions are left out of the order judgement; the order of messages of different publishers is judged only where one was answered before the other was sent"
PLAN = {"quick": 400, "thorough": 20000}
REACH = {"distinct": 120, "resent": 200, "deliveries in storms": 2000, "ordered backlogs": 100}


def backlog(r, ctx):
    """one publisher with several messages under way, and subscribers that are slow, away, or come back with another window."""
    d = new(r, ctx, config=["receive_maximum 30"], model=dict(receive_maximum=30))
    p = join(d, "p", r.choice([4, 5, 5]))
    subs = []

    def props(c):
        w = r.choice([None, 1, 2, 3, 5])
        return [(17, 1000)] + ([(33, w)] if w else []) if c == 5 else None
    for k in range(r.choice([1, 2, 3])):
        v = r.choice([4, 5, 5])
        s = join(d, "s%d" % k, v, ack="manual", props=props(v))
        q = r.choice([1, 2, 2])
        s.subscribe([(r.choice(["a", "a/#", "+"]), {"qos": q} if v == 5 else q)])
        subs.append(s)
    d.step()
    for _ in range(r.randrange(8, 18)):
        x = r.random()
        if x < .5:
            for _ in range(r.choice([1, 3, 6, 12])):
                pr = [(2, r.choice([500, 1000, 50000]))] if p.v == 5 and r.random() < .3 else []
                p.publish(r.choice(["a", "a", "a/b"]), d.payload(), r.choice([1, 2, 2, 0]), complete=r.random() < .8, props=pr)
            if r.random() < .5:
                continue        # and what follows comes into the middle of it
        elif x < .85:
            s = r.choice(subs)
            if s.alive:
                todo = d.pending(s)
                if r.random() < .3:
                    r.shuffle(todo)
                for k, a in todo[:r.choice([1, 2, 5, 99])]:
                    s.acked.add((k, 0))
                    s.send(a)
        else:
            s = r.choice(subs)
            if s.alive:
                leave(d, s)
            else:
                rejoin(d, s, "manual", props=props(s.v))
            continue
        d.step()
    ctx.count("ordered backlogs")
    # publish handshakes held back so far
    done(d)


def storm(r, ctx):
    sim = ctx.sim = Sim(config=["receive_maximum 50", "maximum_packet_size 10000", "topic_alias_maximum 5"])
    with Storm(r, ctx, sim, rate=r.choice([.01, .03, .08]), lines=r.random() < .4) as st:
        subs = []
        for k in range(r.choice([2, 3])):
            v = r.choice([4, 5])
            restless = k > 0
            c = st.peer("sub%d" % k, v, recvmax=r.choice([None, 1, 3, 20]) if v == 5 and restless else None)
            c.connect()
            f = r.choice(["s/#", "s/1"])
            c.subscribe([(f, 2)])
            subs.append((c, f, restless))
        for c, f, restless in subs:
            st.spawn(st.subscriber, c, restless)
        work = [st.spawn(st.publisher, "pub%d" % k, r.choice([4, 5]), r.randrange(40, 120), ["s/1", "s/2"]) for k in range(r.choice([1, 2, 3, 4]))]
        for t in work:
            t.join(240)
        st.raise_errors()
        st.stop.set()
        st.join()
        for c, f, restless in subs:
            st.judge_subscriber(c, (lambda t: True) if f == "s/#" else (lambda t: t == "s/1"), not restless)
        for c, _, _ in subs:
            c.close()
        ctx.count("preemptions injected", st.yields.n)
        order = b"".join(g[0].split(b":")[0] for g in subs[0][0].got)
        ctx.case(("storm", len(subs), len(work), hashlib.blake2b(order, digest_size=6).hexdigest()))


scenario = mixed(backlog, backlog, outbound, flow, backlog, outbound, deep_window, storm, backlog)
