"""C26: concurrent clients are handled as if one at a time"""
import collections
from mon import wire as W
from mon.sim import Sim
from mon.storm import Storm, WAIT
from mon.clock import real_monotonic, real_sleep
from mon.runner import Violation

ID = "C26"
RULE = ("one evaluation = one storm: 8-14 clients with a thread each against the real threaded broker, whose threads are made to yield at random "
        "inside their critical sections; the clients' logs are judged offline (exactly once, order, state that remains, wills once, one owner per "
        "identifier, answers to all). distinct = (shape of the storm, hash of the order in which two publishers' messages interleaved)")
ASSUMPTIONS = "threads yield where the broker logs and where the interpreter switches (every 0.2 ms); a faulty interleaving that needs a switch elsewhere is met only by chance"
PLAN = {"quick": 48, "thorough": 3000}
BUDGET = {"quick": 40, "thorough": 600}
REACH = {"distinct": 20, "preemptions injected": 1500, "deliveries in storms": 5000, "wills judged": 20}
TOPICS = ["s/1", "s/2", "s/3"]
RET = ["r/1", "r/2"]
CFG = ["receive_maximum 50", "maximum_packet_size 10000", "topic_alias_maximum 5"]


def match(f):
    return lambda t: f == "#" or t == f or (f.endswith("/#") and t.startswith(f[:-1]))


def storm(r, ctx, n):
    sim = ctx.sim = Sim(config=CFG)
    with Storm(r, ctx, sim, rate=r.choice([.01, .03, .08]), lines=r.random() < .5) as st:
        subs = []
        for k in range(r.choice([2, 3])):
            f = r.choice(["s/#", "s/1", "s/2"])
            v = r.choice([4, 5])
            restless = k > 0 and r.random() < .7
            c = st.peer("sub%d" % k, v, recvmax=r.choice([None, 3, 20]) if v == 5 and restless else None)
            c.connect()
            c.subscribe([(f, 2)])
            subs.append((c, f, restless))
        watch = st.peer("watch", 5)
        watch.connect()
        watch.subscribe([("w/#", 2)])
        subs1 = [st.spawn(st.subscriber, c, restless) for c, f, restless in subs] + [st.spawn(st.subscriber, watch, False)]
        work = []
        npub = r.choice([2, 3])
        for k in range(npub):
            work.append(st.spawn(st.publisher, "pub%d" % k, r.choice([4, 5]), r.randrange(40, 120), TOPICS, RET))
        churn = []
        for k in range(r.choice([1, 2, 3])):
            c = st.peer("churn%d" % k, r.choice([4, 5]))
            churn.append(c)
            work.append(st.spawn(st.churner, c, ["p/%d" % i for i in range(6)], r.randrange(30, 80)))
        ends = []
        for k in range(r.choice([0, 2, 3])):
            work.append(st.spawn(st.rivals, "rival", 5, r.randrange(8, 25), ends))
        if r.random() < .7:
            work.append(st.spawn(st.vandal, r.randrange(10, 40)))
        swills = []
        if r.random() < .6:
            subs1.append(st.spawn(st.timekeeper))
            for k in range(r.choice([1, 2])):
                work.append(st.spawn(st.sleepers, "sleep%d" % k, r.randrange(10, 30), swills))
        for t in work:
            t.join(240)
        st.raise_errors()
        st.stop.set()
        st.join()
        for c, f, restless in subs:
            st.judge_subscriber(c, match(f), not restless)
        st.judge_retained(RET)
        for c in churn:
            st.judge_subs(c, ["p/%d" % i for i in range(6)])
        sim.advance(5.0, 1.0)       # the last of the delayed wills
        watch.quiet()
        for c in churn:
            st.judge_wills(c.wills, watch)
        st.judge_wills(swills, watch)
        judge_rivals(st, ctx, ends)
        ctx.count("preemptions injected", st.yields.n)
        ctx.count("packets received by clients", st.events)
        ctx.count("duplicates of QoS 2 messages recognised", sum(c.dups for c, _, _ in subs))
        order = [g[0].split(b":")[0] for g in subs[0][0].got]
        ctx.case((len(subs), npub, len(churn), len(ends) > 0, hash_(order)),
                 "%d subscribers, %d publishers, %d churning sessions, %d rival connections, %d messages" % (len(subs), npub, len(churn), len(ends), len(st.sent)))
        for c in [x[0] for x in subs] + churn + [watch]:
            c.close()
        st.raise_errors()


def hash_(order):
    import hashlib
    return hashlib.blake2b(b"".join(order), digest_size=6).hexdigest()


def judge_rivals(st, ctx, ends):
    """of all connections of one identifier, at most one is open at the end, and it works."""
    if not ends:
        return
    end = real_monotonic() + WAIT
    while True:
        for c in ends:
            c.poll(0)
        up = [c for c in ends if c.alive]
        if len(up) <= 1 or real_monotonic() > end:
            break
        real_sleep(.01)
    if len(up) > 1:
        raise Violation("%d connections of one client identifier are open at the same time" % len(up))
    if not up:
        raise Violation("none of the connections of the client identifier survived, though none of its owners gave up")
    up[0].ping()
    for c in ends:
        c.close()
    ctx.count("rivalries judged")
    ctx.count("takeovers in storms", len(ends) - 1)


scenario = storm
