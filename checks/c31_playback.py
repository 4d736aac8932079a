"""C31: playback of recorded tests by the model-based tester."""
import time
from mon import modeltest as T

ID = "C31"
RULE = ("tests recorded by the real explorer from random models (results that are opaque objects, used again in later calls, alone and inside observed events) are "
        "replayed by the real playback against an implementation that conforms, with the same or other object identities and with early or late events, and against "
        "ones that deviate in one result, exception or event; every call it makes is compared with the recording, and its verdict with the truth; "
        "distinct = (kind of deviation, shape of the recording)")
ASSUMPTIONS = ["results and events have one-line texts, which are distinct for distinct objects", "the waiting time for events is shortened by replacing time.sleep in the module"]
PLAN = {"quick": 500, "thorough": 8000}
REACH = {"distinct": 200, "calls replayed": 8000, "conforming replays": 400, "deviating replays": 400, "calls with a substituted result": 1000}
M = None


class Fast:
    def __getattr__(self, n):
        return getattr(time, n)

    @staticmethod
    def sleep(s):
        time.sleep(s * .02)


def setup(ctx):
    global M
    M = T.load()
    M.time = Fast()


def scenario(r, ctx, idx):
    spec = T.Spec(r, objects=r.random() < .8)
    spec.depth = r.randrange(1, 9)
    if r.random() < .7:
        # results are used again and again
        rets = list(dict.fromkeys([a[2] for a in spec.actions if a[2] in spec.rets]))
        for t in rets:
            spec.maxobjects[t] = r.randrange(2, 6)
            spec.actions.append(("take" + t, [("p%d" % j, t) for j in range(r.randrange(1, 4))], r.choice([None, t]), []))
    live, lines, ex = T.explore(r, ctx, spec, M, limit=r.choice([3, 10, 40, 120]), select=True)
    if not live.calls:
        return
    calls = live.calls
    restarts, n = [], 0
    for x in lines:
        if x == "RESTART":
            n += 1
        elif x.startswith("CALL"):
            restarts.append(n)
    with open("rec%d" % (idx % 4), "w") as f:
        if r.random() < .5:
            f.write("[MQTT-4.7.3-2] topic names and filters not include null\n")
        for x in lines:
            f.write(x + ("" if x.endswith("\n") else "\n"))
    name = f.name
    good = sum(1 for x in lines if x.startswith(("RESULT", "OBSERVED")))
    late = r.random() < .15 and good < 30
    shape = (len(calls) // 4, n, spec.observing, bool(spec.evpool), any(isinstance(v, T.Obj) for c in calls for v in c[1].values()))

    for by in (0, r.choice([1, 10, 100])):
        m, raised, said = T.replay(r, ctx, spec, M, name, calls, restarts, by, late=late, callback=r.random() < .5)
        what = "conforming replay (objects renumbered by %d)" % by
        ctx.expect(raised is None, lambda: "%s raised %r" % (what, raised))
        ctx.expect(m.verdict is None, lambda: "%s: %s" % (what, m.verdict))
        ctx.expect(m.n == len(calls), lambda: "%s made %d of %d calls" % (what, m.n, len(calls)))
        ctx.expect(m.restarts == n, lambda: "%s restarted %d times instead of %d" % (what, m.restarts, n))
        ctx.expect(m.test.failures == 0 and " successful" in said, lambda: "%s is reported as %r with %d failures" % (what, said, m.test.failures))
        ctx.expect(m.test.passes == good, lambda: "%s passes %d of %d results and events" % (what, m.test.passes, good))
        ctx.count("conforming replays")
        ctx.count("calls replayed", m.n)
        ctx.count("calls with a substituted result", sum(1 for c in calls if any(isinstance(v, T.Obj) for v in c[1].values())))
        ctx.case(("same", by > 0, late) + shape, "%d calls, %d restarts, %d results and events agree" % (len(calls), n, good))
    devs = []
    for k, (a, kw, how, val, obs) in enumerate(calls):
        for j in range(len(obs)):
            if [o for o in obs].count(obs[j]) == 1:
                devs += [("miss", k, j), ("alter", k, j)]
                before = [i for i in range(k) if restarts[i] < restarts[k]]
                if before:
                    devs.append(("stale", k, j, before[-1]))        # it came too early, before the restart
        if how == "exc":
            devs.append(("noraise", k, r.choice([None, 4, T.Obj("obj", 99)])))
        else:
            devs.append(("raise", k))
            if val is not None:
                devs.append(("value", k, r.choice([x for x in (None, 4, "other", T.Obj("obj", 99), (9,)) if x != val])))
    for d in r.sample(devs, min(3, len(devs))):
        by = r.choice([0, 50])
        if late and d[0] in ("miss", "alter", "stale"):
            continue
        m, raised, said = T.replay(r, ctx, spec, M, name, calls, restarts, by, d, callback=r.random() < .5)
        what = "replay that deviates at call %d (%s %r)" % (d[1], d[0], d[2:])
        ctx.expect(m.verdict is None, lambda: "%s: %s" % (what, m.verdict))
        ctx.expect(raised is not None or m.test.failures > 0, lambda: "%s is reported as %r" % (what, said))
        ctx.expect(" successful" not in said, lambda: "%s is reported as %r" % (what, said))
        ctx.count("deviating replays")
        ctx.count("deviation " + d[0])
        ctx.case((d[0], by > 0) + shape, "%s: %s" % (what, raised or said))

