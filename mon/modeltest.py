"""Random models for the model-based tester (mbt): generation, an independent enumeration of what exploration may and
must do, and implementations for playback that conform or deviate."""
import collections, logging, os, random, sys
from . import repofmt
from .runner import Violation


class Stop(Exception):
    """how a model action ends a path."""


class Obj:
    """an opaque result; two models number them differently."""

    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def __repr__(self):
        return "<%s %d>" % (self.kind, self.n) if self.kind != "h" else "h%d" % self.n

    def __eq__(self, o):
        return isinstance(o, Obj) and (self.kind, self.n) == (o.kind, o.n)

    def __hash__(self):
        return hash((self.kind, self.n))

    def __deepcopy__(self, memo):
        return self


def load():
    repofmt.load()
    from mbt import main
    logging.getLogger("mbt-test").handlers = [h for h in logging.getLogger("mbt-test").handlers if isinstance(h, logging.FileHandler)]
    return main


class Spec:
    """a random model: actions with typed parameters, pools of values, and a deterministic behaviour."""

    def __init__(self, r, objects=False):
        self.r = r
        self.depth = r.randrange(1, 5)
        self.salt = r.random()
        self.types = ["t%d" % k for k in range(r.randrange(1, 4))]
        self.pools = {}
        for t in self.types:
            n = r.randrange(1, 4)
            vals = r.sample([0, 1, 7, "a", "b c", b"x", (1, 2), "it's"], n)
            if r.random() < .2:
                vals.append(vals[-1])          # equal choices next to each other
            self.pools[t] = vals
        self.rets = ["r%d" % k for k in range(r.randrange(0, 3))]
        self.maxobjects = {t: r.randrange(1, 4) for t in self.rets if r.random() < .7}
        if r.random() < .2 and self.rets:
            # a result may also go into a pool which is declared, and is full or not
            t = r.choice(self.types)
            self.rets.append(t)
        self.actions = []
        for k in range(r.randrange(1, 5)):
            n = r.choice([0, 1, 1, 2, 2, 3])
            parms = [("p%d" % j, r.choice(self.types + self.rets)) for j in range(n)]
            ret = r.choice(self.rets + [None]) if self.rets else None
            fin = [p for p, t in parms if r.random() < .3]
            self.actions.append(("act%d" % k, parms, ret, fin))
        self.objects = objects
        self.observing = r.random() < .5
        self.evpool = "events" if self.observing and r.random() < .6 else None     # observed events feed later calls
        if self.evpool:
            self.actions.append(("use", [("e", "events")] + [("p0", r.choice(self.types))] * r.randrange(2), None, ["e"]))

    def empty_first(self):
        return not any(self.pools.values())

    def behave(self, path, name, kwargs, ret):
        """(observations, 'exc' or 'val', result) as a function of what happened since the start."""
        h = random.Random(repr((self.salt, path, name, sorted(kwargs.items(), key=repr))))
        obs = []
        if self.observing and h.random() < .4:
            who = [v for k, v in sorted(kwargs.items()) if isinstance(v, Obj)] or ["ev"]
            obs = [(h.choice(who), "pkt%d" % h.randrange(3)) for _ in range(h.randrange(1, 3))]
        if len(path) + 1 >= self.depth or h.random() < .1:
            return obs, "exc", None
        if ret is None:
            return obs, "val", h.choice([None, None, 3, "text"])
        x = h.random()
        if x < .15:
            return obs, "val", None
        if self.objects or x < .7:
            return obs, "val", Obj("obj" if h.random() < .6 else "h", h.choice([1, 1, 2, 10, 11, 12, 110]))
        return obs, "val", h.choice([5, "v", (2, "w")])

    # ---- the specification of exploration
    def start(self):
        pools = {t: list(v) for t, v in self.pools.items()}
        for name, parms, ret, fin in self.actions:
            if ret:
                pools.setdefault(ret, [])
        if self.evpool:
            pools.setdefault(self.evpool, [])
        return pools

    def enabled(self, pools):
        out = []
        for a in self.actions:
            name, parms, ret, fin = a
            if all(pools.get(t) for p, t in parms) and (ret is None or len(pools[ret]) < self.maxobjects.get(ret, 1)):
                out.append(a)
        return out

    def after(self, pools, action, kwargs, val, obs=()):
        name, parms, ret, fin = action
        pools = {t: list(v) for t, v in pools.items()}
        if self.evpool:
            pools[self.evpool] += obs
        if val is not None and ret and val not in pools[ret]:
            pools[ret].append(val)
        for p, t in parms:
            if p in fin:
                pools[t] = [v for v in pools[t] if v != kwargs[p]]
        return pools

    def paths(self, limit):
        """multiset of all maximal paths, or None when there are more than limit."""
        out = collections.Counter()
        count = [0]

        def key(kwargs):
            return tuple(sorted(kwargs.items()))

        def walk(path, pools, text):
            count[0] += 1
            if count[0] > limit:
                return False
            any_ = False
            for a in self.enabled(pools):
                name, parms, ret, fin = a
                combos = [{}]
                for p, t in parms:
                    combos = [dict(c, **{p: v}) for c in combos for v in pools[t]]
                for kw in combos:
                    any_ = True
                    obs, how, val = self.behave(path, name, kw, ret)
                    step = (name, repr(key_(kw)))
                    if how == "exc":
                        out[tuple(text + [step])] += 1
                        count[0] += 1
                    elif not walk(path + ((name, key_(kw)),), self.after(pools, a, kw, val, obs), text + [step]):
                        return False
            if not any_ and text:
                out[tuple(text)] += 1
            return count[0] <= limit

        def key_(kw):
            return tuple(sorted(kw.items()))
        return out if walk((), self.start(), []) else None


def key_(kw):
    return tuple(sorted(kw.items()))


class Live:
    """the same model handed to the real explorer, every call logged by the action itself."""

    def __init__(self, spec, M, ctx, shift=0):
        self.spec, self.M, self.ctx = spec, M, ctx
        self.path, self.events = (), []
        self.model = M.Models()
        for t, v in spec.pools.items():
            self.model.addChoice(t, v)
        self.fns = {}
        for a in spec.actions:
            fn = self.make(a)
            self.fns[a[0]] = fn
            self.model.addAction(fn)
            for p in a[3]:
                self.model.finishedWith(fn, p)
        if spec.evpool:
            self.model.addReturnType(spec.evpool)
        self.model.maxobjects.update(spec.maxobjects)
        self.model.restartCallback = self.restarted
        self.restarts = 0
        self.paths = collections.Counter()
        self.text = []
        self.ex = None

    def make(self, a):
        name, parms, ret, fin = a

        def fn(**kw):
            return self.called(a, kw)
        fn.__name__ = name
        fn.__annotations__ = dict(parms)
        if ret:
            fn.__annotations__["return"] = ret
        return fn

    def called(self, a, kw):
        name, parms, ret, fin = a
        self.events.append("CALL %s with %s" % (name, kw))
        if set(kw) != {p for p, t in parms}:
            raise SystemExit("never")
        obs, how, val = self.spec.behave(self.path, name, kw, ret)
        self.text.append((name, repr(key_(kw))))
        self.calls.append((a, dict(kw), how, val, obs))
        self.path += ((name, key_(kw)),)
        for o in obs:
            self.events.append("OBSERVED EVENT %s" % (o,))
            self.ex.addObservation(o)
            if self.spec.evpool:
                self.ex.pools[self.spec.evpool].append(self.M.Choices(o))
        if how == "exc":
            raise Stop("end")
        if val is not None:
            self.events.append("RESULT from %s is %s" % (name, val))
        return val

    def restarted(self):
        self.restarts += 1
        if self.text:
            self.paths[tuple(self.text)] += 1
        self.text, self.path = [], ()


class Listen(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.INFO)
        self.lines = []

    def emit(self, rec):
        self.lines.append(rec.getMessage())


def explore(r, ctx, spec, M, select=None, limit=12000):
    """run the real explorer until it says that nothing is left; every step is judged."""
    live = Live(spec, M, ctx)
    live.calls = []
    log = logging.getLogger("mbt")
    ear = Listen()
    log.handlers = [ear]
    log.propagate = False
    offered = []
    if select:
        def choose(frees):
            pick = r.sample(frees, r.randrange(0 if r.random() < .1 else 1, len(frees) + 1))
            offered.append((list(frees), list(pick)))
            return pick
        live.model.selectCallback = choose
    ex = M.Executions(live.model)
    live.ex = ex
    pools = spec.start()
    recorded = []
    nothing = 0
    for n in range(limit):
        before, restarts, k = len(live.calls), live.restarts, len(ear.lines)
        try:
            ended = ex.step()
        except Exception as e:
            raise Violation("step() raised %s: %s; model %s, pools %s" % (type(e).__name__, e, describe(spec), pools))
        new = live.calls[before:]
        ctx.expect(len(new) <= 1, "one step made %d calls" % len(new))
        lines = ear.lines[k:]
        if new:
            a, kw, how, val, obs = new[0]
            ctx.count("calls")
            ctx.expect(a in spec.enabled(pools), lambda: "%s was called though it is not enabled with pools %s" % (a[0], pools))
            for p, t in a[1]:
                ctx.expect(kw[p] in pools[t], lambda: "%s was called with %s=%r, which is not in %s" % (a[0], p, kw[p], pools[t]))
            if select:
                frees, pick = offered[-1]
                names = [f[0].getName() for f in pick]
                ctx.expect(a[0] in names, lambda: "%s was called, the selection allowed %s" % (a[0], names))
            # the record
            want = list(live.events)
            got = [x if not x.startswith("RESULT from %s is exception" % a[0]) else "EXC" for x in lines]
            if how == "exc":
                want += ["EXC", "RESTART"]
            ctx.expect(got == want, lambda: "recorded %r, what happened was %r" % (got, want))
            ctx.expect(bool(ended) == (how == "exc"), "step() returned %r after a call that %s" % (ended, "raised" if how == "exc" else "returned"))
            live.events = []
            if how == "exc":
                ctx.expect(live.restarts == restarts + 1, "an exception did not restart the model")
                pools = spec.start()
            else:
                pools = spec.after(pools, a, kw, val, obs)
            recorded += lines
            nothing = 0
        else:
            ctx.expect(ended, "step() made no call and does not say so")
            top = not live.path and live.restarts == restarts
            recorded += lines
            if live.restarts == restarts:
                ex.restart()
                recorded += ear.lines[k + len(lines):]
            pools = spec.start()
            live.events = []
            nothing += 1
            if top and not select or nothing > 3:
                break
    ctx.expect(n < limit - 1 or select, "exploration goes on for ever")
    return live, recorded, ex


def describe(spec):
    return "actions %s pools %s maxobjects %s" % (spec.actions, spec.pools, spec.maxobjects)


# ---------------------------------------------------------------- playback
def shifted(x, by):
    if isinstance(x, Obj):
        return Obj(x.kind, x.n + by)
    if isinstance(x, tuple):
        return tuple(shifted(y, by) for y in x)
    return x


class Replay:
    """an implementation that does what the recording says, but for one deviation; judges the calls it gets."""

    def __init__(self, r, ctx, spec, M, calls, restarts, by, deviation=None):
        self.ctx, self.spec, self.M, self.calls, self.by, self.deviation = ctx, spec, M, calls, by, deviation
        self.n, self.restarts = 0, 0
        self.want_restarts = restarts
        self.model = M.Models()
        for a in spec.actions:
            self.model.addAction(self.make(a))
        self.model.restartCallback = self.restarted
        self.exact = True

    def make(self, a):
        def fn(**kw):
            return self.called(a, kw)
        fn.__name__ = a[0]
        fn.__annotations__ = dict(a[1])
        if a[2]:
            fn.__annotations__["return"] = a[2]
        return fn

    def restarted(self):
        self.restarts += 1

    def called(self, a, kw):
        k = self.n
        self.n += 1
        d = self.deviation if self.deviation and self.deviation[1] == k else None
        if not self.deviation or k <= self.deviation[1]:
            self.bad = None
            if k >= len(self.calls):
                self.bad = "call number %d, only %d were recorded" % (k, len(self.calls))
            else:
                ra, rkw, how, val, obs = self.calls[k]
                want = {p: shifted(v, self.by) for p, v in rkw.items()}
                if ra[0] != a[0] or want != kw:
                    self.bad = "call number %d is %s with %r, recorded is %s with %r" % (k, a[0], kw, ra[0], want)
                elif self.restarts != self.want_restarts[k]:
                    self.bad = "call number %d comes after %d restarts, recorded after %d" % (k, self.restarts, self.want_restarts[k])
            if self.bad:
                self.verdict = self.verdict or self.bad
        elif k >= len(self.calls):
            return None
        ra, rkw, how, val, obs = self.calls[k]
        obs = [shifted(o, self.by) for o in obs]
        val = shifted(val, self.by)
        if d:
            if d[0] == "miss":
                del obs[d[2]]
            elif d[0] == "stale":
                del obs[d[2]]
            elif d[0] == "alter":
                obs[d[2]] = (obs[d[2]][0], "other")
            elif d[0] == "value":
                val = d[2]
            elif d[0] == "raise":
                how = "exc"
            elif d[0] == "noraise":
                how, val = "val", d[2]
        if self.deviation and self.deviation[0] == "stale" and self.deviation[3] == k:
            obs.append(shifted(self.calls[self.deviation[1]][4][self.deviation[2]], self.by))
        for o in obs:
            if self.late:
                import threading
                threading.Timer(.03, self.test.addResult, [o]).start()
            else:
                self.test.addResult(o)
        if how == "exc":
            raise Stop("end")
        return val


def replay(r, ctx, spec, M, filename, calls, restarts, by, deviation=None, late=False, callback=False):
    m = Replay(r, ctx, spec, M, calls, restarts, by, deviation)
    m.verdict, m.late = None, late

    def check(rc, text):
        if isinstance(rc, str) and rc.startswith("exception"):
            return text.startswith("exception")
        return str(shifted(rc, -by)) == text
    checks = {"exception": lambda rc, text: text.startswith("exception")}
    if by:
        for t in spec.rets:
            checks[t] = check
    match = None
    if callback:
        match = lambda ob, results: ob if ob in [x for x, y in results] else None
    m.test = M.Tests(m.model, filename, checks, observationMatchCallback=match)
    raised = None
    ear = Listen()
    m.test.logger.addHandler(ear)
    try:
        m.test.run(stepping=False)
    except Exception as e:
        raised = e
    finally:
        m.test.logger.removeHandler(ear)
    said = [x for x in ear.lines if x.startswith("Test ")]
    return m, raised, said[-1] if said else ""
