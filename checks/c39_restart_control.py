"""C39: the controller of the restart test keeps its clients in step"""
import heapq, itertools, logging, runpy, sys, time, types
from mon.sim import IOP

ID = "C39"
RULE = ("one evaluation = one run of the controller program, from its command line to its end, in a simulated world: a stand-in for the MQTT library carries its messages to "
        "scripted test clients and back on a virtual clock, which also its own waiting runs on; all messages are recorded and the order and the times of the controller's are "
        "judged by what the clients had said; distinct = (clients, kinds of clients, options, how the waiting for clients ended, number of iterations, waits that timed out)")
ASSUMPTIONS = ("clients repeat what they wait for until they get it, and answer every 'who is ready?', as those of the Paho clients do; client texts have the form id: text; "
               "waiting times of a minute for a phase and two for the clients, as in the program")
PLAN = {"quick": 6000, "thorough": 200000}
REACH = {"distinct": 900, "runs": 4000, "iterations": 8000, "phases begun with all clients": 14000, "phases begun after a minute": 800, "breaks": 3000, "without break": 1000,
         "answers given twice": 1500, "all answers heard": 2000, "not all clients came": 250, "messages of strangers": 20000, "ended by duration": 400}
PHASES = ["start_measuring", "start_test", "test finished"]


class End(BaseException):
    pass


class World:
    """virtual time, and the messages between the controller and its clients."""

    def __init__(self, r):
        self.r, self.t, self.q, self.n = r, r.uniform(1e6, 2e9), [], itertools.count()
        self.begin = self.t
        self.log, self.programs, self.mqtt = [], [], None

    def now(self):
        return self.t - self.begin

    def at(self, dt, fn):
        heapq.heappush(self.q, (self.t + dt, next(self.n), fn))

    def sleep(self, dt):
        end = self.t + dt
        while self.q and self.q[0][0] <= end:
            self.t, _, fn = heapq.heappop(self.q)
            fn()
        self.t = end
        if self.now() > 20000:
            raise End("has not ended after 20000 s")

    def latency(self):
        return self.r.choice([.001, .01, .05, .2, .3])

    def say(self, cid, text):
        """a client's message to the controller."""
        def arrive():
            if self.mqtt and self.mqtt.topics:
                self.log.append((self.now(), "in", cid, text))
                topic = self.mqtt.topics[0]
                m = types.SimpleNamespace(payload=("%s:%s%s" % (cid, self.r.choice(["", " "]), text)).encode(), topic=topic, qos=2, retain=False)
                self.mqtt.on_message(self.mqtt, None, m)
        self.at(self.latency(), arrive)


class Mqtt:
    """stands for the MQTT client of the controller."""
    world = None

    def __init__(self, *args, **kw):
        self.topics, self.open = [], False
        self.world.mqtt = self
        self.on_message = self.on_connect = self.on_publish = lambda *a: None

    def connect(self, host, port=1883, keepalive=60):
        self.world.log.append((self.world.now(), "connect", host, port))
        self.open = True

    def loop_start(self):
        self.world.at(self.world.latency(), lambda: self.on_connect(self, None, {}, 0))

    def loop_stop(self, *a):
        pass

    def subscribe(self, topic, qos=0):
        self.topics.append(topic)
        return (0, 1)

    def publish(self, topic, payload=None, qos=0, retain=False):
        w = self.world
        w.log.append((w.now(), "out" if self.open else "lost", topic, payload if isinstance(payload, str) else bytes(payload).decode()))
        if self.open:
            lat = w.latency()
            w.at(lat, lambda: self.on_publish(self, None, 1))
            for p in w.programs:
                w.at(w.latency(), lambda p=p: p.hear(topic, payload))
        return (0, 1)

    def disconnect(self):
        self.world.log.append((self.world.now(), "disconnect", "", ""))
        self.open = False


class Program:
    """a test client: what it does is a generator which waits for a message of the controller or a time."""

    def __init__(self, world, cid, topic, **how):
        self.w, self.cid, self.topic, self.how = world, cid, topic, how
        self.waiting, self.alarm, self.started = None, 0, False
        world.programs.append(self)
        world.at(how["start"], self.begin)

    def begin(self):
        self.started = True
        self.g = self.life()
        self.go(None)

    def go(self, x):
        try:
            what, arg = self.g.send(x)
        except StopIteration:
            self.g = self.waiting = None
            return
        self.alarm += 1
        if what == "sleep":
            self.waiting = None
            self.w.at(arg, lambda n=self.alarm: self.g and n == self.alarm and self.go(None))
        else:
            self.waiting = arg
            self.w.at(self.how["period"], lambda n=self.alarm: self.g and n == self.alarm and self.go(None))

    def hear(self, topic, text):
        if topic != self.topic or not self.started or not self.g:
            return
        if text == "who is ready?" and self.how.get("ready", True):
            for _ in range(self.how["answers"]):
                self.w.say(self.cid, "Ready")
        if text == "stop":
            self.g = None
        elif self.waiting and text in self.waiting:
            self.go(text)

    def wait_for(self, *texts):
        while True:
            if self.how.get("announces", True) or texts[0] != "who is ready?":
                self.w.say(self.cid, "waiting for: " + texts[0])
            x = yield ("wait", texts)
            if x:
                return x

    def life(self):
        r, how = self.w.r, self.how
        if how.get("ready", True):
            yield from self.wait_for("who is ready?")
        for k in itertools.count():
            for i, phase in enumerate(PHASES):
                if how["dies"] == (k, i):
                    return
                yield from self.wait_for(phase)
                yield ("sleep", r.uniform(0, how["work"]) + (how["long"] if r.random() < .15 else 0))
                if how.get("noise"):
                    self.w.say(self.cid, r.choice(["start_measuring", "test finished", "waiting for start_test", "waiting for: ", "stop", "ready", "waiting for: Ready"]))


def run(ctx, r, w, options, argv):
    paho = types.ModuleType("paho")
    paho.mqtt = types.ModuleType("paho.mqtt")
    paho.mqtt.client = types.ModuleType("paho.mqtt.client")
    paho.mqtt.client.Client = type("Client", (Mqtt,), {"world": w})
    clock = types.ModuleType("time")
    clock.__dict__.update({k: v for k, v in time.__dict__.items() if not k.startswith("__")})
    clock.time = clock.monotonic = clock.perf_counter = lambda: w.t
    clock.sleep = w.sleep
    mods = {"paho": paho, "paho.mqtt": paho.mqtt, "paho.mqtt.client": paho.mqtt.client, "time": clock}
    old = {k: sys.modules.get(k) for k in mods}
    argv0, end = sys.argv, None
    import random
    state = random.getstate()
    random.seed(r.random())
    logging.disable(logging.CRITICAL)
    sys.modules.update(mods)
    sys.argv = ["control"] + argv
    if IOP not in sys.path:
        sys.path.insert(0, IOP)
    try:
        runpy.run_module("mqtt.restart.control", run_name="__main__")
    except End as e:
        end = str(e)
    except SystemExit as e:
        end = "exit with status %s" % e.code if e.code else None
    except Exception as e:
        end = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = argv0
        random.setstate(state)
        logging.disable(logging.NOTSET)
        for k, m in old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m
    return end


def judge(ctx, w, end, o, clients):
    """the log against what a controller has to do."""
    E = ctx.expect
    tell = lambda: "\n".join("%8.2f %s %s %s" % x for x in w.log if x[1] != "in")[-1500:]
    base = o["control_topic"]
    E(end is None, lambda: "the controller ended with: %s" % end)
    E(("connect", o["host"], o["port"]) in [x[1:] for x in w.log], "connected elsewhere")
    E(w.mqtt.topics == [base + "/receive"], lambda: "subscribed to %s" % w.mqtt.topics)
    out = [(t, topic, m) for t, k, topic, m in w.log if k in ("out", "lost")]
    E(not any(k == "lost" for _, k, _, _ in w.log), "published after the end of its connection")
    heard = [(t, cid, text) for t, k, cid, text in w.log if k == "in"]
    for _, topic, m in out:
        E(topic == base + "/send" or (topic == "Eclipse/Paho/restart_test/proxy_control/receive" and m == "break"), lambda: "message %r to topic %r" % (m, topic))
    k = 0
    while k < len(out) and out[k][2] == "who is ready?":
        k += 1
    E(k > 0, lambda: "the first message is not 'who is ready?'\n" + tell())
    for a, b in zip(out[:k], out[1:k] + [(out[k][0],)] if k < len(out) else out[1:k]):
        E(b[0] - a[0] < 12, lambda: "%.1f s without asking who is ready" % (b[0] - a[0]))
    E(k < len(out), "nothing after asking who is ready")
    t, _, m = out[k]
    n = o["no_clients"]
    ready, taken = set(), {}
    for s, cid, text in heard:
        if text == "Ready" and s <= t:
            ready.add(cid)
            # when it asks again it forgets what has just come: then an answer may be lost
            if not any(s <= x < s + .8 for x, _, _ in out[:k + (m != "continue")]):
                taken.setdefault(cid, s)
    taken = sorted((s, cid) for cid, s in taken.items())
    waited = t - out[0][0]
    if m == "continue":
        E(len(ready) >= n, lambda: "began with %d of %d clients, %s\n%s" % (len(ready), n, sorted(ready), tell()))
        sure, maybe = ready, set()
        if n and len(taken) >= n:
            E(t - taken[n - 1][0] < 1.5, lambda: "began %.1f s after the last client was ready" % (t - taken[n - 1][0]))
            ctx.count("all answers heard")
        ctx.count("clients ready")
    else:
        E(m == "restart", lambda: "sent %r instead of continue or restart" % m)
        E(120 <= waited <= 136, lambda: "gave up after %.1f s" % waited)
        E(len(taken) < n, lambda: "gave up though %d clients were ready" % n)
        sure = {c for s, c in taken}
        maybe = ready - sure
        ctx.count("not all clients came")
    begin, k, count, breaks, timeouts, over = t, k + 1, 0, 0, 0, None
    while k < len(out) and out[k][2] != "stop":
        for i, phase in enumerate(PHASES):
            E(k < len(out), "ends in the middle of an iteration")
            t0 = out[k - 1][0]
            if i == 2:
                if out[k][2] == "break":
                    d = out[k][0] - t0
                    E(o["max"] >= 1, "a break was not asked for")
                    E(.5 <= d <= 6, lambda: "break %.1f s after the start of the test" % d)
                    breaks += 1
                    k += 1
                    E(k < len(out), "ends after a break")
                else:
                    E(o["min"] == 0, lambda: "no break\n" + tell())
                    ctx.count("without break")
            t, topic, m = out[k]
            E(m == phase and topic == base + "/send", lambda: "%r when %r is due\n%s" % (m, phase, tell()))
            text = "waiting for: " + phase
            said = {c: [s for s, cid, x in heard if cid == c and x == text and t0 < s <= t] for c in sure | maybe}
            full = all(said[c] for c in sure)
            E(full or t - t0 >= 60, lambda: "%r %.1f s after the one before, when %s had not said that they wait for it" % (phase, t - t0, [c for c in sure if not said[c]]))
            start = out[k - 1][0] + (6.5 if i == 2 and out[k - 1][2] != "break" else 1.3)
            after = [[s for s in said[c] if s >= start] for c in said]
            if all(after) and after:
                last = max(min(x) for x in after)
                E(t - last <= 1.5, lambda: "%r only %.1f s after all clients wait for it" % (phase, t - last))
            E(t - start <= 62.5, lambda: "%r after %.1f s" % (phase, t - t0))
            if not sure | maybe:
                E(t - start <= 1.5, "waits for clients which there are not")
            ctx.count("phases begun with all clients" if full else "phases begun after a minute")
            timeouts += not full
            k += 1
        count += 1
        E(o["iterations"] == 0 or count <= o["iterations"], lambda: "%d iterations of %d" % (count, o["iterations"]))
        over = out[k - 1][0] - begin
        if k < len(out) and out[k][2] != "stop" and o["duration"]:
            E(over <= o["duration"] + 2, lambda: "begins an iteration after %.1f s of %d" % (over, o["duration"]))
    E(k == len(out) - 1 and out[k][2] == "stop", lambda: "the clients are not told to stop at the end, once\n" + tell())
    E(count > 0, "no iteration")
    if count != o["iterations"]:
        E(o["duration"] and over > o["duration"] - 2, lambda: "ended after %d iterations of %d, %.1f s of %d" % (count, o["iterations"], over, o["duration"]))
        ctx.count("ended by duration")
    if o["min"] == 1:
        E(breaks == count, lambda: "%d breaks in %d iterations" % (breaks, count))
    E([x[1] for x in w.log if x[1] in ("connect", "disconnect")] == ["connect", "disconnect"], "connection not ended, or several")
    ctx.count("iterations", count)
    ctx.count("breaks", breaks)
    return count, timeouts, len(sure)


def scenario(r, ctx, idx):
    w = World(r)
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    o = {"no_clients": 1, "iterations": 1, "duration": 3600, "min": 1, "max": 1, "control_topic": "Eclipse/Paho/restart_test/control", "host": "localhost", "port": 7777}
    argv = []

    def option(name, value, key=None):
        o[key or name] = value
        argv.extend(r.choice([["--%s=%s" % (name, value)], ["--%s" % name, str(value)]]))
    if n != 1 or r.random() < .5:
        option("no_clients", n)
    if r.random() < .8:
        option("iterations", r.choice([0, 1, 2, 3, 5]))
    if o["iterations"] == 0 or r.random() < .3:
        option("duration", r.choice([5, 30, 100, 200]))
    if r.random() < .5:
        option("stoptypemin", 0, "min")
        if r.random() < .4:
            option("stoptypemax", 0, "max")
    if r.random() < .3:
        option("control_topic", r.choice(["a", "x/y", "ctl topic"]))
    if r.random() < .2:
        argv.append("--verbose")
    if r.random() < .2:
        option("control_connection", "10.0.0.1:1999")
        o["host"], o["port"] = "10.0.0.1", 1999
    if r.random() < .2:
        option("clientid", "someone")
    topic = o["control_topic"] + "/send"
    kinds = []
    bad = r.random() < .35
    for i in range(n):
        how = {"start": r.choice([-1, r.uniform(0, 3), r.uniform(0, 40)]), "period": r.choice([.3, 1, 2, 3]), "answers": r.choice([1, 1, 1, 2, 3]), "dies": None,
               "work": r.choice([.1, 2, 8]), "long": 0, "announces": r.random() < .7, "noise": r.random() < .3}
        how["start"] = max(0, how["start"])
        if bad and r.random() < .6:
            k = r.choice(["absent", "late", "dies", "slow"])
            if k == "absent":
                how["start"] = 1e9
            elif k == "late":
                how["start"] = r.uniform(60, 180)
            elif k == "dies":
                how["dies"] = (r.choice([0, 0, 1, 2]), r.randrange(3))
            else:
                how["long"] = r.choice([20, 50, 70, 150])
            kinds.append(k)
        elif how["answers"] > 1:
            kinds.append("twice")
            ctx.count("answers given twice")
        Program(w, "client %d" % i if r.random() < .2 else "c%d" % i, topic, **how)
    strangers = r.choice([0, 0, 1, 2])
    for i in range(strangers):
        Program(w, "s%d" % i, topic, start=r.uniform(0, 20), period=r.choice([.5, 1]), answers=0, dies=None, work=1, long=0, ready=False, noise=True)
    end = run(ctx, r, w, o, argv)
    ctx.count("messages of strangers", sum(1 for x in w.log if x[1] == "in" and x[2].startswith("s")))
    ctx.log = w.log
    count, timeouts, sure = judge(ctx, w, end, o, n)
    ctx.count("runs")
    ctx.case((n, sure, tuple(sorted(kinds)), strangers, o["min"], o["max"], min(count, 4), min(timeouts, 4)))
