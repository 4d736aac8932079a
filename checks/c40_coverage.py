"""C40: the coverage report counts what was exercised"""
import ast, glob, logging, os, re, sys, threading
from mon import wire as W
from mon.drive import Drive, TOPICS, FILTERS
from mon.sim import IOP, load
from mon.suite import *

ID = "C40"
RULE = ("one evaluation = one sequence of log records through the real filter on a logger, judged record by record and report by report by a set of the statements seen, or "
        "one history of MQTT 5 clients on the live broker with all its log records observed before and after the filter; distinct = the sequence's shape (which kinds, "
        "how many known, repeated and unknown statements) or the number of statements exercised")
ASSUMPTIONS = ("known are the statements in the sources of the MQTT 5 broker and of the formats; the statement of a record is its first one; a statement's record passes the filter "
               "at its first occurrence; log records are well formed")
PLAN = {"quick": 320, "thorough": 8000}
REACH = {"distinct": 150, "records": 20000, "reports": 600, "statements exercised by brokers": 2000, "repeated statements": 5000, "unknown statements": 2000, "ordinary records": 5000,
         "concurrent records": 3000}
TAG = re.compile(r"\[MQTT\d?-")


def known():
    """statements in the sources, by kind."""
    ex, co = set(), set()
    for fn in [x for p in ("mqtt/brokers/V5/*.py", "mqtt/formats/MQTTV311/*.py", "mqtt/formats/MQTTV5/*.py") for x in glob.glob(os.path.join(IOP, p))]:
        for line in open(fn, encoding="utf-8"):
            s = statement(line.strip())
            if s and TAG.match(s):
                (ex if line.strip().startswith(("assert", "raise")) else co).add(s)
    return {"exceptions": ex, "coverage statements": co}


def statement(text):
    i = text.find("[MQTT")
    if i < 0:
        return None
    j = text.find("]", i)
    return text[i:j + 1] if j >= 0 else text[i:] + "]"


def report(ctx, lines, seen, want):
    """judge the text of a summary."""
    sets, figures = {}, {}
    for line in lines:
        m = re.match(r"(exceptions|coverage statements) (found|not found) (.*)$", line, re.S)
        if m:
            v = set() if m.group(3) == "set()" else ast.literal_eval(m.group(3))
            sets[m.group(1), m.group(2)] = v
            continue
        m = re.match(r"(exceptions|coverage statements) (\d+) out of (\d+) = (\d+)%$", line)
        ctx.expect(m, lambda: "the report contains the line %r" % line[:200])
        figures[m.group(1)] = tuple(int(x) for x in m.groups()[1:])
    for k in want:
        ctx.expect((k, "found") in sets and (k, "not found") in sets and k in figures, lambda: "the report says nothing of %s: %s" % (k, [x[:60] for x in lines]))
        f, n = ({x for x in sets[k, y] if TAG.match(x)} for y in ("found", "not found"))
        for x in sorted(f ^ (want[k] & seen))[:1]:
            ctx.fail("the statement %s %s reported as exercised among the %s" % (x, "was not exercised, but is" if x in f else "was exercised, but is not", k))
        for x in sorted(n ^ (want[k] - seen))[:1]:
            ctx.fail("the statement %s %s reported as not exercised among the %s" % (x, "was exercised or is unknown, but is" if x in n else "was not exercised, but is not", k))
        a, b, c = len(sets[k, "found"]), len(sets[k, "found"]) + len(sets[k, "not found"]), figures[k]
        ctx.expect(c == (a, b, a * 100 // b), lambda: "the figures for %s are %s, but %d of %d are reported as exercised" % (k, c, a, b))
    ctx.count("reports")


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, record):
        self.got.append(record)


def records(r, ctx):
    """random records through the filter."""
    load()
    from mqtt.brokers import coverage
    want = known()
    every = sorted(want["exceptions"] | want["coverage statements"])
    flt = type(coverage.filter)()
    log = logging.Logger("c40")
    log.addFilter(flt)
    h = Keep()
    log.addHandler(h)
    seen, kinds = set(), set()
    pool = r.sample(every, r.choice([1, 5, 20, len(every)]))
    for n in range(r.randrange(20, 200)):
        x = r.random()
        st = None
        if x < .3:
            msg, args = r.choice([("Starting communications for socket %d", (n,)), ("plain", ()), ("", ()), ("MQTT-3.1.0-1] no tag", ()), ("MQTT %s", ("[x]",)), ("%s", ("[MQT",)),
                                  ("[mqtt-1.2.3-4] lower case", ()), ("100%", ()), ("\u20ac [] ][", ()), ("%s", ({"a": 1},))])
            kinds.add("ordinary")
            ctx.count("ordinary records")
        elif x < .75:
            st = r.choice(pool)
            y = r.randrange(5)
            msg, args = [(st + " text", ()), (st, ()), ("before " + st + " after ] %d", (n,)), ("%s", (st + " as argument",)), (st + " and " + r.choice(every), ())][y]
            kinds.add("known%d" % y)
        else:
            st = r.choice(["[MQTT-9.9.%d-1]" % r.randrange(9), "[MQTT5-0.0.0-%d]" % r.randrange(9), "[MQTT-3.1.0-1 ]", "[MQTT-1.5.3-1x]", "[MQTT]"])
            msg, args = r.choice([(st + " x", ()), ("x " + st, ()), (st.rstrip("]"), ()) if r.random() < .3 else (st, ())])
            st = statement(msg)
            kinds.add("unknown")
            ctx.count("unknown statements")
        level = r.choice([logging.INFO, logging.INFO, logging.ERROR, logging.WARNING, logging.DEBUG])
        before = len(h.got)
        log.log(level, msg, *args)
        ctx.count("records")
        came = h.got[before:]
        if st is None or st not in seen:
            ctx.expect(len(came) == 1, lambda: "the record %r does not pass the filter" % (msg % args if args else msg))
            p = came[0]
            ctx.expect((p.msg, p.levelno) == (msg, level) and p.getMessage() == (msg % args if args else msg), lambda: "the record %r is altered to %r" % (msg, p.getMessage()))
        else:
            ctx.count("repeated statements")
            ctx.expect(len(came) <= 1, "a record passes the filter more than once")
        if st:
            seen.add(st)
        if r.random() < .02:
            report(ctx, flt.getmeasures(), seen, want)
    report(ctx, flt.getmeasures(), seen, want)
    before = len(h.got)
    flt.measure()      # to the broker's logger
    report(ctx, flt.getmeasures(), seen, want)
    for a in range(6):      # at the same time
        if r.random() < .3:
            many = [r.choice(every) for _ in range(200)]
            ts = [threading.Thread(target=lambda part: [log.info("%s x", s) for s in part], args=(many[k::4],)) for k in range(4)]
            for t in ts:
                t.start()
            lines = flt.getmeasures()
            for t in ts:
                t.join()
            seen.update(many)
            ctx.count("concurrent records", len(many))
            report(ctx, flt.getmeasures(), seen, want)
    ctx.case((tuple(sorted(kinds)), len(seen & set(every)), len(seen) // 4), "%d records, %d statements" % (n, len(seen)))


OBS = []
ALL = set()     # statements produced in this process


class Before(logging.Filter):
    def __init__(self):
        self.got = []
        self.passed = Keep()

    def filter(self, record):
        self.got.append(record.getMessage())
        s = statement(self.got[-1])
        if s:
            ALL.add(s)
        return True


def broker(r, ctx):
    """the records of the live broker."""
    ns = load()
    log = logging.getLogger("MQTT broker")
    if not OBS:     # stays, as threads of a broker may go on for a while
        OBS.append(Before())
        log.filters.insert(0, OBS[0])
        log.addHandler(OBS[0].passed)
    obs = OBS[0]
    obs.passed.got = []
    obs.got = []
    start = set(ALL)
    prof = dict(v5=1, steps=(15, 30), will=.3, retain=.3, share=.2, expiry=.2, manual=.3, dup=.2)
    d = Drive(r, ctx, prof)
    d.run()
    d.sim.stop()
    got = list(obs.got)
    passed = [x.getMessage() for x in obs.passed.got]
    new = set()
    todo = list(passed)
    for m in got:
        ctx.count("records")
        s = statement(m)
        if s is None or (s not in start and s not in new):
            if s:
                new.add(s)
            ctx.expect(m in todo, lambda: "the record %r of the broker does not pass the filter" % m)
            todo.remove(m)
    want = known()
    for s in sorted(new):
        ctx.expect(not TAG.match(s) or s in want["exceptions"] | want["coverage statements"], lambda: "the broker exercises %s, which no source contains" % s)
    ctx.count("statements exercised by brokers", len({statement(m) for m in got}) - 1)
    report(ctx, ns.start.measure(), set(ALL), want)
    ctx.case(("broker", len(new), len({statement(m) for m in got})), "history with %d statements" % len({statement(m) for m in got}))


def scenario(r, ctx, idx):
    (broker if idx % 8 == 7 else records)(r, ctx)
