"""Runs one property's check: forks workers, feeds them scenario indices, merges
what their monitors observed, writes evidence, decides the exit status."""
import os, sys, json, time, random, shutil, signal, tempfile, traceback, hashlib, importlib, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a short look at a (changed) copy: fewer scenarios, no evidence, no judgement of the reach
SCALE = float(os.environ.get("MON_SCALE", "0"))
_real_time = time.time
_real_mono = time.monotonic


class Violation(Exception):
    def __init__(self, what, key=None, detail=None):
        Exception.__init__(self, what)
        self.what, self.key, self.detail = what, key, detail


class Inconclusive(Exception):
    pass


class Ctx:
    """what one worker's monitors saw."""

    def __init__(self, tier, seed, known):
        self.tier, self.seed, self.known = tier, seed, known
        self.counts = collections.Counter()
        self.distinct = set()
        self.evals = 0
        self.samples = []
        self.violations = []
        self.findings = {}
        self.inconclusive = []
        self.sim = None

    def count(self, k, n=1):
        self.counts[k] += n

    def case(self, key, sample=None):
        """one evaluation; key identifies the distinct non-trivial situation (None = trivial)."""
        self.evals += 1
        if key is not None:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                if sample is not None and len(self.samples) < 4:
                    self.samples.append(sample if isinstance(sample, str) else repr(sample))

    def expect(self, cond, what, key=None, detail=None):
        self.counts["checks"] += 1
        if not cond:
            raise Violation(what() if callable(what) else what, key, detail)

    def fail(self, what, key=None, detail=None):
        raise Violation(what, key, detail)


def load_known(prop):
    """lines:  finding: property=<id> key=<key> <text>   |   fixed: property=<id> <commit> <text>"""
    known = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("finding:") and "property=%s " % prop in line:
                key = line.split(" key=", 1)[1].split(" ", 1)[0]
                known[key] = line.split(" key=", 1)[1].split(" ", 1)[1]
    except FileNotFoundError:
        pass
    return known


def rng_for(seed, prop, label):
    return random.Random("%s/%s/%s" % (seed, prop, label))


def run_one(mod, item, ctx, seed):
    kind, ref = item
    rng = rng_for(seed, mod.ID, "%s:%s" % (kind, ref))
    random.seed("%s/%s/%s:%s/lib" % (seed, mod.ID, kind, ref))
    ctx.sim = None
    try:
        if kind == "directed":
            fn = dict((f.__name__, f) for f in mod.DIRECTED + getattr(mod, "THOROUGH", []))[ref]
            fn(rng, ctx)
        else:
            mod.scenario(rng, ctx, ref)
        return None
    except Violation as v:
        what, key, detail = v.what, v.key, v.detail
    except Inconclusive as e:
        ctx.inconclusive.append("%s %s: %s" % (kind, ref, e))
        return None
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if type(e).__name__ == "HarnessError":
            ctx.inconclusive.append("%s %s: %s" % (kind, ref, e))
        else:
            ctx.inconclusive.append("%s %s: %s" % (kind, ref, traceback.format_exc()))
        return None
    finally:
        trace = None
        if ctx.sim is not None:
            try:
                trace = ctx.sim.dump()
            except Exception:
                trace = ["(trace unavailable) " + traceback.format_exc()]
            try:
                ctx.sim.stop()
            except Exception:
                pass
    if key is not None and key in ctx.known:
        ctx.findings[key] = what
        return None
    v = {"property": mod.ID, "kind": kind, "ref": ref, "seed": seed, "tier": ctx.tier, "what": what, "key": key,
         "detail": detail, "trace": trace}
    ctx.violations.append(v)
    return v


def worker(mod, items, k, tier, seed, out, scratch, known, budget, verbose=False):
    os.chdir(scratch)
    if not verbose:
        fd = os.open(os.path.join(scratch, "log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        # the code under test prints freely; keep the last part only
        os.dup2(fd, 1)
        os.dup2(fd, 2)
    ctx = Ctx(tier, seed, known)
    start = _real_mono()
    done = 0
    if hasattr(mod, "setup"):
        try:
            mod.setup(ctx)
        except Exception:
            ctx.inconclusive.append("setup: " + traceback.format_exc())
            items = []
    for item in items:
        if _real_mono() - start > budget and item[0] != "directed":
            ctx.count("scenarios skipped by time budget", len(items) - done)
            break
        with open(out + ".cur", "w") as f:
            f.write(json.dumps(item))
        run_one(mod, item, ctx, seed)
        done += 1
        ctx.count("scenarios")
        if len(ctx.violations) >= 2:
            break
        if not verbose and done % 20 == 0:
            os.ftruncate(1, 0)
            os.lseek(1, 0, os.SEEK_SET)
    if hasattr(mod, "teardown"):
        try:
            mod.teardown(ctx)
        except Exception:
            ctx.inconclusive.append("teardown: " + traceback.format_exc())
    res = {"counts": dict(ctx.counts), "distinct": sorted(ctx.distinct), "evals": ctx.evals, "samples": ctx.samples,
           "violations": ctx.violations, "findings": ctx.findings, "inconclusive": ctx.inconclusive, "done": done}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=repr)
    os.rename(out + ".tmp", out)


def main(mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    verbose = False
    nworkers = None
    only = None
    i = 0
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 1
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--workers":
            nworkers = int(argv[i + 1]); i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]; i += 1
        elif argv[i] == "-v":
            verbose = True
        i += 1
    known = load_known(mod.ID)
    base = tempfile.mkdtemp(prefix="mon-%s-" % mod.ID)
    try:
        return _main(mod, tier, seed, replay, verbose, nworkers, only, known, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(mod, tier, seed, replay, verbose, nworkers, only, known, base):
    t0 = _real_mono()
    if replay:
        r = json.load(open(replay))
        items = [[(r["kind"], r["ref"])]]
        seed, tier = r["seed"], r["tier"]
        nworkers = 1
    elif only:
        items = [[("directed", only) if not only.isdigit() else ("random", int(only))]]
    else:
        n = mod.PLAN[tier]
        if SCALE:
            n = max(8, int(n * SCALE))
        alli = [("directed", f.__name__) for f in getattr(mod, "DIRECTED", []) + (getattr(mod, "THOROUGH", []) if tier == "thorough" else [])] + [("random", j) for j in range(n)]
        nworkers = nworkers or getattr(mod, "WORKERS", 8)
        items = [alli[k::nworkers] for k in range(nworkers)]
        items = [x for x in items if x]
    budget = getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 600)
    hard = budget + getattr(mod, "GRACE", 150)
    procs = {}
    for k, its in enumerate(items):
        scratch = os.path.join(base, "w%d" % k)
        os.makedirs(scratch)
        out = os.path.join(base, "out%d" % k)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                worker(mod, its, k, tier, seed, out, scratch, known, budget, verbose)
                sys.stdout.flush()
            except BaseException:
                traceback.print_exc()
                os._exit(9)
            os._exit(0)
        procs[pid] = (k, out, scratch)
    bad = []
    outs = {}
    while procs:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid and pid in procs:
            k, out, scratch = procs.pop(pid)
            _reap(pid)
            if os.path.exists(out):
                outs[k] = json.load(open(out))
                if SCALE and outs[k]["violations"]:
                    for pid in procs:
                        _reap(pid)
                    break
            else:
                tail = ""
                try:
                    tail = open(os.path.join(scratch, "log"), errors="replace").read()[-1500:]
                except OSError:
                    pass
                bad.append("worker %d ended with status %r while on %s; log tail: %s" % (k, st, _cur(out), tail))
            continue
        if _real_mono() - t0 > hard:
            for pid, (k, out, scratch) in list(procs.items()):
                bad.append("worker %d still running after %ds on %s" % (k, hard, _cur(out)))
                _reap(pid)
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            procs = {}
            break
        time.sleep(0.01)
    counts = collections.Counter()
    distinct, samples, viol, finds, inc, evals, done = set(), [], [], {}, list(bad), 0, 0
    for k in sorted(outs):
        r = outs[k]
        counts.update(r["counts"])
        distinct.update(r["distinct"])
        samples += r["samples"]
        viol += r["violations"]
        finds.update(r["findings"])
        inc += r["inconclusive"]
        evals += r["evals"]
        done += r["done"]
    samples = samples[:8]
    wall = round(_real_mono() - t0, 2)
    if not replay and not only and not SCALE:
        ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": mod.RULE,
                           "samples": samples or ["(none)"], "scenarios": done,
                           "observed": {k: counts[k] for k in sorted(counts)},
                           "inconclusive": inc[:5], "known_findings_seen": finds},
              "wall_s": wall, "violations": len(viol), "assumptions": getattr(mod, "ASSUMPTIONS", "")}
        ev["assumptions"] = ev["assumptions"] if isinstance(ev["assumptions"], list) else [ev["assumptions"]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for key in sorted(finds):
        print("KNOWN-FINDING: property=%s key=%s %s" % (mod.ID, key, finds[key]))
    print("%s: %d scenarios, %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs" %
          (mod.ID, done, evals, len(distinct), len(viol), len(inc), wall))
    if viol:
        d = os.path.join(VERIF, "evidence", "replays") if not SCALE else base
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol[:3]):
            path = os.path.join(d, "%s-%d.json" % (mod.ID, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            print("  " + str(v["what"])[:1500])
        return 1
    if inc:
        for x in inc[:5]:
            print("INCONCLUSIVE " + x[:3000])
        # a scenario without an answer is no verdict; tolerate a stray one only if plenty were decided
        if bad or len(inc) > max(1, done // 50):
            return 3
    skipped = counts.get("scenarios skipped by time budget", 0)
    if not replay and not only and not SCALE:
        for k, least in getattr(mod, "REACH", {}).items():
            have = len(distinct) if k == "distinct" else counts.get(k, 0)
            if skipped: # a slow machine: what was left out can't be expected
                least = int(least * .7 * done / (done + skipped))
            if have < least:
                print("INCONCLUSIVE monitor not reached: %s = %d, expected at least %d" % (k, have, least))
                return 3
    return 0


def _cur(out):
    try:
        return open(out + ".cur").read()
    except OSError:
        return "?"


def _reap(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
