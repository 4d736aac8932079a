"""C30: the explorer of the model-based tester, on random models."""
from mon import modeltest as T

ID = "C30"
RULE = ("random small models with up to 4 actions, parameters of declared and returned types, finished-with choices, observed events and paths that end in "
        "exceptions or dead ends; each step of the real explorer is judged (enabled, arguments from the current pools, record of calls, events and results), and "
        "the multiset of complete paths is compared with an independent enumeration; distinct = models by shape and number of paths")
ASSUMPTIONS = ["models behave deterministically, as the explorer assumes", "pools declared as output are not used with finishedWith"]
PLAN = {"quick": 1600, "thorough": 30000}
REACH = {"distinct": 200, "calls": 20000, "models explored completely": 150}
M = None


def setup(ctx):
    global M
    M = T.load()


def scenario(r, ctx, idx):
    spec = T.Spec(r)
    if idx % 4 == 3:
        live, rec, ex = T.explore(r, ctx, spec, M, select=True, limit=300)
        ctx.count("explorations with a selection callback")
        return
    want = spec.paths(1500)
    if want is None:
        ctx.count("models too large, not enumerated")
        return
    live, rec, ex = T.explore(r, ctx, spec, M)
    ctx.expect(live.paths == want, lambda: "paths taken: %d, should be %d; missing %r, too many %r; %s" % (
        sum(live.paths.values()), sum(want.values()), list((want - live.paths).items())[:3], list((live.paths - want).items())[:3], T.describe(spec)))
    ctx.count("models explored completely")
    ctx.count("paths", sum(want.values()))
    ctx.case((len(spec.actions), tuple(sorted((len(a[1]), bool(a[2]), len(a[3])) for a in spec.actions)), sum(want.values())) if sum(want.values()) > 1 else None,
             "%s: %d paths, all taken once" % (T.describe(spec)[:300], sum(want.values())))
