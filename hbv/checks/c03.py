"""C03: profiles are means over exactly the events of the bin."""
from hbv import gen, model, observe
from hbv.core import Violation

QUICK, THOROUGH = 20000, 150000
RULE = "a case = random histogram with one to four profiles, filled in one or more calls, its profiles read together, alone and in other orders; distinct = (axis kinds, profiles, weighted, filtered)"
REQUIRED = ["profile_bins", "events_without_bin", "undefined_profile_of_filtered_event", "several_profiles", "reordered_reads"]


def run_case(ctx, rng, index):
    spec = gen.gen_spec(rng, naxes=rng.choice([0, 1, 1, 1, 2, 2, 3]), weight=0.45, filter=0.3, profiles=0, maxgroup=rng.choice([0, 1, 2]))
    spec.profiles = rng.sample(gen.PROFILES + ["x", "sqrt(abs(a))", "a/4 + b", "where(p, a, b)"], rng.choice([1, 1, 2, 3, 4]))
    ctx.log(str(spec))
    h = ctx.do("construct", spec.make)
    entries = []
    for _ in range(rng.choice([1, 1, 2])):
        data = gen.gen_data(rng, spec, n=rng.choice([1, 3, 10, 20, 40]), nanweight=rng.random() < 0.5, large=0.02)
        gen.fill_hist(ctx, h, data)
        entries += data.entries()
    ctx.signature(tuple(a["k"] for a in spec.axes), tuple(spec.profiles), spec.weight is not None, spec.filter)
    want = model.fill(spec, entries)
    got = observe.check(ctx, h, spec, want, "after filling")
    ctx.seen("events_without_bin", len(entries) - sum(b.n for b in want.values()))
    ctx.seen("profile_bins", len([b for b in want.values() if b.w > 0]) * len(spec.profiles))
    if len(spec.profiles) > 1:
        ctx.seen("several_profiles")
    for row, _ in entries:
        if spec.weighted and model.weight_of(spec, row) == 0 and any(row.get(p) is not None and row[p] != row[p] for p in spec.profiles):
            ctx.seen("undefined_profile_of_filtered_event")

    # the same means whichever profiles are asked for, by expression or object, in any order
    group, fixed, prof = observe.axes(h)
    order = rng.sample(range(len(prof)), rng.randrange(1, len(prof) + 1))
    ask = [prof[i] if rng.random() < 0.5 else spec.profiles[i] for i in order]
    ctx.log("table({0})", ask)
    tab = ctx.do("table", h.table, *ask, count=False, effcount=False, error=True, recarray=False)
    sub = observe.flatten(tab, group, fixed, 2 * len(order), keepzeros=True)
    for keys, vals in sub.items():
        full = got.get(keys)
        if full is None:
            full = [0.0] * (3 + 2 * len(prof))
        for pos, i in enumerate(order):
            for off in (0, 1):
                x, y = vals[2 * pos + off], full[3 + 2 * i + off]
                if not (x == y or (x != x and y != y)):
                    raise Violation("profile {0} in bin {1} is {2!r} when read as {3} but {4!r} with all profiles".format(spec.profiles[i], keys, x, ask, y))
    ctx.seen("reordered_reads")
