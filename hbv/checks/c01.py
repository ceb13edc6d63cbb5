"""C01: every event is counted in exactly the bin its value belongs to."""
import numpy

from hbv import gen, model, observe

QUICK, THOROUGH = 21000, 200000
RULE = "a case = random histogram (1-4 axes of all kinds and flags) filled with hostile values; distinct = distinct (axis kinds, flags, dtypes, occupied key kinds) signatures"
REQUIRED = ["events_counted", "events_without_bin", "nan_events", "flow_bins_hit", "edge_values", "many_bins", "large_fills"]
ASSUMPTIONS = ["events whose bin depends on floating-point rounding (within 1e-9 of a computed edge, not exactly representable) are left out of the workload",
               "intbin axes see integers, infinities and NaN only"]


def many(ctx, rng, index):
    """Axes with many bins or groups."""
    kind = ["bin", "split", "intbin", "groupby", "groupbin", "two"][index % 6]
    size = rng.choice([129, 257, 300, 1000, 3000] + ([40000, 70000] if kind in ("bin", "intbin") else []))
    lo = rng.choice([0, -5, 1000])
    axes = [gen.gen_axis(rng, "bin", "x")]
    if kind == "bin":
        axes = [model.binaxis("x", size, lo, lo + size * rng.choice([0.25, 0.5, 1]), **gen.flags(rng, ["u", "o", "nan", "cl"]))]
    elif kind == "split":
        axes = [model.splitaxis("x", sorted(rng.sample([k * 0.25 for k in range(-size, size)], size)), **gen.flags(rng, ["u", "o", "nan", "cl"]))]
    elif kind == "intbin":
        axes = [dict(model.axis("intbin", "n", min=lo, max=lo + size), **gen.flags(rng, ["u", "o"]))]
    elif kind == "groupby":
        axes = [model.axis("groupby", rng.choice(["i", "s"]))]
    elif kind == "groupbin":
        axes = [dict(model.axis("groupbin", "x", bw=rng.choice([0.25, 0.5]), **{"or": float(rng.choice([0, 100]))}), **gen.flags(rng, ["nan", "cl"]))]
    else:
        axes = [model.binaxis("x", 150, 0, 75, **gen.flags(rng, ["u", "o", "nan", "cl"])), dict(model.axis("intbin", "n", min=lo, max=lo + 90), **gen.flags(rng, ["u", "o"]))]
    spec = model.Spec(axes)
    data = gen.gen_data(rng, spec, n=rng.choice([300, 1000]))
    if kind == "groupby":
        values = [rng.randrange(-size, size) for _ in range(size)]
        data.arrays = {"i": numpy.array(values)} if axes[0]["expr"] == "i" else {"s": numpy.array(["k%d" % x for x in values])}
        data.rows = gen.rows_of(data.arrays)
    ctx.log("{0}", axes)
    h = ctx.do("construct", spec.make)
    gen.fill_hist(ctx, h, data)
    ctx.seen("many_bins")
    ctx.signature("many", kind, size)
    observe.check(ctx, h, spec, model.fill(spec, data.entries()), "many bins")


def run_case(ctx, rng, index):
    if index % 120 == 119:
        return many(ctx, rng, index // 120)
    if index < 200:
        # systematic: every kind with every combination of flags, alone
        kind = ["bin", "split", "groupbin", "intbin"][index % 4]
        bits = index // 4
        a = gen.gen_axis(rng, kind, fieldonly=True)
        for b, name in enumerate(["u", "o", "nan", "cl"]):
            if name in a:
                a[name] = bool(bits >> b & 1)
        if kind == "split" and len(a["edges"]) == 1 and not (a["u"] or a["o"] or a["nan"]):
            a["u"] = True
        spec = model.Spec([a])
    else:
        spec = gen.gen_spec(rng, weight=0.1, filter=0, profiles=0, maxgroup=rng.choice([0, 1, 1, 2, 3]))
    ctx.log(str(spec))
    h = ctx.do("construct", spec.make)
    entries = []
    for _ in range(rng.choice([1, 1, 2])):
        data = gen.gen_data(rng, spec, n=rng.choice([0, 1, 5, 20, 40, 60]), large=0.02)
        if len(data) > 1000:
            ctx.seen("large_fills")
        gen.fill_hist(ctx, h, data)
        entries += data.entries()
        ctx.signature(tuple((a["k"], a.get("u"), a.get("o"), a.get("nan"), a.get("cl")) for a in spec.axes), tuple(sorted(set(v.dtype.str for v in data.arrays.values()))))
    want = model.fill(spec, entries)
    observe.check(ctx, h, spec, want, "after filling")
    counted = sum(b.n for b in want.values())
    ctx.seen("events_counted", counted)
    ctx.seen("events_without_bin", len(entries) - counted)
    edges = gen.interesting(spec)
    for r, _ in entries:
        for a in spec.axes:
            v = r.get(a["expr"])
            if isinstance(v, float) and v != v:
                ctx.seen("nan_events")
            elif a["expr"] in edges and v in edges[a["expr"]]:
                ctx.seen("edge_values")
    for keys in want:
        for k in keys:
            if k[0] == "NaN" or (k[0] == "I" and "inf" in (k[1][-3:], k[2][-3:])):
                ctx.seen("flow_bins_hit")
