"""C22: exports to Pandas and ROOT carry the table of the histogram."""
import itertools
import math

import numpy
import histbook

from hbv import gen, model, observe, standins

QUICK, THOROUGH = 15000, 200000
RULE = "a case = a filled (and possibly selected, rebinned, grouped or scaled) histogram exported as DataFrames of tables and fractions and as ROOT histograms and profiles, recorded by stand-ins and compared row by row with the events and the table; distinct = (kinds of axes, weighting, what was exported)"
REQUIRED = ["dataframes", "fractions", "rows", "profiles", "effcount", "no_error", "normalized", "group_axes", "two_groups", "group_only", "nan_group", "empty_groups", "selected", "rebinned", "grouped", "scaled", "intbin", "split", "closedhigh", "no_underflow", "no_nanflow",
            "fraction_groups", "fraction_total", "fraction_levels", "refused", "root_hist", "root_profile", "root_profile_weighted", "root_weighted", "root_projection", "root_underflow", "root_overflow", "root_noflow", "root_intbin", "root_split", "root_cache", "root_refused"]
ASSUMPTIONS = ["neither pandas nor ROOT is installed: stand-ins (hbv/standins.py) record the calls, with the argument checks and the arithmetic of the classes used"]

standins.install()


def sortedgroup(axis, keys):
    return sorted(keys, key=lambda k: (isinstance(axis, histbook.axis.groupbin) and isinstance(k, str), k))


def expected(ctx, tab, group, fixed):
    """[(canonical keys, values)] in order."""
    out = []
    labels = [[observe.keyof(x, k) for k in x.keys()] for x in fixed]

    def recurse(j, node, keys):
        if j < len(group):
            for n in sortedgroup(group[j], node):
                recurse(j + 1, node[n], keys + (observe.keyof(group[j], n),))
        else:
            flat = node.reshape((-1, node.shape[-1])).tolist()
            for k, v in zip(itertools.product(*labels), flat):
                out.append((keys + k, v))
    recurse(0, tab, ())
    return out


def samekey(axis, key, label, ctx):
    """Whether the DataFrame's label is that of the bin key."""
    kind = type(axis).__name__
    if isinstance(label, numpy.generic):
        label = label.item()
    if kind == "groupby":
        return model.gkey(label) == key
    if kind == "cut":
        return isinstance(label, bool) and ("b", label) == key
    if key == ("NaN",):
        return isinstance(label, str) and label == "{NaN}"
    if key[0] == "n":
        return str(label) == str(key[1])
    if not isinstance(label, standins.Interval):
        return False
    lo, hi = model.num(float(label.left)), model.num(float(label.right))
    if (lo, hi) != (key[1], key[2]):
        return False
    # one side only can be closed in a pandas.Interval: a finite edge tells which
    ok = True
    if key[1] not in ("-inf", "inf"):
        ok = ok and (label.closed in ("left", "both")) == key[3]
    if key[2] not in ("-inf", "inf"):
        ok = ok and (label.closed in ("right", "both")) == key[4]
    return ok


def same(x, y):
    return x == y or x != x and y != y


def check_frame(ctx, df, tab, columns, group, fixed, what):
    ctx.check(isinstance(df, standins.DataFrame), "{0} is {1!r}", what, df)
    axes = group + fixed
    want = expected(ctx, tab, group, fixed)
    ctx.check([str(c).replace(" ", "") for c in df.columns] == [c.replace(" ", "") for c in columns], "{0}: columns {1}, expected {2}", what, df.columns, columns)
    got = df.rows()
    ctx.check(len(got) == len(want), "{0}: {1} rows, expected {2} bins", what, len(got), len(want))
    if axes and want:
        ctx.check([str(n) for n in df.index.names] == [str(x.expr) for x in axes], "{0}: levels named {1}, axes {2}", what, df.index.names, axes)
    for (label, vals), (keys, w) in zip(got, want):
        if axes:
            ctx.check(len(label) == len(axes) and all(samekey(x, k, l, ctx) for x, k, l in zip(axes, keys, label)), "{0}: a row is labelled {1}, expected {2}", what, label, keys)
        ctx.check(len(vals) == len(w) and all(same(a, b) for a, b in zip(vals, w)), "{0}: row {1} has {2}, the table {3}", what, label, vals, w)
    ctx.seen("rows", len(got))
    return got, want


def derive(ctx, rng, h, spec):
    """The histogram, possibly transformed; returns (histogram, specification or None if the model no longer applies)."""
    r = rng.random()
    if r < 0.5:
        return h
    fixed = observe.axes(h)[1]
    if r < 0.65:
        bins = [x for x in fixed if isinstance(x, (histbook.axis.bin, histbook.axis.split)) and len(edges(x)) > 2]
        if bins:
            x = rng.choice(bins)
            e = edges(x)
            i = rng.randrange(1, len(e) - 1)
            op = ">=" if x.closedlow else ">"
            g = ctx.do("select", h.select, "{0} {1} {2!r}".format(x.expr, op, e[i]))
            ctx.seen("selected")
            return g
    elif r < 0.75:
        bins = [x for x in fixed if isinstance(x, (histbook.axis.bin, histbook.axis.split)) and len(edges(x)) > 3]
        if bins:
            x = rng.choice(bins)
            e = edges(x)
            g = ctx.do("rebin", h.rebin, x, [e[0], e[2], e[-1]])
            ctx.seen("rebinned")
            return g
    elif r < 0.87:
        g = ctx.do("group", histbook.Hist.group, by="source", one=h, two=h * 2)
        ctx.seen("grouped")
        return g
    g = ctx.do("scale", lambda: h * rng.choice([2, 0.5, -1]))
    ctx.seen("scaled")
    return g


def edges(x):
    """Edges as the axis itself labels its bins."""
    return sorted(set(e for k in x.keys() if not isinstance(k, histbook.axis.IntervalNaN) for e in (k.low, k.high) if not math.isinf(e)))


def run_case(ctx, rng, index):
    if index % 3 == 0:
        pandas_case(ctx, rng)
    elif index % 3 == 1:
        fraction_case(ctx, rng)
    else:
        root_case(ctx, rng)


def fillup(ctx, rng, spec, nans=()):
    h = ctx.do("construct", spec.make)
    entries = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        data = gen.gen_data(rng, spec, n=rng.choice([0, 5, 20, 50]))
        for f in nans:
            if len(data):
                data.arrays[f] = numpy.array(data.arrays[f], dtype=numpy.float64)
                data.arrays[f][rng.randrange(len(data))] = numpy.nan
        if nans:
            data = gen.Data(data.arrays, gen.rows_of(data.arrays, len(data)))
        gen.fill_hist(ctx, h, data)
        entries += data.entries()
    return h, model.fill(spec, entries)


def noteaxes(ctx, h):
    group, fixed, prof = observe.axes(h)
    if group:
        ctx.seen("group_axes")
    if len(group) > 1:
        ctx.seen("two_groups")
    for x in group:
        ks = list(h.groupkeys(x))
        if not ks:
            ctx.seen("empty_groups")
        if isinstance(x, histbook.axis.groupbin) and any(isinstance(k, (str, histbook.axis.IntervalNaN)) for k in ks):
            ctx.seen("nan_group")
    if group and not fixed:
        ctx.seen("group_only")
    for x in fixed:
        if isinstance(x, histbook.axis.intbin):
            ctx.seen("intbin")
        if isinstance(x, histbook.axis.split):
            ctx.seen("split")
        if not getattr(x, "closedlow", True):
            ctx.seen("closedhigh")
        if not getattr(x, "underflow", True):
            ctx.seen("no_underflow")
        if not getattr(x, "nanflow", True):
            ctx.seen("no_nanflow")


def pandas_case(ctx, rng):
    kinds = rng.choice([None, None, ["groupby", "groupbin"], ["bin", "split", "intbin"]])
    spec = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3]), weight=0.4, filter=0.15, profiles=0.6, maxgroup=2, kinds=kinds)
    nans = ()
    if rng.random() < 0.15 and not spec.weighted and "x" not in spec.fields() and sum(a["k"].startswith("group") for a in spec.axes) < 2:
        spec = spec.replace(axes=spec.axes + [gen.gen_axis(rng, kind="groupbin", expr="x")])
        nans = ("x",)
    ctx.log("{0}", spec)
    h, want = fillup(ctx, rng, spec, nans)
    # the DataFrame of the histogram itself, against the events
    df = ctx.do("pandas()", h.pandas)
    ctx.seen("dataframes")
    group, fixed, prof = observe.axes(h)
    tab = h.table(recarray=False)
    got, rows = check_frame(ctx, df, tab, ["count()", "err(count())"], group, fixed, "pandas()")
    left = dict((k, b) for k, b in want.items() if b.w != 0 or b.w2 != 0)
    for (label, vals), (keys, _) in zip(got, rows):
        b = left.pop(keys, None)
        w = b.w if b is not None else 0.0
        ctx.check(same(vals[0], w) or abs(vals[0] - w) <= 1e-9 * (b.aw if b is not None else 0), "pandas(): row {0} counts {1}, the events give {2}", label, vals[0], w)
    ctx.check(not left, "pandas(): no rows for {0}", sorted(left, key=repr))
    # a derived histogram with options, against its table
    g = derive(ctx, rng, h, spec)
    noteaxes(ctx, g)
    group, fixed, prof = observe.axes(g)
    for _ in range(2):
        idx = rng.sample(range(len(prof)), rng.randrange(0, len(prof) + 1))
        refs = [prof[i] if rng.random() < 0.5 or any(str(y.expr) == str(prof[i].expr) for y in group + fixed) else str(prof[i].expr) for i in idx]
        if refs:
            ctx.seen("profiles")
        opts = {}
        if rng.random() < 0.3:
            opts["effcount"] = True
            ctx.seen("effcount")
        if rng.random() < 0.3:
            opts["error"] = False
            ctx.seen("no_error")
        if rng.random() < 0.2 and (refs or "effcount" in opts):
            opts["count"] = False
        if rng.random() < 0.15 and opts.get("count", True):
            opts["normalized"] = True
            ctx.seen("normalized")
        what = "pandas({0}, {1})".format(refs, opts)
        df = ctx.do(what, g.pandas, *refs, **dict(opts))
        tab, columns = ctx.do("table", g.table, *[prof[i] for i in idx], recarray=False, columns=True, **dict(opts))
        check_frame(ctx, df, tab, columns, group, fixed, what)
        ctx.seen("dataframes")
        ctx.signature("pandas", tuple(type(x).__name__ for x in group + fixed), spec.weighted, len(refs), tuple(sorted(opts)))
    b = [x for x in group + fixed if not isinstance(x, histbook.axis.cut)]
    if b:
        ctx.must_refuse("pandas of a binned axis", (TypeError, ValueError, IndexError), g.pandas, rng.choice(b))
        ctx.seen("refused")


def fraction_case(ctx, rng):
    n = rng.choice([0, 1, 1, 2])
    axes = [model.axis("cut", e) for e in rng.sample(gen.BOOLEXPR, rng.choice([1, 1, 2, 3]))] + (gen.gen_axes(rng, n, kinds=["bin", "split", "intbin", "groupby", "groupbin"], maxgroup=1) if n else [])
    axes = [a for i, a in enumerate(axes) if not any(b["expr"] == a["expr"] for b in axes[:i])]
    rng.shuffle(axes)
    spec = gen.gen_spec(rng, axes=axes, weight=0.35, filter=0.15, profiles=0.3)
    spec = spec.replace(profiles=[p for p in spec.profiles if not any(a["expr"] == p for a in axes)])
    ctx.log("{0}", spec)
    h, want = fillup(ctx, rng, spec)
    cuts = [x for x in h.axis if isinstance(x, histbook.axis.cut)]
    use = rng.sample(cuts, rng.randrange(1, len(cuts) + 1))
    refs = [x if rng.random() < 0.5 else str(x.expr) for x in use]
    opts = {}
    if rng.random() < 0.3:
        opts["count"] = False
    if rng.random() < 0.3:
        opts["level"] = rng.choice([0.5, 0.9, (0.5, 0.95)])
        ctx.seen("fraction_levels")
    if rng.random() < 0.25:
        opts["error"] = None
    what = "pandas({0}, {1})".format(refs, opts)
    df = ctx.do(what, h.pandas, *refs, **dict(opts))
    tab, columns = ctx.do("fraction", h.fraction, *use, recarray=False, columns=True, **dict(opts))
    group, fixed, _ = observe.axes(h)
    fixed = [x for x in fixed if not any(x is c for c in use)]
    got, rows = check_frame(ctx, df, tab, columns, group, fixed, what)
    ctx.seen("fractions")
    if group:
        ctx.seen("fraction_groups")
    if not group and not fixed:
        ctx.seen("fraction_total")
    # against the events
    if "count" not in opts:
        drop = [i for i, a in enumerate(spec.ordered) if a["k"] == "cut" and any(str(c.expr).replace(" ", "") == str(h.axis[a["expr"]].expr).replace(" ", "") for c in use)]
        sums = {}
        for k, b in want.items():
            kk = tuple(x for i, x in enumerate(k) if i not in drop)
            s = sums.setdefault(kk, [0.0, 0.0])
            s[0] += b.w
            s[1] += b.aw
        for (label, vals), (keys, _) in zip(got, rows):
            w, aw = sums.get(keys, [0.0, 0.0])
            ctx.check(same(vals[0], w) or abs(vals[0] - w) <= 1e-9 * aw, "{0}: row {1} counts {2}, the events give {3}", what, label, vals[0], w)
    ctx.signature("fraction", tuple(type(x).__name__ for x in group + fixed), spec.weighted, len(refs), tuple(sorted(opts)))


def root_case(ctx, rng):
    kind = rng.choice(["bin", "bin", "bin", "intbin", "split"])
    while True:
        a = gen.widen(rng, gen.gen_axis(rng, kind=kind))
        if kind != "split" or len(a["edges"]) > 1:
            break
    axes = [a] + [x for x in gen.gen_axes(rng, rng.choice([0, 0, 1, 2]), maxgroup=1) if x["expr"] != a["expr"]]
    rng.shuffle(axes)
    spec = gen.gen_spec(rng, axes=axes, weight=0.4, filter=0.2, profiles=0.5)
    if not spec.weighted and kind == "intbin" and rng.random() < 0.5:
        spec = spec.replace(weight="w")
    ctx.log("{0}", spec)
    h, want = fillup(ctx, rng, spec)
    x = [y for y in h.axis if not isinstance(y, histbook.axis.profile)][spec.ordered.index(a)]
    pos = spec.ordered.index(a)
    bins = {}
    for k, b in want.items():
        bins = model.addbins(bins, {k[pos]: b})
    refs = [x if rng.random() < 0.5 else str(x.expr)]
    if len(axes) == 1 and rng.random() < 0.4:
        refs = []
    else:
        ctx.seen("root_projection")
    p = rng.randrange(len(spec.profiles)) if spec.profiles and rng.random() < 0.6 else None
    if p is not None:
        prof = observe.axes(h)[2][p]
        refs = [x if rng.random() < 0.5 else str(x.expr), prof if rng.random() < 0.5 or any(str(y.expr) == str(prof.expr) for y in h.axis if y is not prof) else str(prof.expr)]
    opts, cache = {}, {}
    if rng.random() < 0.5:
        opts["name"] = rng.choice(["h1", "hist"])
    if rng.random() < 0.4:
        opts["title"] = "a title"
    if rng.random() < 0.4:
        opts["cache"] = cache
    what = "root({0}, {1})".format(refs, opts)
    out = ctx.do(what, h.root, *refs, **dict(opts))
    ctx.check(isinstance(out, standins.TProfile if p is not None else standins.TH1D) and (p is not None or not isinstance(out, standins.TProfile)), "{0} is {1!r}", what, out)
    ctx.check(out.GetName() == opts.get("name", "") and out.GetTitle() == opts.get("title", ""), "{0}: name {1!r} and title {2!r}", what, out.GetName(), out.GetTitle())
    if "cache" in opts:
        ctx.check(list(cache) == [out.GetName()] and cache[out.GetName()] is out, "{0}: cache has {1}", what, cache)
        ctx.seen("root_cache")
    keys = model.model_keys(a)
    finite = [k for k in keys if k != ("NaN",) and (k[0] == "n" or "inf" not in (k[1], k[2]) and "-inf" not in (k[1], k[2]))]
    e = model.edges_of(a) if kind != "intbin" else [a["min"] - 0.5 + i for i in range(a["max"] - a["min"] + 2)]
    ctx.check(out.n == len(finite), "{0}: {1} bins, expected {2}", what, out.n, len(finite))
    ctx.check(all(abs(u - v) <= 1e-9 * max(1, abs(u), abs(v)) for u, v in zip(out.edges, e)), "{0}: edges {1}, expected {2}", what, out.edges, e)
    low = [k for k in keys if k not in finite and k != ("NaN",) and k[1] == "-inf"]
    high = [k for k in keys if k not in finite and k != ("NaN",) and k[2] == "inf"]
    cells = [low[0] if low else None] + finite + [high[0] if high else None]
    total = tot = 0.0
    for i, k in enumerate(cells):
        b = bins.get(k) if k is not None else None
        b = b or model.Bin(len(spec.profiles))
        total += b.w
        tot += b.aw
        if p is None:
            ctx.check(observe.close(out.GetBinContent(i), b.w, b.aw), "{0}: cell {1} ({2}) contains {3}, expected {4}", what, i, k, out.GetBinContent(i), b.w)
            err = math.sqrt(b.w2) if spec.weighted else math.sqrt(abs(b.w))
            ctx.check(observe.close(out.GetBinError(i), err, math.sqrt(b.aw2)), "{0}: cell {1} ({2}) has error {3}, expected {4}", what, i, k, out.GetBinError(i), err)
        else:
            ctx.check(observe.close(out.GetBinEntries(i), b.w, b.aw), "{0}: cell {1} ({2}) has {3} entries, expected {4}", what, i, k, out.GetBinEntries(i), b.w)
            if b.n and b.w > 1e-3 * b.aw:
                mean = b.wx[p] / b.w
                if not b.awx2[p] < 1e200:
                    continue
                scale = b.awx[p] / b.w
                ctx.check(observe.close(out.GetBinContent(i), mean, scale), "{0}: cell {1} ({2}) has mean {3}, expected {4}", what, i, k, out.GetBinContent(i), mean)
                # the error on the mean divides by the effective number of entries, w**2/w2
                per = b.w2 / b.w if spec.weighted else 1.0
                var = max(0.0, b.wx2[p] / b.w - mean**2) * per
                tolerance = 1e-9 * (b.awx2[p] / b.w + scale**2) * (1 + per)
                got = out.GetBinError(i)**2 * b.w
                ctx.check(abs(got - var) <= tolerance, "{0}: cell {1} ({2}) has error {3}, expected {4}", what, i, k, out.GetBinError(i), math.sqrt(var / b.w))
                if spec.weighted:
                    ctx.seen("root_profile_weighted")
        ctx.seen("rows")
    ctx.check(observe.close(out.GetEntries(), total, tot), "{0}: {1} entries, expected {2}", what, out.GetEntries(), total)
    ctx.seen("root_profile" if p is not None else "root_hist")
    if spec.weighted:
        ctx.seen("root_weighted")
    if low and bins.get(low[0]):
        ctx.seen("root_underflow")
    if high and bins.get(high[0]):
        ctx.seen("root_overflow")
    if not low or not high:
        ctx.seen("root_noflow")
    if kind != "bin":
        ctx.seen("root_" + kind)
    others = [y for y in h.axis if isinstance(y, histbook.axis.GroupAxis)]
    if others:
        ctx.must_refuse("root of a group axis", (NotImplementedError, TypeError), h.root, others[0])
        ctx.seen("root_refused")
    ctx.must_refuse("root with an unknown option", TypeError, h.root, x, nonsense=1)
    ctx.signature("root", kind, spec.weighted, p is not None, len(axes), bool(low), bool(high))
