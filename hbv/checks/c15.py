"""C15: tables and fractions present the same contents under all options."""
import math

import numpy
import histbook

from hbv import gen, model, observe

QUICK, THOROUGH = 15000, 200000
RULE = "a case = a filled histogram read with many combinations of the options of table and fraction; every number compared with the events; distinct = (kinds of axes, weighting, options)"
REQUIRED = ["tables", "recarrays", "columns", "profile_subsets", "profile_reordered", "normalized", "normalized_split", "normalized_groupbin", "normalized_intbin", "normalized_flow", "fractions", "fractions_two_cuts", "fraction_levels",
            "fraction_groups", "fraction_weighted", "fraction_profiles", "fraction_noerror", "fraction_wilson", "refused"]
SIGMAS = [(math.erf(math.sqrt(0.5)), 1.0), (math.erf(2 * math.sqrt(0.5)), 2.0), (math.erf(3 * math.sqrt(0.5)), 3.0), (0.5, 0.6744897501960817), (0.9, 1.6448536269514722), (0.95, 1.959963984540054), (0.99, 2.5758293035489004), (0.1, 0.12566134685507402)]


def columns_of(node):
    while isinstance(node, dict):
        if not node:
            return None
        node = next(iter(node.values()))
    return node.dtype.names


def unrec(node):
    """Plain arrays from record arrays."""
    if isinstance(node, dict):
        return dict((n, unrec(x)) for n, x in node.items())
    out = numpy.empty(node.shape + (len(node.dtype.names),))
    for i, n in enumerate(node.dtype.names):
        out[..., i] = node[n]
    return out


def width_of(axis, key):
    """Width of a bin, None if it is not finite."""
    if axis["k"] in ("cut", "groupby"):
        return 1.0
    if axis["k"] == "intbin":
        return 1.0 if key[0] == "n" else None
    if key == ("NaN",):
        return None
    if axis["k"] == "groupbin":
        return None if "inf" in (key[1], key[2]) or "-inf" in (key[1], key[2]) else axis["bw"]
    if key[1] == "-inf" or key[2] == "inf":
        return None
    if axis["k"] == "bin":
        return (axis["hi"] - axis["lo"]) / axis["n"]
    return float(key[2]) - float(key[1])


def run_case(ctx, rng, index):
    if index % 2 == 0:
        spec = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3]), weight=0.4, filter=0.2, profiles=0.7, maxgroup=2)
    else:
        axes = [model.axis("cut", e) for e in rng.sample(gen.BOOLEXPR, rng.choice([1, 1, 2, 3]))] + gen.gen_axes(rng, rng.choice([1, 1, 2]), kinds=["bin", "split", "intbin", "groupby", "groupbin"], maxgroup=1)
        rng.shuffle(axes)
        spec = gen.gen_spec(rng, axes=axes, weight=0.35, filter=0.15, profiles=0.3)
    ctx.log("{0}", spec)
    h = ctx.do("construct", spec.make)
    entries = []
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        data = gen.gen_data(rng, spec, n=rng.choice([0, 5, 20, 50]))
        gen.fill_hist(ctx, h, data)
        entries += data.entries()
    want = model.fill(spec, entries)
    full = observe.check(ctx, h, spec, want, "full table")
    group, fixed, prof = observe.axes(h)
    nprof = len(spec.profiles)

    # every combination of options shows the same numbers
    for _ in range(3):
        idx = rng.sample(range(nprof), rng.randrange(0, nprof + 1))
        if len(idx) < nprof:
            ctx.seen("profile_subsets")
        if idx != sorted(idx):
            ctx.seen("profile_reordered")
        refs = [prof[i] if rng.random() < 0.5 else spec.profiles[i] if rng.random() < 0.6 else histbook.profile(spec.profiles[i]) if False else prof[i] for i in idx]
        count, effcount, error = rng.random() < 0.7, rng.random() < 0.5, rng.random() < 0.6
        if not count and not effcount and not idx:
            count = True
        recarray, showcolumns = rng.random() < 0.5, rng.random() < 0.5
        opts = {}
        for n, v, default in (("count", count, True), ("effcount", effcount, False), ("error", error, True), ("recarray", recarray, True), ("columns", showcolumns, False)):
            if v != default or rng.random() < 0.5:
                opts[n] = v
        pos, names = [], []
        if count:
            pos.append(0)
            names.append("count()")
            if error:
                pos.append(1)
                names.append("err(count())")
        if effcount:
            pos.append(2)
            names.append("effcount()")
        for i in idx:
            pos.append(3 + 2 * i)
            names.append(spec.profiles[i])
            if error:
                pos.append(4 + 2 * i)
                names.append("err({0})".format(spec.profiles[i]))
        what = "table({0}, {1})".format(refs, opts)
        out = ctx.do(what, h.table, *refs, **opts)
        ctx.seen("tables")
        if showcolumns:
            out, cols = out
            ctx.check([x.replace(" ", "") for x in cols] == [x.replace(" ", "") for x in names], "{0} reports columns {1}, expected {2}", what, cols, names)
            ctx.seen("columns")
        if recarray:
            ctx.seen("recarrays")
            cols2 = columns_of(out)
            if cols2 is not None:
                ctx.check([x.replace(" ", "") for x in cols2] == [x.replace(" ", "") for x in names], "{0} has columns {1}, expected {2}", what, cols2, names)
            out = unrec(out)
        got = observe.flatten(out, group, fixed, len(pos), keepzeros=True)
        for k in set(got) | set(full):
            v = got.get(k)
            w = full.get(k, [0.0] * (3 + 2 * nprof))
            ctx.check(v is not None and repr([float(x) for x in v]) == repr([float(w[i]) for i in pos]), "{0}: bin {1} shows {2}, but the full table {3} (columns {4})", what, k, v, w, pos)
        ctx.seen("bins_compared", len(got))
        ctx.signature(tuple(a["k"] for a in spec.ordered), spec.weighted, tuple(names), recarray)

    # normalized
    widths = {}
    finite = True
    total = atotal = 0.0
    for keys, b in want.items():
        w = 1.0
        for a, k in zip(spec.ordered, keys):
            x = width_of(a, k)
            w = None if w is None or x is None else w * x
        widths[keys] = w
        if w is not None:
            total += b.w / w
            atotal += b.aw / w
    if total > 1e-6 * atotal and atotal > 0:
        opts = {"error": rng.random() < 0.5}
        refs = [prof[i] for i in rng.sample(range(nprof), rng.randrange(0, nprof + 1))]
        out = ctx.do("normalized table", h.table, *refs, normalized=True, recarray=False, effcount=True, **opts)
        ncol = 2 + len(refs) + (1 + len(refs) if opts["error"] else 0)
        got = observe.flatten(out, group, fixed, ncol, keepzeros=True)
        check = 0.0
        for k, v in got.items():
            b = want.get(k)
            w = widths.get(k)
            expect = 0.0 if b is None or w is None else b.w / w / total
            scale = 0.0 if b is None or w is None else b.aw / w / total * (1 + atotal / total)
            ctx.check(abs(v[0] - expect) <= 1e-9 * scale + 1e-12, "normalized table: bin {0} has {1}, expected {2}", k, v[0], expect)
            if b is not None and w is None:
                ctx.seen("normalized_flow")
            if opts["error"]:
                fk = full.get(k)
                e = 0.0 if fk is None or b is None or w is None else fk[1] / w / total
                ctx.check(e != e and v[1] != v[1] or abs(v[1] - e) <= 1e-9 * (abs(e) * (1 + atotal / total)) + 1e-12, "normalized table: bin {0} has error {1}, expected {2}", k, v[1], e)
            check += v[0]
        ctx.check(abs(check - 1) < 1e-6, "normalized counts add up to {0}", check)
        ctx.seen("normalized")
        for a in spec.axes:
            ctx.seen("normalized_" + a["k"])

    # fractions
    cuts = [i for i, a in enumerate(spec.ordered) if a["k"] == "cut"]
    if cuts:
        chosen = rng.sample(cuts, rng.randrange(1, len(cuts) + 1))
        axes = [x for x in list(h.axis)]
        refs = [axes[i] if rng.random() < 0.5 else spec.ordered[i]["expr"] for i in chosen]
        rest = [i for i in range(len(spec.ordered)) if i not in chosen]
        opts, lv = {}, SIGMAS[:1]
        err = rng.random() < 0.8
        if not err:
            opts["error"] = None
            ctx.seen("fraction_noerror")
        elif rng.random() < 0.6:
            lv = rng.sample(SIGMAS, rng.choice([1, 1, 2]))
            opts["level"] = lv[0][0] if len(lv) == 1 and rng.random() < 0.5 else [x[0] for x in lv]
            ctx.seen("fraction_levels")
            if rng.random() < 0.5:
                opts["error"] = "normal"
        if err and rng.random() < 0.25:
            opts["error"] = "wilson"
            ctx.seen("fraction_wilson")
        count = rng.random() < 0.7
        if not count:
            opts["count"] = False
        recarray = rng.random() < 0.4
        what = "fraction({0}, {1})".format(refs, opts)
        out, cols = ctx.do(what, h.fraction, *refs, recarray=recarray, columns=True, **opts)
        ncol = (1 if count else 0) + len(chosen) * (1 + (len(lv) if err else 0))
        ctx.check(len(cols) == ncol, "{0} reports columns {1}, expected {2} of them", what, cols, ncol)
        if count:
            ctx.check(cols[0] == "count()", "{0}: first column is {1}", what, cols[0])
        for j, i in enumerate(chosen):
            c = cols[(1 if count else 0) + j * (1 + (len(lv) if err else 0))]
            ctx.check(c.replace(" ", "") == str(axes[i].expr).replace(" ", ""), "{0}: column {1} instead of {2}", what, c, axes[i].expr)
        if recarray:
            n = columns_of(out)
            if n is not None:
                ctx.check(list(n) == list(cols), "{0} has columns {1}, but reports {2}", what, n, cols)
            out = unrec(out)
        g2 = [axes[i] for i in rest if isinstance(axes[i], histbook.axis.GroupAxis)]
        f2 = [axes[i] for i in rest if not isinstance(axes[i], histbook.axis.GroupAxis)]
        got = observe.flatten(out, g2, f2, ncol, keepzeros=True)
        den, num, aden = {}, {}, {}
        for keys, b in want.items():
            k = tuple(keys[i] for i in rest)
            den[k] = den.get(k, 0.0) + b.w
            aden[k] = aden.get(k, 0.0) + b.aw
            for i in chosen:
                if keys[i] == ("b", True):
                    num[k, i] = num.get((k, i), 0.0) + b.w
        for k in set(den) | set(got):
            v = got.get(k)
            d, ad = den.get(k, 0.0), aden.get(k, 0.0)
            if v is None:
                ctx.check(abs(d) <= 1e-9 * ad, "{0}: bin {1} is missing", what, k)
                continue
            p = 0
            if count:
                ctx.check(abs(v[0] - d) <= 1e-9 * ad, "{0}: bin {1} has count {2}, expected {3}", what, k, v[0], d)
                p = 1
            for i in chosen:
                q = v[p]
                p += 1
                good = d > 1e-6 * ad and ad > 0
                e = num.get((k, i), 0.0) / d if good else 0.0
                if good:
                    ctx.check(abs(q - e) <= 1e-9 * (ad / d) ** 2, "{0}: bin {1} has fraction {2} of {3}, expected {4}", what, k, q, spec.ordered[i]["expr"], e)
                if err:
                    for level, z in lv:
                        x = v[p]
                        p += 1
                        var = e * (1 - e)
                        if opts.get("error") == "wilson":
                            if good and ad <= d * (1 + 1e-9):
                                s = (e + 0.5 * z * z / d + z * math.sqrt(max(0.0, var) / d + 0.25 * z * z / d**2)) / (1 + z * z / d)
                                ctx.check(abs(x - s) <= 1e-5 * (1 + s), "{0}: bin {1} has the upper end of Wilson's interval {2} at level {3}, expected {4}", what, k, x, level, s)
                            continue
                        if good and (var > 1e-5 or num.get((k, i), 0.0) == 0):
                            s = z * math.sqrt(var / d)
                            ctx.check(abs(x - s) <= 1e-5 * s + 1e-7 * math.sqrt(ad) / d, "{0}: bin {1} has error {2} at level {3}, expected {4}", what, k, x, level, s)
        ctx.seen("fractions")
        ctx.seen("bins_compared", len(got))
        if len(chosen) > 1:
            ctx.seen("fractions_two_cuts")
        if g2:
            ctx.seen("fraction_groups")
        if spec.weighted:
            ctx.seen("fraction_weighted")
        if nprof:
            ctx.seen("fraction_profiles")
        ctx.signature(tuple(a["k"] for a in spec.ordered), tuple(chosen), tuple(sorted(opts)))

    # what does not exist is refused
    ctx.must_refuse("table of a profile that is not there", Exception, h.table, "nosuch + 1")
    ctx.must_refuse("table(nosuch=True)", Exception, h.table, nosuch=True)
    ctx.must_refuse("fraction of a cut that is not there", Exception, h.fraction, "nosuch > 1")
    others = [x for x in fixed if not isinstance(x, histbook.cut)]
    if others:
        ctx.must_refuse("fraction of {0}".format(others[0]), Exception, h.fraction, others[0])
    if cuts:
        for bad in ("nosuch", True, "Normal", rng.choice(["clopper-pearson", "agresti-coull", "feldman-cousins", "jeffrey", "bayesian-uniform"])):
            if bad == "nosuch" or bad is True or bad == "Normal" or not any(a["k"] in ("groupby", "groupbin") for a in spec.axes):
                ctx.must_refuse("fraction with error={0!r}".format(bad), Exception, h.fraction, spec.ordered[cuts[0]]["expr"], error=bad)
        ctx.must_refuse("fraction with an unknown option", Exception, h.fraction, spec.ordered[cuts[0]]["expr"], nosuch=1)
    ctx.seen("refused")
    ctx.check(observe.content(h).keys() == full.keys() and repr(observe.content(h)) == repr(full), "reading changed the histogram")
