"""C17: axis keys and items name the bins they label."""
import itertools
import math

import numpy
import histbook
import histbook.axis

from hbv import gen, model, observe
from hbv.checks import c11

Interval, IntervalNaN = histbook.axis.Interval, histbook.axis.IntervalNaN

QUICK, THOROUGH = 22500, 200000
RULE = "a case = a filled histogram whose keys and items (also after select/rebin) are checked for order, adjacency, closedness and for containing the events counted there, or a pool of intervals compared pairwise; distinct = axis parameters"
REQUIRED = ["axes_bin", "axes_split", "axes_intbin", "axes_cut", "axes_groupby", "axes_groupbin", "events_in_key", "events_on_edges", "events_left_out", "derived_axes", "intervals_pairs", "intervals_equal", "intervals_triples", "items_compared",
            "group_nan_last", "groupkeys_union", "refused", "decimal_edges", "multidimensional"]


def inside(key, v):
    """Whether the value is in the bin of this label, by the label alone."""
    if isinstance(key, IntervalNaN):
        return v != v
    if isinstance(key, Interval):
        if v != v:
            return False
        lo = key.low < v or (key.closedlow and key.low == v) or (v == key.low and math.isinf(v))
        hi = v < key.high or (key.closedhigh and key.high == v) or (v == key.high and math.isinf(v))
        return lo and hi
    return v == key


def isbool(x):
    return isinstance(x, (bool, numpy.bool_))


def structure(ctx, axis, what):
    """The keys of a fixed axis in themselves."""
    keys = list(axis.keys())
    kind = type(axis).__name__
    ctx.seen("axes_" + kind)
    ctx.check(len(keys) == axis.totbins, "{0}: {1} keys for {2} bins", what, len(keys), axis.totbins)
    ctx.check(len(set(keys)) == len(keys), "{0}: duplicate keys {1}", what, keys)
    if kind == "cut":
        ctx.check(keys == [False, True] and all(isbool(x) for x in keys), "{0}: keys {1}", what, keys)
        return keys
    fin = keys[axis.finiteslice]
    ctx.check(len(fin) == axis.numbins, "{0}: finiteslice gives {1} of {2} bins", what, len(fin), axis.numbins)
    rest = list(keys)
    if kind == "intbin":
        ctx.check(fin == list(range(axis.min, axis.max + 1)) and all(isinstance(x, int) for x in fin), "{0}: integer keys {1}", what, fin)
        if axis.underflow:
            ctx.check(repr(keys[0]) == repr(Interval(float("-inf"), axis.min, closedlow=True, closedhigh=False)) or
                      (isinstance(keys[0], Interval) and keys[0].low == float("-inf") and keys[0].high == axis.min and not keys[0].closedhigh and keys[0].closedlow), "{0}: underflow {1!r}", what, keys[0])
            rest.pop(0)
        if axis.overflow:
            ctx.check(isinstance(keys[-1], Interval) and keys[-1].low == axis.max and keys[-1].high == float("inf") and not keys[-1].closedlow and keys[-1].closedhigh, "{0}: overflow {1!r}", what, keys[-1])
            rest.pop()
        ctx.check(rest == fin, "{0}: keys {1}", what, keys)
        return keys
    ctx.check(all(isinstance(x, Interval) for x in keys), "{0}: keys {1}", what, keys)
    if axis.nanflow:
        ctx.check(isinstance(rest[-1], IntervalNaN), "{0}: last key is {1!r}, not NaN", what, rest[-1])
        rest.pop()
    ctx.check(not any(isinstance(x, IntervalNaN) for x in rest), "{0}: NaN among {1}", what, rest)
    ctx.check(all(type(x) is Interval for x in rest), "{0}: keys {1}", what, rest)
    cl = axis.closedlow
    for x in rest:
        ctx.check(isinstance(x.low, float) and isinstance(x.high, float) and x.low < x.high, "{0}: empty or reversed interval {1!r}", what, x)
        ctx.check(bool(x.closedlow) == (cl or x.low == float("-inf")) and bool(x.closedhigh) == ((not cl) or x.high == float("inf")), "{0}: closedness of {1!r} with closedlow={2}", what, x, cl)
    for x, y in zip(rest[:-1], rest[1:]):
        ctx.check(x.high == y.low, "{0}: {1!r} and {2!r} do not adjoin", what, x, y)
        ctx.check(x < y and not y < x, "{0}: {1!r} and {2!r} out of order", what, x, y)
    if axis.underflow:
        ctx.check(rest[0].low == float("-inf") and rest[0].high == axis.low, "{0}: underflow {1!r}, axis starts at {2}", what, rest[0], axis.low)
        rest.pop(0)
    if axis.overflow:
        ctx.check(rest[-1].high == float("inf") and rest[-1].low == axis.high, "{0}: overflow {1!r}, axis ends at {2}", what, rest[-1], axis.high)
        rest.pop()
    ctx.check(rest == fin, "{0}: finite bins {1}, expected {2}", what, fin, rest)
    if kind == "split":
        ctx.check([(x.low, x.high) for x in fin] == list(zip(axis.edges[:-1], axis.edges[1:])), "{0}: bins {1} for edges {2}", what, fin, axis.edges)
        for i, x in enumerate(fin):
            ctx.check(abs(axis.binwidth(i) - (x.high - x.low)) <= 1e-12 * abs(x.high - x.low), "{0}: binwidth({1}) is {2}", what, i, axis.binwidth(i))
            ctx.check(axis.binwidth(i - len(fin)) == axis.binwidth(i), "{0}: binwidth({1})", what, i - len(fin))
    elif fin:
        w = (axis.high - axis.low) / axis.numbins
        scale = max(abs(axis.low), abs(axis.high), w)
        ctx.check(abs(axis.binwidth - w) <= 1e-12 * scale, "{0}: binwidth is {1}, expected {2}", what, axis.binwidth, w)
        ctx.check(fin[0].low == axis.low and fin[-1].high == axis.high, "{0}: bins from {1!r} to {2!r}, axis from {3} to {4}", what, fin[0].low, fin[-1].high, axis.low, axis.high)
        for i, x in enumerate(fin):
            ctx.check(abs(x.low - (axis.low + i * w)) <= 1e-12 * scale, "{0}: bin {1} starts at {2!r}", what, i, x.low)
    return keys


def group_items(ctx, axis, node, what):
    """items of a group axis: order, pairing."""
    items = axis.items(node)
    kind = type(axis).__name__
    ctx.seen("axes_" + kind)
    ctx.check(len(items) == len(node), "{0}: {1} items of {2} groups", what, len(items), len(node))
    ctx.check(list(axis.keys(node)) == [k for k, _ in items], "{0}: keys and items differ", what)
    left = dict(node)
    labels = []
    for k, x in items:
        if kind == "groupby":
            raw = k
        elif isinstance(k, IntervalNaN):
            raw = "NaN"
        else:
            ctx.check(type(k) is Interval and bool(k.closedlow) == axis.closedlow and bool(k.closedhigh) == (not axis.closedlow), "{0}: key {1!r}", what, k)
            raw = k.low
            ctx.check(k.high == k.low + axis.binwidth, "{0}: width of {1!r}", what, k)
        ctx.check(raw in left and left.pop(raw) is x, "{0}: item {1!r} is not paired with its content", what, k)
        labels.append(raw)
    if "NaN" in labels and kind == "groupbin":
        ctx.check(labels[-1] == "NaN", "{0}: NaN is not the last of {1}", what, labels)
        labels.pop()
        if labels:
            ctx.seen("group_nan_last")
    ctx.check(all(x < y for x, y in zip(labels[:-1], labels[1:])), "{0}: keys out of order: {1}", what, labels)
    return items


def one_event(ctx, rng):
    """One axis, one event at a time: it is counted where the key contains it, else nowhere."""
    a = gen.widen(rng, gen.gen_axis(rng, kind=rng.choice(["bin", "bin", "split", "split", "intbin", "groupbin", "groupbin", "groupby", "cut"]), fieldonly=True))
    ctx.log(model.show_axis(a))
    h = ctx.do("construct", lambda: histbook.Hist(model.make_axis(a)))
    axis = h.axis[0]
    group = isinstance(axis, histbook.axis.GroupAxis)
    keys = None if group else structure(ctx, axis, model.show_axis(a))
    if not group:
        ctx.check(h.shape[0] == len(keys), "shape {0} for {1} keys", h.shape, len(keys))
        ctx.check([k for k, _ in axis.items(list(range(len(keys))))] == list(keys) and [v for _, v in axis.items(list(range(len(keys))))] == list(range(len(keys))), "items do not pair keys with the content")
        ctx.must_refuse("items of a longer content", Exception, axis.items, [0] * (len(keys) + 1))
        ctx.must_refuse("items of a shorter content", Exception, axis.items, [0] * (len(keys) - 1))
    else:
        ctx.must_refuse("items of an array", TypeError, axis.items, numpy.zeros(3))
    ctx.seen("refused")
    if a["k"] in ("bin", "split") and any(e != round(e * 1024) / 1024.0 for e in model.edges_of(a)):
        ctx.seen("decimal_edges")
    spec = model.Spec([a])
    near = gen.interesting(spec).get(a["expr"])
    for _ in range(6):
        f = a["expr"]
        data = gen.gen_data(rng, spec, n=1)
        if len(data) == 0:
            continue
        v = data.rows[0][f]
        h.clear()
        gen.fill_hist(ctx, h, data)
        where = model.find(a, v)
        if group:
            node = h[()]
            items = group_items(ctx, axis, node, "after {0!r}".format(v))
            if where is None:
                ctx.check(all(float(x.sum()) == 0 for x in node.values()), "event {0!r} has no bin but is counted", v)
                ctx.seen("events_left_out")
                continue
            hit = [k for k, x in items if float(x.sum()) == 1]
        else:
            col = h.table(recarray=False).tolist()
            hit = [k for k, x in axis.items(col) if x[0] == 1]
            ctx.check(sum(x[0] for x in col) == len(hit), "contents {0} after one event", col)
            if where is None:
                ctx.check(hit == [], "event {0!r} has no bin but is counted in {1}", v, hit)
                ctx.check(a["k"] == "intbin" or not any(inside(k, v) for k in keys), "event {0!r} is left out although a key contains it", v)
                ctx.seen("events_left_out")
                continue
        ctx.check(len(hit) == 1, "event {0!r} is counted in {1}", v, hit)
        ctx.check(observe.keyof(axis, hit[0]) == where, "event {0!r} is counted in {1!r}, expected {2}", v, hit[0], where)
        # and the label contains the value
        if a["k"] == "groupby":
            ctx.check(hit[0] == v and isinstance(hit[0], (str, numpy.str_)) == isinstance(v, str), "event {0!r} has key {1!r}", v, hit[0])
        elif a["k"] in ("bin", "split", "groupbin", "intbin") and isinstance(hit[0], Interval):
            dyadic = near is None or all(e == round(e * 1024) / 1024.0 for e in near)
            if dyadic or a["k"] == "split" or all(abs(v - e) > 1e-9 for e in near):
                ctx.check(inside(hit[0], v) or (a["k"] == "groupbin" and abs(v) > 1e15), "event {0!r} is counted in the bin {1!r}", v, hit[0])
        else:
            ctx.check(inside(hit[0], v), "event {0!r} is counted in the bin {1!r}", v, hit[0])
        ctx.seen("events_in_key")
        if near and v in near:
            ctx.seen("events_on_edges")
    ctx.signature(repr(sorted(a.items(), key=repr)))


def whole(ctx, rng):
    """Several axes, many events, derived histograms."""
    spec = gen.gen_spec(rng, naxes=rng.choice([1, 2, 2, 3]), profiles=0.1, weight=0.1, filter=0)
    ctx.log("{0}", spec)
    h = ctx.do("construct", spec.make)
    entries = []
    for _ in range(rng.choice([1, 2])):
        data = gen.gen_data(rng, spec, n=rng.choice([5, 20, 40]))
        gen.fill_hist(ctx, h, data)
        entries += data.entries()
    targets = [(h, spec, entries)]
    for _ in range(2):
        op = rng.choice(["select", "rebin", "rebinby"])
        try:
            if op == "select":
                text = c11.selection(rng, h)
                if text is None:
                    continue
                d = ctx.may("select({0!r})".format(text), Exception, h.select, text)
            else:
                fac = [a for a in h.axis if type(a).__name__ in (("bin", "intbin", "split", "groupbin") if op == "rebinby" else ("bin", "split"))]
                if not fac:
                    continue
                a = rng.choice(fac)
                if op == "rebinby":
                    d = ctx.may("rebinby({0}, 2)".format(a), Exception, h.rebinby, a, 2)
                else:
                    e = [x.low for x in list(a.keys())[a.finiteslice]][::2] + [a.high]
                    d = ctx.may("rebin({0}, {1})".format(a, e), Exception, h.rebin, a, sorted(set(e)))
            targets.append((d, None, None))
            ctx.seen("derived_axes")
        except Exception as err:
            if type(err).__name__ != "Refused":
                raise
    for x, s, ent in targets:
        group, fixed, prof = observe.axes(x)
        keys = []
        for i, ax in enumerate(fixed):
            if type(ax).__name__ == "_nullaxis":
                return
            keys.append(structure(ctx, ax, "{0} of {1}".format(ax, x)))
        ctx.check(tuple(len(k) for k in keys) == tuple(x.shape[:-1]), "shape {0} of {1}, keys {2}", x.shape, x, [len(k) for k in keys])
        if len(fixed) > 1:
            ctx.seen("multidimensional")
        want = model.fill(s, ent) if s is not None else None
        tab = x.table(recarray=False)
        seen = [set() for _ in group]

        def recurse(j, node, raw, path):
            if j < len(group):
                ctx.check(isinstance(node, dict) and isinstance(raw, dict) and list(sorted(map(repr, node))) == list(sorted(map(repr, raw))), "table and contents have different groups")
                for k, y in group_items(ctx, group[j], raw, str(x)):
                    r = k if type(group[j]).__name__ == "groupby" else "NaN" if isinstance(k, IntervalNaN) else k.low
                    seen[j].add(r)
                    recurse(j + 1, node[r], y, path + (observe.keyof(group[j], k),))
            elif fixed:
                def deeper(i, arr, keyspath):
                    for k, y in fixed[i].items(arr):
                        p = keyspath + (observe.keyof(fixed[i], k),)
                        if i + 1 < len(fixed):
                            deeper(i + 1, y, p)
                        elif want is not None:
                            b = want.get(p)
                            ctx.check(abs(y[0] - (0.0 if b is None else b.w)) <= 1e-9 * (1 if b is None else b.aw), "items of {0}: {1} paired with {2}, expected {3}", fixed[i], p, y[0], 0.0 if b is None else b.w)
                            ctx.seen("items_compared")
                deeper(0, node, path)
        recurse(0, tab, x[()], ())
        for j, g in enumerate(group):
            got = x.groupkeys(rng.choice([g, j, str(g.expr)]) if len([1 for y in x.axis if str(y.expr) == str(g.expr)]) == 1 else g)
            ctx.check(isinstance(got, set) and got == seen[j], "groupkeys of {0} is {1}, expected {2}", g, got, seen[j])
            if j > 0:
                ctx.seen("groupkeys_union")
    ctx.signature(tuple(model.show_axis(a) for a in spec.axes))


def intervals(ctx, rng):
    edges = [float("-inf"), -1.0, 0.0, 0.5, 1.0, 1, 2.0, float("inf")]
    pool = [IntervalNaN(), IntervalNaN()]
    for _ in range(8):
        lo, hi = sorted(rng.sample(edges, 2))
        if lo == hi:
            continue
        pool.append(Interval(lo, hi, closedlow=rng.random() < 0.5, closedhigh=rng.random() < 0.5))
    a = gen.gen_axis(rng, kind=rng.choice(["bin", "split"]))
    pool += [k for k in model.make_axis(a).keys()][:6]
    pool += [Interval(x.low, x.high, closedlow=x.closedlow, closedhigh=x.closedhigh) for x in rng.sample(pool, 3) if not isinstance(x, IntervalNaN)]
    for x in pool:
        y = eval(repr(x), {"Interval": Interval, "IntervalNaN": IntervalNaN, "inf": float("inf"), "nan": float("nan")})
        ctx.check(x == y and hash(x) == hash(y), "{0!r} does not equal its repr", x)
        if not isinstance(x, IntervalNaN):
            t = str(x)
            ctx.check(t[0] == ("[" if x.closedlow else "(") and t[-1] == ("]" if x.closedhigh else ")"), "{0!r} is shown as {1}", x, t)
            lo, hi = [float(v) for v in t[1:-1].split(",")]
            ctx.check(abs(lo - x.low) <= 1e-3 * abs(x.low) if math.isfinite(x.low) else lo == x.low, "{0!r} is shown as {1}", x, t)
            ctx.check(abs(hi - x.high) <= 1e-3 * abs(x.high) if math.isfinite(x.high) else hi == x.high, "{0!r} is shown as {1}", x, t)
        for other in (1, "x", None, 2.5, (0, 1)):
            ctx.check(not (x == other) and x != other, "{0!r} equals {1!r}", x, other)

    def same(x, y):
        if isinstance(x, IntervalNaN) or isinstance(y, IntervalNaN):
            return isinstance(x, IntervalNaN) and isinstance(y, IntervalNaN)
        return (x.low, x.high, bool(x.closedlow), bool(x.closedhigh)) == (y.low, y.high, bool(y.closedlow), bool(y.closedhigh))
    for x, y in itertools.product(pool, pool):
        eq = same(x, y)
        ctx.seen("intervals_pairs")
        ctx.check((x == y) == eq and (x != y) == (not eq), "{0!r} == {1!r} is {2}", x, y, x == y)
        if eq:
            ctx.check(hash(x) == hash(y), "hashes of equal {0!r} and {1!r} differ", x, y)
            if x is not y:
                ctx.seen("intervals_equal")
        ctx.check([bool(x < y), eq, bool(y < x)].count(True) == 1, "{0!r} < {1!r}: {2}, ==: {3}, >: {4}", x, y, x < y, eq, y < x)
        ctx.check(bool(x > y) == bool(y < x) and bool(x <= y) == (not bool(y < x)) and bool(x >= y) == (not bool(x < y)), "comparisons of {0!r} and {1!r} contradict each other", x, y)
        if isinstance(y, IntervalNaN) and not eq:
            ctx.check(x < y, "NaN is not after {0!r}", x)
        if not isinstance(x, IntervalNaN) and not isinstance(y, IntervalNaN) and x.high <= y.low and x.low < y.low:
            ctx.check(x < y, "{0!r} is not before {1!r}", x, y)
    for x, y, z in itertools.product(rng.sample(pool, min(7, len(pool))), repeat=3):
        if x < y and y < z:
            ctx.check(x < z, "order is not transitive for {0!r}, {1!r}, {2!r}", x, y, z)
            ctx.seen("intervals_triples")
    s = sorted(pool)
    ctx.check(all(not (y < x) for x, y in zip(s[:-1], s[1:])), "sorted is not in order")
    ctx.check(len(set(pool)) == len([1 for i, x in enumerate(pool) if not any(same(x, y) for y in pool[:i])]), "set of intervals has {0} members", len(set(pool)))
    ctx.signature("intervals", repr(s))


def run_case(ctx, rng, index):
    r = index % 8
    if r in (0, 1, 2, 3):
        one_event(ctx, rng)
    elif r == 7:
        intervals(ctx, rng)
    else:
        whole(ctx, rng)
