"""C21: equality and compatibility of histograms see every difference."""
import math

import numpy
import histbook

from hbv import gen, model, mutate, observe

QUICK, THOROUGH = 3500, 150000
RULE = "a case = histograms built and filled alike (must be equal), and a set of histograms, axes or books that differ from them in one respect (must be unequal, and compatible exactly when the binnings agree), compared in both directions; distinct = (kinds of axes, respects in which the others differ)"
REQUIRED = ["equal_unfilled", "equal_filled", "equal_batches", "equal_after_refill", "differ_axis", "differ_spec", "differ_weight", "differ_filter", "differ_defs", "differ_attachment", "differ_content", "differ_one_event", "differ_weight_slightly", "differ_profile_only",
            "differ_flow", "differ_slightly", "axis_equal", "axis_unequal", "axis_hash", "compatible", "incompatible", "compatible_other_expr", "compatible_axis", "foreign", "books_equal", "books_unequal", "books_compatible", "books_incompatible", "nested_books",
            "books_mixed", "empty_fill", "systematics_refused", "systematics_accepted", "matrix"]

ATTACH = [1, 2.5, "text", None, True, [1, 2, 3], {"k": [1, {"x": "y"}]}, 1e300, ""]


def binning(a):
    return tuple(sorted((k, v) for k, v in a.items() if k != "expr"))


def binnings(spec):
    return [binning(a) for a in spec.ordered]


def equal(ctx, x, y, what):
    ctx.check((x == y) is True and (y == x) is True, "{0}: not equal", what)
    ctx.check((x != y) is False and (y != x) is False, "{0}: both == and !=", what)


def unequal(ctx, x, y, what):
    ctx.check((x == y) is False and (y == x) is False, "{0}: equal, but they differ", what)
    ctx.check((x != y) is True and (y != x) is True, "{0}: neither == nor !=", what)


def compatible(ctx, x, y, want, what):
    one, two = ctx.do("compatible", x.compatible, y), ctx.do("compatible", y.compatible, x)
    ctx.check(one == want and two == want, "{0}: compatible is {1} and {2}, expected {3}", what, one, two, want)


def slightly(rng, a):
    """The axis with one number changed by little."""
    b = dict(a)
    k = a["k"]
    f = 1 + 2.0**-rng.choice([30, 44])
    if k == "bin":
        n = rng.choice(["lo", "hi"])
        b[n] = a[n] * f if a[n] else 2.0**-40
    elif k == "split":
        e = list(a["edges"])
        i = rng.randrange(len(e))
        e[i] = e[i] * f if e[i] else 2.0**-40
        if sorted(set(e)) != e:
            return None
        b["edges"] = tuple(e)
    elif k == "groupbin":
        n = rng.choice(["bw", "or"])
        b[n] = a[n] * f if a[n] else 2.0**-40
    else:
        return None
    return b


def other_spec(rng, spec):
    """(specification that differs in one respect, respect)"""
    while True:
        r = rng.random()
        if r < 0.62:
            return mutate.variant(rng, spec, only=["axis", "axis", "axis", "order", "fewer", "more", "profile", "weighting"])
        elif r < 0.72 and spec.weight is not None:
            w = rng.choice(gen.WEIGHTS)
            if w != spec.weight:
                return spec.replace(weight=w), "weight"
        elif r < 0.8:
            f = rng.choice(gen.FILTERS + [None])
            if f != spec.filter and not (f is None and spec.weight is None):
                return spec.replace(filter=f), "filter"
        elif r < 0.9:
            if rng.random() < 0.5 and not spec.defs:
                return spec.replace(defs={"unused": "a + 1"}), "defs added"
            elif spec.defs:
                k = rng.choice(sorted(spec.defs))
                return spec.replace(defs=dict(spec.defs, **{k: spec.defs[k] + " + 1"})), "defs"
        elif r < 0.95:
            att = dict(spec.attachment)
            q = rng.random()
            if att and q < 0.3:
                del att[rng.choice(sorted(att))]
            elif att and q < 0.6:
                att[rng.choice(sorted(att))] = "something else"
            else:
                att["more"] = rng.choice(ATTACH)
            return spec.replace(attachment=att), "attachment"
        else:
            i = rng.randrange(len(spec.axes))
            b = slightly(rng, spec.axes[i])
            if b is not None:
                return spec.replace(axes=[b if j == i else x for j, x in enumerate(spec.axes)]), "slightly " + b["k"]


KIND = {"weight": "differ_weight", "filter": "differ_filter", "attachment": "differ_attachment"}


def differs(spec, one, two):
    """Whether contents (of the model) clearly differ: in which sum."""
    for k in set(one) | set(two):
        x = one.get(k) or model.Bin(len(spec.profiles))
        y = two.get(k) or model.Bin(len(spec.profiles))
        def d(u, v, s):
            return not (math.isnan(u) or math.isnan(v)) and (u == u) and abs(u - v) > 1e-6 * s if not (math.isinf(u) or math.isinf(v)) else u != v and not (math.isnan(u) or math.isnan(v))
        if d(x.w, y.w, max(x.aw, y.aw)) or d(x.w2, y.w2, max(x.aw2, y.aw2)):
            return "w", k
        for i in range(len(spec.profiles)):
            if d(x.wx[i], y.wx[i], max(x.awx[i], y.awx[i])):
                return "wx", k
    return None, None


def run_case(ctx, rng, index):
    spec = gen.gen_spec(rng, defs=0, naxes=rng.choice([1, 1, 2, 2, 3]), weight=0.5, filter=0.3, profiles=0.45, maxgroup=1)
    if rng.random() < 0.3:
        spec = spec.replace(attachment=dict((n, rng.choice(ATTACH)) for n in rng.sample(["k", "l", "m"], rng.choice([1, 2]))))
    if rng.random() < 0.25:
        spec = spec.replace(defs=dict(rng.sample([("d1", "a + b"), ("d2", "a*2")], rng.choice([1, 2]))))
        if rng.random() < 0.7 and not any("d1" in x["expr"] for x in spec.axes) and "d1" in spec.defs:
            spec = spec.replace(profiles=spec.profiles + ["d1"])
    ctx.log("{0} attachment={1}", spec, spec.attachment)
    h = ctx.do("construct", spec.make)
    g = ctx.do("construct", spec.make)
    equal(ctx, h, g, "built alike")
    equal(ctx, h, h, "the same object")
    compatible(ctx, h, g, True, "built alike")
    ctx.seen("equal_unfilled")
    data = gen.gen_data(rng, spec, n=rng.choice([0, 1, 5, 20]))
    if len(data) == 0 and not any(a["k"].startswith("group") for a in spec.axes):
        gen.fill_hist(ctx, h, data, "h")
        equal(ctx, h, g, "filled with no events and not filled")
        ctx.seen("empty_fill")
    else:
        gen.fill_hist(ctx, h, data, "h")
    gen.fill_hist(ctx, g, data, "g")
    equal(ctx, h, g, "filled alike")
    compatible(ctx, h, g, True, "filled alike")
    ctx.seen("equal_filled")
    want = model.fill(spec, data.entries())
    if any(b.w or b.w2 for b in want.values()):
        unequal(ctx, h, ctx.do("construct", spec.make), "filled and not filled")
        ctx.seen("differ_content")
    if len(data) > 1 and not spec.weighted and not spec.profiles:
        x = ctx.do("construct", spec.make)
        c = rng.randrange(len(data) + 1)
        gen.fill_hist(ctx, x, data.take(range(c)), "x")
        gen.fill_hist(ctx, x, data.take(range(c, len(data))), "x")
        equal(ctx, x, h, "filled with the same events in two batches")
        ctx.seen("equal_batches")
    x = ctx.do("copy", h.copy)
    gen.fill_hist(ctx, x, data, "x")
    y = ctx.do("copy", g.copy)
    gen.fill_hist(ctx, y, data, "y")
    equal(ctx, x, y, "copies filled further alike")
    ctx.seen("equal_after_refill")

    # contents that differ
    pool = [(h, want)]
    for k in range(4):
        if not len(data):
            break
        i = rng.randrange(len(data))
        r = rng.random()
        if r < 0.25:
            d2, how = data.take([j for j in range(len(data)) if j != i]), "without event %d" % i
        elif r < 0.5:
            d2, how = data.take(list(range(len(data))) + [i]), "with event %d twice" % i
        else:
            # one field of one event takes the value it has in another data set
            d3 = gen.gen_data(rng, spec, n=8)
            if not len(d3):
                continue
            f = rng.choice(sorted(data.arrays))
            arrays = dict((n, v.copy()) for n, v in data.arrays.items())
            if arrays[f].dtype.kind in "OSU" or d3.arrays[f].dtype.kind in "OSU":
                continue
            arrays[f] = arrays[f].astype(numpy.float64) if arrays[f].dtype.kind == "f" or d3.arrays[f].dtype.kind == "f" else arrays[f].astype(numpy.int64) if arrays[f].dtype.kind in "iu" else arrays[f]
            if f == "w" and rng.random() < 0.5:
                arrays[f][i] = arrays[f][i] * 1.5 + 1
            else:
                arrays[f][i] = d3.arrays[f][0]
            d2 = gen.Data(arrays, gen.rows_of(arrays, len(data)))
            if not (model.unambiguous(spec, d2.rows[i]) and gen.nonan([spec], d2.rows[i])):
                continue
            how = "with {0} of event {1} changed to {2!r}".format(f, i, d2.rows[i][f])
        w2 = model.fill(spec, d2.entries())
        sort, key = differs(spec, want, w2)
        if sort is None:
            continue
        x = ctx.do("construct", spec.make)
        ctx.log(how)
        gen.fill_hist(ctx, x, d2, "x")
        unequal(ctx, x, h, "filled alike but " + how)
        compatible(ctx, x, h, True, how)
        ctx.seen("differ_one_event")
        if sort == "wx":
            ctx.seen("differ_profile_only")
        if "inf" in repr(key) or "nan" in repr(key).lower():
            ctx.seen("differ_flow")
        pool.append((x, w2))
    # every pair of the pool
    for i, (x, wx) in enumerate(pool):
        for y, wy in pool[:i]:
            if differs(spec, wx, wy)[0] is not None:
                unequal(ctx, x, y, "pool")
                ctx.seen("matrix")

    # a single event whose weight differs a little
    if spec.weight == "w" and rng.random() < 0.5:
        one = gen.gen_data(rng, spec, n=6)
        for i, r in enumerate(one.rows):
            if model.locate(spec, r) is not None and model.weight_of(spec, dict(r, w=1.0)) == 1.0 and model.unambiguous(spec, dict(r, w=1.0)):
                d1 = one.take([i])
                d1.arrays["w"] = numpy.array([1.0])
                d2 = one.take([i])
                d2.arrays["w"] = numpy.array([1.0 + 2.0**-rng.choice([20, 40, 51])])
                x, y = spec.make(), spec.make()
                gen.fill_hist(ctx, x, d1, "x")
                gen.fill_hist(ctx, y, d2, "y")
                if not any("w" in a["expr"] for a in spec.axes):
                    unequal(ctx, x, y, "weights that differ a little")
                    ctx.seen("differ_weight_slightly")
                break

    # specifications that differ in one respect
    whats = []
    for k in range(4):
        other, what = other_spec(rng, spec)
        ctx.log("{0}: {1} attachment={2}", what, other, other.attachment)
        o = ctx.do("construct", other.make)
        unequal(ctx, o, spec.make(), "unfilled, " + what)
        try:
            d2 = gen.gen_data(rng, [spec, other], n=rng.choice([0, 3]))
        except KeyError:
            d2 = None
        if d2 is not None:
            x = ctx.do("construct", spec.make)
            ctx.do("fill", x.fill, dict(d2.arrays))
            ctx.do("fill", o.fill, dict(d2.arrays))
            unequal(ctx, o, x, "filled, " + what)
        same = binnings(spec) == binnings(other)
        compatible(ctx, h, o, same, what)
        if same:
            ctx.seen("compatible")
            if what.endswith(".expr"):
                ctx.seen("compatible_other_expr")
        else:
            ctx.seen("incompatible")
        ctx.seen(KIND.get(what, "differ_defs" if what.startswith("defs") else "differ_slightly" if what.startswith("slightly") else "differ_axis" if "." in what else "differ_spec"))
        whats.append(what)

    # axes by themselves
    a = rng.choice(spec.axes)
    x, y = model.make_axis(a), model.make_axis(a)
    equal(ctx, x, y, "axes {0!r}".format(x))
    ctx.check(hash(x) == hash(y), "hashes of equal axes {0!r} differ", x)
    ctx.check(len({x: 1, y: 2}) == 1, "equal axes {0!r} are different keys", x)
    compatible(ctx, x, y, True, "axis")
    ctx.seen("axis_equal")
    ctx.seen("axis_hash")
    hx, gx = axis_in(h, spec, a), axis_in(g, spec, a)
    equal(ctx, hx, gx, "axes of histograms built alike {0!r}".format(hx))
    ctx.check(hash(hx) == hash(gx), "hashes of equal axes {0!r} differ", hx)
    b, name = mutate.variant_axis(rng, a)
    z = model.make_axis(b)
    unequal(ctx, x, z, "axes {0!r} and {1!r}".format(x, z))
    compatible(ctx, x, z, binning(a) == binning(b), "axes {0!r} and {1!r}".format(x, z))
    b = slightly(rng, a)
    if b is not None:
        z = model.make_axis(b)
        unequal(ctx, x, z, "axes {0!r} and {1!r}".format(x, z))
        compatible(ctx, x, z, False, "axes {0!r} and {1!r}".format(x, z))
    ctx.seen("axis_unequal")
    ctx.seen("compatible_axis")
    p, q = histbook.profile("a"), histbook.profile("a + b")
    unequal(ctx, p, q, "profiles")
    equal(ctx, p, histbook.profile("a"), "profiles")
    ctx.check(hash(p) == hash(histbook.profile("a")), "hashes of equal profiles differ")
    unequal(ctx, p, x, "profile and axis")

    # other objects
    for z in (None, 1, "x", [], {}, histbook.Book(), a, x):
        unequal(ctx, h, z, "histogram and {0!r}".format(z))
    for z in (None, 1, "x", [], h, histbook.Book()):
        unequal(ctx, x, z, "axis and {0!r:.30}".format(z))
    ctx.seen("foreign")
    ctx.signature(tuple(s["k"] for s in spec.ordered), tuple(sorted(set(whats))))
    if rng.random() < 0.5:
        books(ctx, rng, spec, data)


def axis_in(h, spec, a):
    for x in h.axis:
        if getattr(x, "expr", None) == a["expr"] or str(getattr(x, "expr", "")) == a["expr"]:
            return x
    return list(h.axis)[spec.ordered.index(a)]


def build(ctx, rng, entries, nested, cls=histbook.Book):
    out = cls()
    for name, s, d in entries:
        x = s.make()
        if d is not None:
            x.fill(dict(d.arrays))
        out[name] = x
    return out


def books(ctx, rng, spec, data):
    nested = rng.random() < 0.5
    p = "n/" if nested else ""
    s2 = gen.gen_spec(rng, defs=0, naxes=1, weight=0.3, filter=0, profiles=0.3)
    d2 = gen.gen_data(rng, s2, n=5)
    entries = [("x", spec, data), (p + "y", s2, d2), (p + "z", spec, None)]
    one = ctx.do("book", build, ctx, rng, entries, nested)
    two = ctx.do("book", build, ctx, rng, entries, nested)
    equal(ctx, one, two, "books built alike")
    compatible(ctx, one, two, True, "books built alike")
    ctx.seen("books_equal")
    ctx.seen("books_compatible")
    if nested:
        ctx.seen("nested_books")
    # a histogram with other contents, a specification that differs, an attachment, another name, one more, one fewer, a kind of book
    want = model.fill(s2, d2.entries())
    if any(b.w or b.w2 for b in want.values()):
        three = build(ctx, rng, [entries[0], (p + "y", s2, None), entries[2]], nested)
        unequal(ctx, one, three, "books, y not filled")
        compatible(ctx, one, three, True, "books, y not filled")
        ctx.seen("books_unequal")
    other, what = other_spec(rng, spec)
    three = build(ctx, rng, entries[:2] + [(p + "z", other, None)], nested)
    unequal(ctx, one, three, "books, z differs in " + what)
    same = binnings(spec) == binnings(other)
    compatible(ctx, one, three, same, "books, z differs in " + what)
    three = build(ctx, rng, entries[:2], nested)
    unequal(ctx, one, three, "books, z missing")
    compatible(ctx, one, three, False, "books, z missing")
    three = build(ctx, rng, entries[:2] + [(p + "zz", spec, None)], nested)
    unequal(ctx, one, three, "books, z named zz")
    compatible(ctx, one, three, False, "books, z named zz")
    three = two.copy()
    equal(ctx, one, three, "book and the copy of one built alike")
    three.attach("k", rng.choice(ATTACH))
    unequal(ctx, one, three, "books, attachment")
    if nested:
        three = two.copy()
        three["n"].attach("k", 1)
        unequal(ctx, one, three, "books, attachment of a nested book")
    # a histogram here, a book there
    three = build(ctx, rng, entries[:2] + [(p + "z/inner", spec, None)], nested)
    unequal(ctx, one, three, "books, z a book")
    compatible(ctx, one, three, False, "books, z a book")
    ctx.seen("books_mixed")
    ctx.seen("books_incompatible")
    for z in (None, 1, "x", {}, spec.make()):
        unequal(ctx, one, z, "book and {0!r:.30}".format(z))
    # SystematicsBooks accept compatible histograms only
    x, y = spec.make(), other.make()
    if not x.has("systematic"):
        x.attach("systematic", [0])
    y.attach("systematic", [1])
    if same:
        sb = ctx.do("SystematicsBook, " + what, histbook.SystematicsBook, {"x": x, "y": y})
        ctx.check(sorted(sb.keys()) == ["x", "y"], "SystematicsBook has {0}", sorted(sb.keys()))
        ctx.seen("systematics_accepted")
    else:
        ctx.must_refuse("SystematicsBook, " + what, ValueError, histbook.SystematicsBook, {"x": x, "y": y})
        ctx.seen("systematics_refused")
