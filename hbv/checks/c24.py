"""C24: axes, histograms and books report what they were declared with; declarations without meaning are refused."""
import numpy
import histbook
import histbook.axis

from hbv import gen, model, observe

QUICK, THOROUGH = 13500, 300000
RULE = "a case = an axis declared in one of many equivalent ways (argument styles, number types, order of edges), its attributes, copy, relabelling and conversions compared with the declaration and by filling; a histogram and a book driven through attachment operations against a dict; declarations without meaning; distinct = (axis parameters, way of declaring)"
REQUIRED = ["kind_bin", "kind_split", "kind_intbin", "kind_cut", "kind_groupby", "kind_groupbin", "kind_profile", "positional", "keywords", "numpy_numbers", "unsorted_edges", "scalar_edge", "defaults", "copies", "relabelled", "relabelled_filled",
            "bin_to_split", "intbin_to_bin", "refused_declarations", "hists", "attachments", "attachment_defaults", "attachment_missing", "book_attachments", "fluent_weight", "fluent_filter", "fluent_systematic", "lookup_by_class", "lookup_by_class_refused", "shapes", "assertcompatible_accepted", "assertcompatible_refused"]

NAN, INF = float("nan"), float("inf")
ATTRS = {"groupby": ["expr"], "cut": ["expr"], "profile": ["expr"], "groupbin": ["expr", "binwidth", "origin", "nanflow", "closedlow"],
         "bin": ["expr", "numbins", "low", "high", "underflow", "overflow", "nanflow", "closedlow"], "intbin": ["expr", "min", "max", "underflow", "overflow"],
         "split": ["expr", "edges", "underflow", "overflow", "nanflow", "closedlow"]}
FLAGS = ("underflow", "overflow", "nanflow", "closedlow")
BAD = [None, "1", 1j, [1], object(), {}]


def declared(a):
    """Attributes by name, from the model's axis."""
    names = {"n": "numbins", "lo": "low", "hi": "high", "u": "underflow", "o": "overflow", "nan": "nanflow", "cl": "closedlow", "bw": "binwidth", "or": "origin"}
    return dict((names.get(n, n), x) for n, x in a.items() if n != "k")


def totbins(a):
    n = {"bin": lambda: a["n"], "split": lambda: len(a["edges"]) - 1, "intbin": lambda: a["max"] - a["min"] + 1, "cut": lambda: 2}[a["k"]]()
    return n, n + sum(1 for f in ("u", "o", "nan") if a.get(f))


def number(ctx, rng, x):
    """The same number in another type."""
    r = rng.random()
    if r < 0.5:
        return x
    ctx.seen("numpy_numbers")
    if isinstance(x, int):
        return rng.choice([numpy.int64, numpy.int32, numpy.int16])(x)
    if x == int(x) and r < 0.7:
        return rng.choice([int, numpy.int64])(x)
    return numpy.float64(x) if float(numpy.float32(x)) != x or r < 0.85 else numpy.float32(x)


def flag(rng, x):
    return numpy.bool_(x) if rng.random() < 0.2 else x


def declare(ctx, rng, a):
    """Make the axis in one of the ways that declare it."""
    d = declared(a)
    k = a["k"]
    args = dict(d)
    for n in args:
        if n in FLAGS:
            args[n] = flag(rng, args[n])
        elif n == "edges":
            e = [number(ctx, rng, x) for x in args[n]]
            if rng.random() < 0.4:
                rng.shuffle(e)
                ctx.seen("unsorted_edges")
            if len(e) == 1 and rng.random() < 0.6:
                args[n] = e[0]
                ctx.seen("scalar_edge")
            else:
                args[n] = rng.choice([list, tuple, lambda x: numpy.array([float(y) for y in x])])(e)
        elif n != "expr":
            args[n] = number(ctx, rng, args[n])
    order = ATTRS[k]
    npos = rng.randrange(len(order) + 1)
    default = dict((n, True) for n in FLAGS)
    default["origin"] = 0
    pos, kw = [args[n] for n in order[:npos]], {}
    for n in order[npos:]:
        if n in default and d[n] == default[n] and rng.random() < 0.6:
            ctx.seen("defaults")
        else:
            kw[n] = args[n]
    if pos:
        ctx.seen("positional")
    if kw:
        ctx.seen("keywords")
    return ctx.do("{0}(*{1}, **{2})".format(k, pos, kw), getattr(histbook, k), *pos, **kw)


def check_axis(ctx, ax, a, what):
    k = a["k"]
    ctx.check(type(ax) is getattr(histbook, k), "{0} is a {1}", what, type(ax))
    for n, x in declared(a).items():
        got = ctx.do("{0}.{1}".format(what, n), getattr, ax, n)
        if n == "edges":
            got = tuple(got)
        ctx.check(got == x and (not isinstance(x, bool) or got is x or isinstance(got, (bool, numpy.bool_))), "{0}.{1} is {2!r}, declared {3!r}", what, n, got, x)
    if k in ("bin", "split", "intbin", "cut"):
        n, tot = totbins(a)
        ctx.check(ax.numbins == n and ax.totbins == tot, "{0}: numbins {1}, totbins {2}, expected {3}, {4}", what, ax.numbins, ax.totbins, n, tot)
        if k != "cut":
            sl = ax.finiteslice
            ctx.check(list(range(tot))[sl] == list(range(1 if a["u"] else 0, (1 if a["u"] else 0) + n)), "{0}: finiteslice {1}", what, sl)
            if k == "split":
                ctx.check(ax.low == a["edges"][0] and ax.high == a["edges"][-1], "{0}: low {1}, high {2}", what, ax.low, ax.high)
                for i in range(n):
                    ctx.check(ax.binwidth(i) == a["edges"][i + 1] - a["edges"][i] == ax.binwidth(i - n), "{0}: binwidth({1})", what, i)
                for i in (n, n + 1, -n - 1, -n - 2):
                    ctx.must_refuse("{0}.binwidth({1})".format(what, i), (IndexError,), ax.binwidth, i)


def nonsense(rng):
    """(text, callable) of a declaration that has no meaning."""
    hb = histbook
    bad = rng.choice(BAD)
    flagname = rng.choice(FLAGS)
    badflag = rng.choice([None, 0, 1, "yes", 1.0, []])
    n = rng.choice([1, 2, 5])
    lo, hi = rng.choice([(0, 1), (-2, 2), (0.5, 0.75)])
    return rng.choice([
        ("bin without bins", lambda: hb.bin("x", 0, lo, hi, underflow=False, overflow=False, nanflow=False)),
        ("bin reversed", lambda: hb.bin("x", n, hi, lo)),
        ("bin empty range", lambda: hb.bin("x", n, lo, lo)),
        ("bin negative number", lambda: hb.bin("x", -n, lo, hi)),
        ("bin fractional number", lambda: hb.bin("x", n + 0.5, lo, hi)),
        ("bin float number", lambda: hb.bin("x", float(n), lo, hi)),
        ("bin low {0!r}".format(bad), lambda: hb.bin("x", n, bad, hi)),
        ("bin high {0!r}".format(bad), lambda: hb.bin("x", n, lo, bad)),
        ("bin number {0!r}".format(bad), lambda: hb.bin("x", bad, lo, hi)),
        ("bin not finite", lambda: hb.bin("x", n, *rng.choice([(NAN, 1), (0, NAN), (-INF, 0), (0, INF), (-INF, INF), (NAN, NAN)]))),
        ("bin {0}={1!r}".format(flagname, badflag), lambda: hb.bin("x", n, lo, hi, **{flagname: badflag})),
        ("intbin reversed", lambda: hb.intbin("x", n, n - 1)),
        ("intbin fractional", lambda: hb.intbin("x", *rng.choice([(0.5, 2), (0, 1.5), (0.0, 2), (0, 2.0)]))),
        ("intbin min {0!r}".format(bad), lambda: hb.intbin("x", bad, 2)),
        ("intbin max {0!r}".format(bad), lambda: hb.intbin("x", 2, bad)),
        ("intbin flag {0!r}".format(badflag), lambda: hb.intbin("x", 0, 2, **{rng.choice(["underflow", "overflow"]): badflag})),
        ("split without edges", lambda: hb.split("x", rng.choice([[], (), numpy.array([])]))),
        ("split duplicate edges", lambda: hb.split("x", rng.choice([[1, 1], [0, 1, 2, 1.0], (0.5, 0.25, 0.5), [numpy.float64(2), 2]]))),
        ("split edges {0!r}".format(bad), lambda: hb.split("x", [0, bad])),
        ("split NaN", lambda: hb.split("x", rng.choice([[NAN], [0, NAN, 1], NAN]))),
        ("split without bins", lambda: hb.split("x", [1], underflow=False, overflow=False, nanflow=False)),
        ("split {0}={1!r}".format(flagname, badflag), lambda: hb.split("x", [0, 1], **{flagname: badflag})),
        ("groupbin width", lambda: hb.groupbin("x", rng.choice([0, -1, 0.0, -0.5, NAN, INF, -INF]))),
        ("groupbin width {0!r}".format(bad), lambda: hb.groupbin("x", bad)),
        ("groupbin origin", lambda: hb.groupbin("x", 1, origin=rng.choice([NAN, INF, -INF] + BAD))),
        ("groupbin flag {0!r}".format(badflag), lambda: hb.groupbin("x", 1, **{rng.choice(["nanflow", "closedlow"]): badflag})),
        ("unknown option", lambda: rng.choice([hb.bin, lambda *a, **k: hb.Hist(hb.bin(*a), **k)])("x", n, lo, hi, **{rng.choice(["bogus", "wieght", "closed"]): True})),
        ("not an axis", lambda: hb.Hist(rng.choice(["x", 5, None, ("x", 2, 0, 1)]))),
        ("not an expression", lambda: hb.Hist(hb.bin(rng.choice(["x +", "", "x = 3", "x; y", "x y", "(x", "def", "for x in y"]), n, lo, hi))),
        ("weight not an expression", lambda: hb.Hist(hb.bin("x", n, lo, hi), weight=rng.choice(["", "w +", "w w", [1]]))),
        ("filter not an expression", lambda: hb.Hist(hb.bin("x", n, lo, hi), filter=rng.choice(["", "p and", "p q", 3]))),
    ])


def same(ctx, one, two, what):
    ctx.check(one == two and not one != two and hash(one) == hash(two), "{0}: {1} and {2} are not equal", what, one, two)


def axis_case(ctx, rng):
    a = gen.gen_axis(rng, rng.choice(["bin", "bin", "split", "split", "intbin", "cut", "groupby", "groupbin", "groupbin", None]), fieldonly=True)
    if rng.random() < 0.06:
        a = model.axis("profile", "x")
    k = a["k"]
    ctx.seen("kind_" + k)
    ctx.log("{0}", model.show_axis(a))
    ax = declare(ctx, rng, a)
    check_axis(ctx, ax, a, "axis")
    same(ctx, ax, model.make_axis(a), "declared in two ways")
    c = ctx.do("copy", ax.copy)
    check_axis(ctx, c, a, "copy")
    same(ctx, ax, c, "copy")
    ctx.seen("copies")
    expr = {"cut": "q", "groupby": "t", "intbin": "m"}.get(k, "z")
    if expr == a["expr"]:
        expr = {"cut": "p", "groupby": "s", "intbin": "n"}.get(k, "y")
    b = dict(a, expr=expr)
    r = ctx.do("relabel", ax.relabel, expr)
    check_axis(ctx, r, b, "relabelled")
    same(ctx, r, model.make_axis(b), "relabelled")
    ctx.check(r != ax and not r == ax, "relabelled axis equals the original")
    if k != "profile":
        ctx.check(ax.compatible(r) and r.compatible(ax), "relabelled axis is not compatible")
    check_axis(ctx, ax, a, "axis after copy and relabel")
    ctx.seen("relabelled")
    ctx.signature(model.show_axis(a))
    if k == "profile":
        return
    spec = model.Spec([a])
    data = gen.gen_data(rng, spec, n=rng.choice([5, 20]))
    ctx.log("data {0}", data.show())
    h = ctx.do("Hist", histbook.Hist, ax)
    gen.fill_hist(ctx, h, data)
    want = model.fill(spec, data.entries())
    observe.check(ctx, h, spec, want, "filled")
    g = ctx.do("Hist", histbook.Hist, r)
    ctx.do("fill relabelled", g.fill, {expr: data.arrays[a["expr"]]})
    observe.check(ctx, g, model.Spec([b]), want, "relabelled")
    ctx.seen("relabelled_filled")
    if k in ("bin", "split", "intbin", "cut"):
        table = h.table(recarray=False)
        ctx.check(len(table) == ax.totbins, "{0} rows for {1} bins", len(table), ax.totbins)
    # conversions
    if k == "bin" and a["n"] > 0:
        s = ctx.do("split()", ax.split)
        e = model.edges_of(a)
        ctx.check(type(s) is histbook.split and len(s.edges) == len(e) and all(abs(x - y) <= 1e-9 for x, y in zip(s.edges, e)), "{0} as split has edges {1}", ax, s.edges)
        ctx.check(s.edges[0] == a["lo"] and s.edges[-1] == a["hi"] and s.expr == a["expr"], "{0} as split is {1}", ax, s)
        ctx.check((s.underflow, s.overflow, s.nanflow, s.closedlow) == (a["u"], a["o"], a["nan"], a["cl"]), "{0} as split is {1}", ax, s)
        if any(x * 4096 != int(x * 4096) for x in e):       # decimal edges: leave out what depends on rounding
            keep = [i for i, r in enumerate(data.rows) if not any(abs(r[a["expr"]] - x) < 1e-9 for x in e)]
            data = data.take(keep)
        two = []
        for x in (ax, s):
            g = ctx.do("Hist", histbook.Hist, x)
            gen.fill_hist(ctx, g, data)
            two.append(g.table(recarray=False))
        ctx.check(numpy.array_equal(*two), "{0} as split counts {1}, not {2}", ax, two[1].tolist(), two[0].tolist())
        ctx.seen("bin_to_split")
    if k == "intbin":
        s = ctx.do("bin()", ax.bin)
        ctx.check(type(s) is histbook.bin and s.numbins == ax.numbins and s.low == a["min"] - 0.5 and s.high == a["max"] + 0.5 and s.expr == a["expr"], "{0} as bin is {1}", ax, s)
        ctx.check((s.underflow, s.overflow, s.nanflow) == (a["u"], a["o"], False), "{0} as bin is {1}", ax, s)
        values = numpy.array([rng.randrange(a["min"] - 3, a["max"] + 4) for _ in range(12)])
        two = []
        for x in (ax, s):
            g = histbook.Hist(x)
            ctx.do("fill", g.fill, {a["expr"]: values})
            two.append(g.table(recarray=False))
        ctx.check(numpy.array_equal(*two), "{0} as bin counts {1}, not {2}", ax, two[1].tolist(), two[0].tolist())
        ctx.seen("intbin_to_bin")


def attachments(ctx, rng, obj, shadow, counter):
    for _ in range(rng.choice([2, 5])):
        key = rng.choice(["meta", "fit", "x", ""])
        r = rng.random()
        if r < 0.4:
            v = rng.choice([1, "text", [1, 2], None, {"a": 1}])
            ctx.check(ctx.do("attach({0!r}, {1!r})".format(key, v), obj.attach, key, v) is obj, "attach returned another object")
            shadow[key] = v
        elif r < 0.6:
            if key in shadow:
                ctx.check(ctx.do("detach({0!r})".format(key), obj.detach, key) is obj, "detach returned another object")
                del shadow[key]
            else:
                ctx.must_refuse("detach({0!r})".format(key), (KeyError,), obj.detach, key)
                ctx.seen("attachment_missing")
        ctx.check(bool(obj.has(key)) == (key in shadow), "has({0!r}) is {1}", key, obj.has(key))
        if key in shadow:
            ctx.check(ctx.do("get", obj.get, key) == shadow[key], "get({0!r}) is {1!r}, not {2!r}", key, obj.get(key), shadow[key])
            ctx.check(ctx.do("get", obj.get, key, "other") == shadow[key], "get({0!r}, default) is {1!r}, not {2!r}", key, obj.get(key, "other"), shadow[key])
        else:
            ctx.must_refuse("get({0!r})".format(key), (KeyError,), obj.get, key)
            ctx.check(ctx.do("get", obj.get, key, 17) == 17 and obj.get(key, None) is None, "get({0!r}, 17) is {1!r}", key, obj.get(key, 17))
            ctx.seen("attachment_defaults")
        ctx.check(dict(obj.attachment) == shadow, "attachment is {0}, expected {1}", obj.attachment, shadow)
        ctx.seen(counter)


def hist_case(ctx, rng):
    ctx.seen("hists")
    spec = gen.gen_spec(rng, defs=0, naxes=rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        spec.defs = {"d1": "a + b"}
    if rng.random() < 0.4:
        spec.attachment = {"meta": rng.randrange(9)}
    ctx.log("{0}", spec)
    opts = {}
    shadow = dict(spec.attachment)
    if rng.random() < 0.3:
        opts["systematic"] = shadow["systematic"] = rng.choice([[0.0, 1.0], [1], (0.5,)])
    h = ctx.do("Hist", spec.make, **opts)
    got = [model.show_axis(model.spec_of(x)) for x in h.axis]
    want = [model.show_axis(x) for x in spec.ordered] + [model.show_axis(model.axis("profile", p)) for p in spec.profiles]
    ctx.check(got == want, "axes are {0}, declared {1}", got, want)
    ctx.check(sorted((n, str(x)) for n, x in h.defs.items()) == sorted(spec.defs.items()), "defs are {0}, declared {1}", h.defs, spec.defs)
    fixed = [totbins(a)[1] for a in spec.ordered if a["k"] not in ("groupby", "groupbin")]
    ctx.check(tuple(h.shape[:-1]) == tuple(fixed) and h.shape[-1] == 2 * len(spec.profiles) + (2 if spec.weighted else 1), "shape is {0}, expected {1} and the sums", h.shape, fixed)
    ctx.seen("shapes")
    attachments(ctx, rng, h, shadow, "attachments")
    # access by kind of axis and by parameters
    for ax in h.axis:
        k = type(ax).__name__
        finder = getattr(h.axis, k)
        params = dict((n, getattr(ax, n)) for n in ATTRS[k] if n != "expr" and rng.random() < 0.5)
        hit = ctx.do("h.axis.{0}({1!r}, **{2})".format(k, ax.expr, params), finder, ax.expr, **params)
        first = [x for x in h.axis if type(x) is type(ax) and x.expr == ax.expr and all(getattr(x, n) == v for n, v in params.items())]
        ctx.check(any(hit is x for x in first) or hit in first, "found {0}, not {1}", hit, ax)
        ctx.seen("lookup_by_class")
        if params:
            n = rng.choice(sorted(params))
            wrong = dict(params)
            wrong[n] = (not wrong[n]) if isinstance(wrong[n], bool) else (wrong[n] + 1 if not isinstance(wrong[n], tuple) else wrong[n] + (1e9,))
            if not any(type(x) is type(ax) and x.expr == ax.expr and all(getattr(x, m) == v for m, v in wrong.items()) for x in h.axis):
                try:
                    hit = finder(ax.expr, **wrong)
                except IndexError:
                    ctx.seen("lookup_by_class_refused")
                else:
                    ctx.check(all(getattr(hit, m) == v for m, v in wrong.items()), "h.axis.{0}({1!r}, **{2}) found {3}", k, ax.expr, wrong, hit)
        other = rng.choice([x for x in ATTRS if x != k])
        if not any(type(x).__name__ == other for x in h.axis):
            ctx.must_refuse("h.axis.{0}({1!r})".format(other, ax.expr), (IndexError,), getattr(h.axis, other), ax.expr)
            ctx.seen("lookup_by_class_refused")
    # fluent construction
    which = rng.choice(["weight", "filter", "systematic"])
    if "systematic" in shadow and which == "systematic":
        which = "filter"        # a second vector is refused
    if which == "weight":
        new = spec.replace(weight=rng.choice(["w", "2*a", 2.0]))
        x = ctx.do("h.weight({0!r})".format(new.weight), h.weight, new.weight)
    elif which == "filter":
        new = spec.replace(filter=rng.choice(["a > 0", "p and q"]))
        x = ctx.do("h.filter({0!r})".format(new.filter), h.filter, new.filter)
    else:
        new = spec
        x = ctx.do("h.systematic([3.0])", h.systematic, [3.0])
    after = dict(shadow)
    if which == "systematic":
        after["systematic"] = [3.0]
    ctx.check(x is not h and dict(x.attachment) == after and dict(h.attachment) == shadow, "{0} gives the attachment {1}, leaving {2}; expected {3} and {4}", which, x.attachment, h.attachment, after, shadow)
    data = gen.gen_data(rng, [spec, new], n=10)
    for y, s in ((x, new), (h, spec)):
        gen.fill_hist(ctx, y, data)
        observe.check(ctx, y, s, model.fill(s, data.entries()), "with " + which if y is x else "the original")
    ctx.seen("fluent_" + which)
    # books
    b = ctx.do("Book", histbook.Book, {"h": h, "n/x": x})
    attachments(ctx, rng, b, {}, "book_attachments")
    attachments(ctx, rng, b["n"], {}, "book_attachments")
    # all members of a book of the same shape
    members = [spec.make() for _ in range(rng.choice([1, 2, 3]))]
    odd = None
    if rng.random() < 0.5:
        odd = gen.gen_spec(rng, defs=0, naxes=rng.choice([1, 2]))
        members.insert(rng.randrange(len(members) + 1), odd.make())
    if rng.random() < 0.4:
        members = [histbook.Book({"k": m}) for m in members]
        if rng.random() < 0.3 and len(members) > 1:
            i = rng.randrange(len(members))
            members[i] = histbook.Book({rng.choice(["k", "other"]): members[i]["k"]})
        name = lambda m: sorted(m.keys())
        hist = lambda m: list(m.values())[0]
    else:
        name = lambda m: ["k"]
        hist = lambda m: m
    g = histbook.Book(dict(("m%d" % i, m) for i, m in enumerate(members)))
    def shape(h):
        return [dict(model.spec_of(x), expr="") for x in h.axis if not isinstance(x, histbook.profile)]
    if all(name(m) == name(members[0]) and shape(hist(m)) == shape(hist(members[0])) for m in members):
        ctx.do("assertcompatible", g.assertcompatible)
        ctx.seen("assertcompatible_accepted")
    else:
        ctx.must_refuse("assertcompatible", (ValueError,), g.assertcompatible)
        ctx.seen("assertcompatible_refused")
    g = histbook.Book(rng.choice([dict(a=h, b=histbook.Book(h)), dict(a=histbook.Book(dict(k=h)), b=h), dict(a=histbook.Book(dict(k=h)), b=histbook.Book(dict(k=histbook.Book(h))))]))
    ctx.must_refuse("assertcompatible of a histogram and a book", (ValueError,), g.assertcompatible)


def run_case(ctx, rng, index):
    axis_case(ctx, rng)
    for _ in range(2):
        text, fcn = nonsense(rng)
        ctx.must_refuse(text, (TypeError, ValueError, AttributeError, SyntaxError), fcn)
        ctx.seen("refused_declarations")
    if index % 2 == 0:
        hist_case(ctx, rng)
