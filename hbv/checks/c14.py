"""C14: pickle, JSON and repr round trips preserve the histogram."""
import copy
import json
import pickle

import numpy
import histbook

from hbv import gen, model, observe
from hbv.checks import c11

QUICK, THOROUGH = 1025, 60000
RULE = "a case = a histogram (possibly derived by select, rebin, group, ...) or book restored from pickle and JSON text (also repeatedly); compared with the original by ==, by specification and bin by bin, then both driven through the same fills and operations; its repr evaluated; distinct = (axes with parameters, weighting, defs, attachment, derivation)"
REQUIRED = ["pickle", "json", "repr", "repeated", "unfilled", "derived_select", "derived_rebin", "derived_project", "derived_group", "derived_scaled", "weight_expr", "weight_const", "filter", "defs", "attachment",
            "string_keys", "int_keys", "float_keys", "bool_keys", "nan_keys", "lockstep_fill", "lockstep_ops", "books", "special_books", "nested_books", "axis_roundtrips", "books_filled_before", "restored_books_filled", "books_with_shared_bins"]

ATTACH = [1, 2.5, "text", u"\u00e9", None, True, [1, 2, 3], {"k": [1, {"x": "y"}]}, -0.0, 1e300, ""]
DEFS = [("d1", "a + b"), ("d2", "a*2"), ("d3", "sqrt(abs(b))"), ("d4", "a > b")]


def keytypes(h):
    out = []
    for x in observe.axes(h)[0]:
        ks = []
        for k in h.groupkeys(x):
            if isinstance(k, numpy.generic):
                k = k.item()
            ks.append((type(k).__name__, repr(k)))
        out.append(sorted(ks))
    return out


def specification(h):
    return repr([repr(model_of(x)) for x in h.axis]) + repr((repr(h), sorted(h.defs.items()), sorted(h.attachment.items(), key=repr), h.fields, h.shape))


def model_of(x):
    return (type(x).__name__, repr(x)) if type(x).__name__.startswith("_") else model.spec_of(x)


def contents(h):
    return repr(sorted(observe.content(h).items(), key=repr))


def identical(ctx, x, h, what, eq=True):
    ctx.check(type(x) is type(h), "{0}: restored a {1}", what, type(x))
    ctx.check(x is not h, "{0}: is the same object", what)
    ctx.check(specification(x) == specification(h), "{0}: specification\n  {1}\nrestored as\n  {2}", what, specification(h), specification(x))
    ctx.check([type(v) for k, v in sorted(x.attachment.items())] == [type(v) for k, v in sorted(h.attachment.items())], "{0}: types of attachments {1} became {2}", what, h.attachment, x.attachment)
    ctx.check(list(x.axis) == list(h.axis), "{0}: axes {1} restored as {2}", what, list(h.axis), list(x.axis))
    a, b = contents(h), contents(x)
    ctx.check(a == b, "{0}: contents\n  {1}\nrestored as\n  {2}", what, a, b)
    ctx.check(keytypes(x) == keytypes(h), "{0}: group keys {1} restored as {2}", what, keytypes(h), keytypes(x))
    if eq:
        ctx.check(x == h and h == x and not (x != h), "{0}: not equal to the original", what)
    ctx.seen("bins_compared", a.count("["))


def roundtrips(rng, obj):
    cls = histbook.Hist if isinstance(obj, histbook.Hist) else histbook.Book
    p = rng.choice([0, 1, 2, pickle.HIGHEST_PROTOCOL])
    return [("pickle", lambda x: pickle.loads(pickle.dumps(x, p))),
            ("json", lambda x: cls.fromjson(json.loads(json.dumps(x.tojson())))),
            ("pickle", lambda x: copy.deepcopy(x))]


def gen_hist(ctx, rng):
    spec = gen.gen_spec(rng, defs=0, naxes=rng.choice([1, 1, 2, 2, 3, 4]), weight=0.45, filter=0.25, profiles=0.4, maxgroup=2)
    if rng.random() < 0.25 and not any(a["k"] == "groupbin" or a["expr"] == "x" for a in spec.axes):
        spec.axes = spec.axes + [dict(gen.gen_axis(rng, "groupbin", expr="x"), nan=True)]
    if rng.random() < 0.3:
        spec.defs = dict(rng.sample(DEFS, rng.choice([1, 2])))
        for n in spec.defs:
            if n == "d4":
                if rng.random() < 0.7:
                    spec.axes = spec.axes + [model.axis("cut", "d4")]
            elif n == "d2" and rng.random() < 0.7:
                spec.axes = spec.axes + [gen.gen_axis(rng, "bin", expr="d2 + 1", decimal=False)]
            elif rng.random() < 0.5:
                spec.profiles = spec.profiles + [n]
        ctx.seen("defs")
    if rng.random() < 0.35:
        spec.attachment = dict((rng.choice(["fit", "meta", u"\u00fc", "systematic", ""]), rng.choice(ATTACH)) for _ in range(rng.choice([1, 2, 3])))
        ctx.seen("attachment")
    if spec.weight is not None:
        ctx.seen("weight_expr" if isinstance(spec.weight, str) else "weight_const")
        if not isinstance(spec.weight, str) and rng.random() < 0.3:
            spec.weight = rng.choice([numpy.float64(0.5), 1, 2.5, 0.1])
    if spec.filter is not None:
        ctx.seen("filter")
    ctx.log("{0} attachment={1}", spec, spec.attachment)
    h = ctx.do("construct", spec.make)
    if rng.random() < 0.08:
        ctx.seen("unfilled")
    else:
        for _ in range(rng.choice([1, 1, 2])):
            gen.fill_hist(ctx, h, gen.gen_data(rng, spec, n=rng.choice([0, 5, 20, 30])))
    for t in (t for ks in keytypes(h) for t in ks):
        ctx.seen({"str": "string_keys", "int": "int_keys", "float": "float_keys", "bool": "bool_keys"}[t[0]])
        if t[1] in ("'NaN'",):
            ctx.seen("nan_keys")
    return h, spec


def derive(ctx, rng, h, spec):
    """Possibly a histogram derived from h, and a specification to generate data for it (None if unknown)."""
    how = rng.choice(["no", "no", "select", "select", "rebin", "project", "group", "scaled"])
    x, s = None, None
    try:
        if how == "select":
            sel = c11.selection(rng, h)
            if sel is not None:
                x = ctx.may("select({0!r})".format(sel), (ValueError, TypeError, IndexError), h.select, sel)
        elif how == "rebin":
            cands = [a for a in h.axis if isinstance(a, (histbook.split, histbook.intbin, histbook.groupbin)) or isinstance(a, histbook.bin) and a.numbins > 0]
            if cands:
                x = ctx.do("rebinby", h.rebinby, rng.choice(cands), 2)
        elif how == "project":
            axes = [a for a in h.axis if not isinstance(a, histbook.profile)]
            x = ctx.do("project", h.project, *rng.sample(axes, rng.randrange(1, len(axes) + 1)))
        elif how == "group":
            if not any(a.expr == "source" for a in h.axis):
                x = ctx.do("group", histbook.Hist.group, by="source", one=h, two=h)
        elif how == "scaled":
            x = ctx.do("h * 0.1", lambda: h * 0.1)
    except Exception as err:
        if type(err).__name__ != "Refused":
            raise
    if x is None:
        return h, spec, "no"
    ctx.seen("derived_" + how)
    s = c11.derived(x, spec)
    return x, s, how


def parsed_definition(ctx):
    """A definition may be given as a parsed expression (docstring of Hist)."""
    h = histbook.Hist(histbook.bin("d", 3, 0, 3), defs={"d": histbook.expr.Expr.parse("a + b")})
    h.fill(a=numpy.array([0.5, 1.0]), b=numpy.array([0.25, 1.5]))
    p = ctx.do("pickle", lambda: pickle.loads(pickle.dumps(h)))
    ctx.check(p == h and contents(p) == contents(h), "a definition given as a parsed expression is not restored from pickle")
    try:
        j = histbook.Hist.fromjson(json.loads(json.dumps(h.tojson())))
        ok = contents(j) == contents(h) and j == h
    except Exception as err:
        ctx.log("{0}: {1}", type(err).__name__, err)
        ok = False
    ctx.seen("parsed_definitions")
    ctx.check(ok, "JSON of a histogram with defs={'d': Expr.parse('a + b')} does not restore it")


def run_case(ctx, rng, index):
    if index == 0:
        return parsed_definition(ctx)
    h, spec = gen_hist(ctx, rng)
    h, spec, how = derive(ctx, rng, h, spec)
    ctx.signature(repr(h), how, len(h.attachment))
    restored = []
    before = contents(h)
    for name, fcn in roundtrips(rng, h):
        x = ctx.do(name, fcn, h)
        identical(ctx, x, h, name)
        ctx.seen(name)
        if rng.random() < 0.3:
            x = ctx.do("again", fcn, x)
            identical(ctx, x, h, name + " twice")
            ctx.seen("repeated")
        restored.append((name, x))
    # repr
    text = repr(h)
    ns = dict((n, getattr(histbook, n)) for n in ("Hist", "bin", "intbin", "split", "cut", "groupby", "groupbin", "profile"))
    if not any(type(a).__name__ not in ns for a in h.axis):
        x = ctx.do("eval({0})".format(text), lambda: eval(text, dict(ns, inf=float("inf"), nan=float("nan"))))
        c = h.cleared()
        for k in list(c.attachment):
            c.detach(k)
        identical(ctx, x, c, "evaluated repr")
        ctx.check(observe.content(x) == {}, "evaluated repr is not empty")
        x = ctx.do("eval(str)", lambda: eval(str(h), dict(ns, inf=float("inf"), nan=float("nan"))))
        identical(ctx, x, c, "evaluated str")
        ctx.seen("repr")
    for a in h.axis:
        for name, fcn in (("pickle", lambda a: pickle.loads(pickle.dumps(a))), ("json", lambda a: histbook.axis.Axis.fromjson(json.loads(json.dumps(a.tojson()))))):
            b = ctx.do("{0} of axis {1}".format(name, a), fcn, a)
            ctx.check(type(b) is type(a) and b == a and hash(b) == hash(a) and repr(b) == repr(a), "{0} of axis {1!r} gives {2!r}", name, a, b)
            ctx.seen("axis_roundtrips")

    # the restored histograms behave the same
    if spec is not None:
        originals = [h]
        data = gen.gen_data(rng, spec, n=10)
        everyone = [("original", h)] + restored
        if rng.random() < 0.8:
            for n, x in everyone:
                gen.fill_hist(ctx, x, data, n)
            for n, x in restored:
                identical(ctx, x, h, n + ", filled further")
            ctx.seen("lockstep_fill")
        ops = []
        sel = c11.selection(rng, h)
        if sel is not None:
            ops.append(("select({0!r})".format(sel), lambda x: x.select(sel)))
        axes = [i for i, a in enumerate(h.axis) if not isinstance(a, histbook.profile)]
        if axes:
            keep = sorted(rng.sample(axes, rng.randrange(1, len(axes) + 1)))
            ops.append(("project{0}".format(keep), lambda x: x.project(*[list(x.axis)[i] for i in keep])))
        ops.append(("h + x", lambda x: h + x))
        ops.append(("x + h", lambda x: x + h))
        ops.append(("x * 0.3", lambda x: x * 0.3))
        ops.append(("copy", lambda x: x.copy()))
        for name, op in rng.sample(ops, min(3, len(ops))):
            try:
                want = ctx.may(name, (ValueError, TypeError, IndexError), op, h)
            except Exception as err:
                if type(err).__name__ != "Refused":
                    raise
                for n, x in restored:
                    ctx.must_refuse(name + " of restored", (ValueError, TypeError, IndexError), op, x)
                continue
            for n, x in restored:
                got = ctx.do(name + " of restored", op, x)
                identical(ctx, got, want, n + ", " + name)
            ctx.seen("lockstep_ops")
    else:
        ctx.check(contents(h) == before, "round trips changed the histogram")

    # books
    if rng.random() < 0.35:
        h2, spec2 = gen_hist(ctx, rng)
        kind = rng.choice(["Book", "Book", "nested", "Channels", "Samples", "Systematics"])
        if kind == "Book":
            b = histbook.Book({"x": h, "y": h2})
        elif kind == "nested":
            b = histbook.Book({"x": h, "n/y": h2, "n/m/z": h2.copy(), u"\u00e9": h2.copy()})
            ctx.seen("nested_books")
        elif kind == "Channels":
            b = histbook.ChannelsBook({"c": histbook.Book(h), "d": h2})
        elif kind == "Samples":
            b = histbook.SamplesBook(["s1", "s2"], {"x": h, "y": h2})
        else:
            h = h.copy()
            if not h.has("systematic"):
                h.attach("systematic", [0.0, 1.0])
            k = h.copy()
            k.detach("systematic")
            k.attach("systematic", [1.0])
            b = histbook.SystematicsBook({"nominal": h, "up": k})
        if kind in ("Channels", "Samples", "Systematics"):
            ctx.seen("special_books")
        if rng.random() < 0.5:
            b.attach("note", rng.choice(ATTACH))
        fillable = kind in ("Book", "nested", "Samples") and spec is not None and how != "group"
        whole = {"Samples": lambda x: x["s1"]}.get(kind, lambda x: x)
        if kind == "nested" and rng.random() < 0.8:
            b["shared"] = ctx.do("copyonfill", b["n/y"].copyonfill)
            ctx.seen("books_with_shared_bins")
        if fillable and rng.random() < 0.6:
            data = gen.gen_data(rng, [spec, spec2], n=rng.choice([0, 5]))
            ctx.log("fill book before: {0}", data.show())
            ctx.do("fill book before", whole(b).fill, dict(data.arrays))
            ctx.seen("books_filled_before")
        for name, fcn in roundtrips(rng, b):
            c = ctx.do("book " + name, fcn, b)
            ctx.check(type(c) is type(b), "{0} of a {1} gives a {2}", name, type(b), type(c))
            one, two = b.allitems(), c.allitems()
            ctx.check([(n, type(x)) for n, x in one] == [(n, type(x)) for n, x in two], "{0} of a book: {1} restored as {2}", name, one, two)
            ctx.check(repr(c.attachment) == repr(b.attachment), "{0} of a book: attachment {1} restored as {2}", name, b.attachment, c.attachment)
            for (n, x), (_, y) in zip(one, two):
                if isinstance(x, histbook.Hist):
                    identical(ctx, y, x, "{0} of a book at {1}".format(name, n))
            if True:
                ctx.check(b == c and not b != c, "{0} of a book is not equal to the original", name)
            if fillable:
                data = gen.gen_data(rng, [spec, spec2], n=8)
                d = b.copy()
                whole(d).fill(dict(data.arrays))
                ctx.log("fill restored book: {0}", data.show())
                ctx.do("fill restored book", whole(c).fill, dict(data.arrays))
                for n, x in d.allitems(onlyhist=True):
                    identical(ctx, c[n], x, "restored book filled at {0}".format(n))
                if kind == "nested":
                    d["n"].fill(dict(data.arrays))
                    ctx.do("fill nested book of restored book", c["n"].fill, dict(data.arrays))
                    for n, x in d.allitems(onlyhist=True):
                        identical(ctx, c[n], x, "restored book, nested book filled, at {0}".format(n))
                ctx.seen("restored_books_filled")
        ctx.seen("books")
