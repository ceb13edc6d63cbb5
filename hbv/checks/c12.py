"""C12: scaling and adding histograms is linear."""
import fractions

import numpy
import histbook

from hbv import gen, model, mutate, observe, pyeval

QUICK, THOROUGH = 4500, 70000
RULE = "a case = one to three histograms (or books of them) of one specification, filled, scaled and added in several ways, compared with the scaled and added sums of the events; then combinations that must be refused; distinct = (kinds of axes, weighting, profiles, factors, what was refused)"
REQUIRED = ["scaled", "scaled_right", "scaled_inplace", "added", "added_inplace", "commuted", "associated", "doubled", "refused_add", "refused_definitions", "refused_group", "refused_scale", "books", "books_different_names", "books_many_names", "refused_books",
            "unfilled_operands", "chained_factors", "group_axes", "profiles", "weighted", "filled_after", "nested_books", "two_names"]

FACTORS = [2, 0.5, 3, 0, -1, 1, 0.25, -2.5, 1e6, numpy.float64(1.5), numpy.float32(0.5), numpy.int64(4), numpy.int8(3), numpy.uint8(200), fractions.Fraction(1, 4), True]


def run_case(ctx, rng, index):
    spec = gen.gen_spec(rng, naxes=rng.choice([1, 1, 2, 2, 3]), weight=0.4, filter=0.15, profiles=0.45, maxgroup=2)
    if rng.random() < 0.3:
        spec = spec.replace(attachment=dict((n, rng.randrange(5)) for n in rng.sample(["k", "meta", "systematic"], rng.choice([1, 2]))))
    ctx.log("{0} attachment={1}", spec, spec.attachment)
    hs, wants, datas = [], [], []
    for k in range(3):
        h = ctx.do("construct", spec.make)
        ents = []
        if rng.random() < 0.88:
            data = gen.gen_data(rng, spec, n=rng.choice([0, 4, 15, 30]), large=0.01)
            gen.fill_hist(ctx, h, data, "h%d" % k)
            ents = data.entries()
        else:
            ctx.seen("unfilled_operands")
        hs.append(h)
        wants.append(model.fill(spec, ents))
        datas.append(ents)
    if any(a["k"].startswith("group") for a in spec.axes):
        ctx.seen("group_axes")
    if spec.profiles:
        ctx.seen("profiles")
    if spec.weighted:
        ctx.seen("weighted")

    def chk(h, want, what):
        observe.check(ctx, h, spec, want, what)
        ctx.check(list(h.axis) == list(hs[0].axis), "{0}: axes changed to {1}", what, list(h.axis))
        ctx.check(dict(h.attachment) == dict(spec.attachment or {}), "{0}: attachment changed to {1}", what, h.attachment)

    f = rng.choice(FACTORS)
    ff = float(f)
    g = rng.choice(FACTORS)
    gg = float(g)
    # scaling
    x = ctx.do("h0 * {0!r}".format(f), lambda: hs[0] * f)
    chk(x, model.scalebins(wants[0], ff), "h0 * {0!r}".format(f))
    ctx.seen("scaled")
    if not isinstance(f, numpy.generic):
        # numpy scalars on the left try to iterate over the right operand first
        y = ctx.do("{0!r} * h0".format(f), lambda: f * hs[0])
        chk(y, model.scalebins(wants[0], ff), "{0!r} * h0".format(f))
        ctx.check(x == y, "h*a != a*h")
        ctx.seen("scaled_right")
    x = ctx.do("h0 * {0!r} * {1!r}".format(f, g), lambda: hs[0] * f * g)
    chk(x, model.scalebins(wants[0], ff * gg), "h0 * {0!r} * {1!r}".format(f, g))
    ctx.seen("chained_factors")
    z = ctx.do("copy", hs[0].copy)
    def imul(z=z):
        before = z
        z *= f
        ctx.check(z is before, "*= made another histogram")
        return z
    z = ctx.do("copy *= {0!r}".format(f), imul)
    chk(z, model.scalebins(wants[0], ff), "*= {0!r}".format(f))
    ctx.seen("scaled_inplace")
    # adding
    s = ctx.do("h0 + h1", lambda: hs[0] + hs[1])
    ws = model.addbins(wants[0], wants[1])
    chk(s, ws, "h0 + h1")
    ctx.seen("added")
    t = ctx.do("h1 + h0", lambda: hs[1] + hs[0])
    ctx.check(close(s, t), "h0 + h1 and h1 + h0 differ")
    chk(t, ws, "h1 + h0")
    ctx.seen("commuted")
    a = ctx.do("(h0 + h1) + h2", lambda: (hs[0] + hs[1]) + hs[2])
    b = ctx.do("h0 + (h1 + h2)", lambda: hs[0] + (hs[1] + hs[2]))
    w3 = model.addbins(ws, wants[2])
    chk(a, w3, "(h0 + h1) + h2")
    chk(b, w3, "h0 + (h1 + h2)")
    ctx.seen("associated")
    d = ctx.do("h0 + h0", lambda: hs[0] + hs[0])
    chk(d, model.scalebins(wants[0], 2.0), "h0 + h0")
    ctx.check(d == hs[0] * 2, "h + h != h * 2")
    ctx.seen("doubled")
    lin = ctx.do("h0 * f + h1 * g", lambda: hs[0] * f + hs[1] * g)
    chk(lin, model.addbins(model.scalebins(wants[0], ff), model.scalebins(wants[1], gg)), "h0 * f + h1 * g")
    def iadd(z):
        before = z
        z += hs[1]
        ctx.check(z is before, "+= made another histogram")
        return z
    z = ctx.do("copy += h1", iadd, hs[0].copy())
    chk(z, ws, "+=")
    z = hs[0].copy()
    def selfadd(z):
        z += z
        return z
    z = ctx.do("x += x", selfadd, z)
    chk(z, model.scalebins(wants[0], 2.0), "x += x")
    ctx.seen("added_inplace")
    for k in range(3):
        chk(hs[k], wants[k], "operand h%d afterwards" % k)
    # a result can be filled further
    data = gen.gen_data(rng, spec, n=6)
    r = rng.choice([s, d, lin, z, x])
    base = {id(s): ws, id(d): model.scalebins(wants[0], 2.0), id(lin): None, id(z): model.scalebins(wants[0], 2.0), id(x): model.scalebins(wants[0], ff * gg)}[id(r)]
    if base is not None:
        gen.fill_hist(ctx, r, data, "result")
        chk(r, model.addbins(base, model.fill(spec, data.entries())), "result filled further")
        ctx.seen("filled_after")

    # refusals
    other, what = mutate.variant(rng, spec)
    used = [d for d in sorted(spec.defs) if any(d in pyeval.names(e) for e in [a["expr"] for a in spec.axes] + spec.profiles)]
    if used and rng.random() < 0.6:
        d = rng.choice(used)
        other, what = spec.replace(defs=dict(spec.defs, **{d: rng.choice([x for x in gen.DEFS[d] if x != spec.defs[d]])})), "definition"
        ctx.seen("refused_definitions")
    ctx.log("{0}: {1}", what, other)
    ctx.signature(tuple(a["k"] for a in spec.ordered), spec.weighted, len(spec.profiles), repr(f), repr(g), what)
    o = ctx.do("construct", other.make)
    try:
        data = gen.gen_data(rng, other, n=rng.choice([0, 5]))
        o.fill(dict(data.arrays))
    except AssertionError:
        raise
    fpo = repr(observe.content(o))
    fph = repr(observe.content(hs[0]))
    ctx.must_refuse("h0 + other ({0})".format(what), (TypeError, ValueError), lambda: hs[0] + o)
    ctx.must_refuse("other + h0 ({0})".format(what), (TypeError, ValueError), lambda: o + hs[0])
    def bad(x, y):
        x += y
        return x
    ctx.must_refuse("h0 += other ({0})".format(what), (TypeError, ValueError), bad, hs[0], o)
    ctx.must_refuse("other += h0 ({0})".format(what), (TypeError, ValueError), bad, o, hs[0])
    ctx.seen("refused_add")
    ctx.must_refuse("Hist.group({0})".format(what), (TypeError, ValueError), histbook.Hist.group, by="source", one=hs[0], two=o)
    ctx.must_refuse("Hist.group({0})".format(what), (TypeError, ValueError), histbook.Hist.group, by="source", one=o, two=hs[0])
    ctx.seen("refused_group")
    for badvalue in ("2", None, [2], hs[1], numpy.array([1.0, 2.0]), 1j):
        ctx.must_refuse("h0 * {0!r:.30}".format(badvalue), (TypeError, ValueError), lambda: hs[0].__mul__(badvalue))
        def badmul(x):
            x *= badvalue
            return x
        ctx.must_refuse("h0 *= {0!r:.30}".format(badvalue), (TypeError, ValueError), badmul, hs[0])
    for badvalue in (1, "x", None, histbook.Book()):
        ctx.must_refuse("h0 + {0!r:.30}".format(badvalue), (TypeError, ValueError), lambda: hs[0] + badvalue)
    ctx.seen("refused_scale")
    ctx.check(repr(observe.content(hs[0])) == fph and repr(observe.content(o)) == fpo, "a refused operation changed an operand")

    # books, name by name
    if rng.random() < 0.4:
        nested = rng.random() < 0.5
        ctx.seen("nested_books" if nested else "books")
        p = "n/" if nested else ""
        one, two = histbook.Book(), histbook.Book()
        one["x"], one[p + "y"] = hs[0].copy(), hs[1].copy()
        two["x"], two[p + "y"] = hs[2].copy(), hs[0].copy()
        if rng.random() < 0.5:
            ctx.seen("books_different_names")
            one["onlyone"], two[p + "onlytwo"] = hs[0].copy(), hs[1].copy()
        w1 = {"x": wants[0], p + "y": wants[1], "onlyone": wants[0]}
        w2 = {"x": wants[2], p + "y": wants[0], p + "onlytwo": wants[1]}
        for k in rng.sample(range(7), rng.choice([0, 0, 2, 5])):
            # more names: in both, in the second only, in nested books
            n = rng.choice(["m%d", "a%d", "n/m%d", "far/off/m%d"]) % k
            two[n], w2[n] = hs[k % 3].copy(), wants[k % 3]
            if rng.random() < 0.3:
                one[n], w1[n] = hs[1].copy(), wants[1]
        got = ctx.do("book + book", lambda: one + two)
        names = set(one.allkeys(onlyhist=True)) | set(two.allkeys(onlyhist=True))
        ctx.check(set(got.allkeys(onlyhist=True)) == names, "sum of books has {0}, expected {1}", got.allkeys(onlyhist=True), names)
        ctx.check(ordered(got) == both(one, two), "names of a sum of books: {0}, expected those of the first and then the further ones of the second: {1}", ordered(got), both(one, two))
        if len(names) > 5:
            ctx.seen("books_many_names")
        for n in names:
            chk(got[n], model.addbins(w1.get(n, {}) if n in one else {}, w2.get(n, {}) if n in two else {}), "(book + book)[{0}]".format(n))
        got = ctx.do("book * f", lambda: one * f)
        ctx.check(ordered(got) == ordered(one), "names of book * f: {0}, not {1}", ordered(got), ordered(one))
        for n in one.allkeys(onlyhist=True):
            chk(got[n], model.scalebins(w1[n], ff), "(book * f)[{0}]".format(n))
        if not isinstance(f, numpy.generic):
            got = ctx.do("f * book", lambda: f * one)
            for n in one.allkeys(onlyhist=True):
                chk(got[n], model.scalebins(w1[n], ff), "(f * book)[{0}]".format(n))
        c = ctx.do("copy", one.copy)
        def bimul(z):
            z *= f
            return z
        again = {}
        if rng.random() < 0.4 and len(c.allkeys(onlyhist=True)) > 0:
            # the same histogram under another name
            n = rng.choice(c.allkeys(onlyhist=True))
            again[rng.choice(["again", "again/deep", "aa/b/c"])] = n
            for k in again:
                c[k] = c[n]
            ctx.seen("two_names")
        c = ctx.do("book *= f", bimul, c)
        ctx.check(set(c.allkeys(onlyhist=True)) == set(one.allkeys(onlyhist=True)) | set(again), "*= changed the names")
        for k, n in again.items():
            ctx.check(c[k] is c[n], "*= replaced a histogram")
        for n in one.allkeys(onlyhist=True):
            chk(c[n], model.scalebins(w1[n], ff), "(book *= f)[{0}]".format(n))
        c = ctx.do("copy", one.copy)
        def biadd(z, y):
            z += y
            return z
        c = ctx.do("book += book", biadd, c, two)
        ctx.check(ordered(c) == both(one, two), "names of a book after += : {0}, expected its own and then the further ones: {1}", ordered(c), both(one, two))
        ctx.check(set(c.allkeys(onlyhist=True)) == names, "+= of books has {0}, expected {1}", c.allkeys(onlyhist=True), names)
        for n in names:
            chk(c[n], model.addbins(w1.get(n, {}) if n in one else {}, w2.get(n, {}) if n in two else {}), "(book += book)[{0}]".format(n))
        for n in one.allkeys(onlyhist=True):
            chk(one[n], w1[n], "operand book afterwards")
        for n in two.allkeys(onlyhist=True):
            chk(two[n], w2[n], "operand book afterwards")
        # one histogram of the same name differs: nothing is added
        three = two.copy()
        three["z"] = hs[0].copy()
        one["z"] = o
        ctx.must_refuse("book + incompatible book ({0})".format(what), (TypeError, ValueError), lambda: one + three)
        ctx.must_refuse("book += incompatible book ({0})".format(what), (TypeError, ValueError), biadd, one, three)
        names = set(one.allkeys(onlyhist=True))
        ctx.check(names == set(w1) & names | {"z"}, "a refused += of books changed the names to {0}", names)
        for n in names:
            if n != "z":
                chk(one[n], w1[n], "book after a refused +=")
        ctx.check(repr(observe.content(one["z"])) == fpo, "a refused += of books changed a histogram")
        for badvalue in (1, None, hs[0]):
            ctx.must_refuse("book + {0!r:.20}".format(badvalue), (TypeError, ValueError), lambda: one + badvalue)
        for badvalue in ("2", None, hs[0]):
            ctx.must_refuse("book * {0!r:.20}".format(badvalue), (TypeError, ValueError), lambda: one.__mul__(badvalue))
        ctx.seen("refused_books")


def ordered(book):
    """Names in order, of nested books too."""
    return [(n, ordered(book[n]) if isinstance(book[n], histbook.book.GenericBook) else None) for n in book.keys()]


def both(one, two):
    out = []
    for n in one.keys():
        x = one[n]
        out.append((n, None if isinstance(x, histbook.Hist) else both(x, two[n]) if n in two else ordered(x)))
    return out + [(n, None if isinstance(two[n], histbook.Hist) else ordered(two[n])) for n in two.keys() if n not in one]


def close(x, y):
    a, b = observe.content(x), observe.content(y)
    for k in set(a) | set(b):
        u, v = a.get(k), b.get(k)
        if u is None:
            u = [0.0] * len(v)
        if v is None:
            v = [0.0] * len(u)
        for i, (p, q) in enumerate(zip(u[:3], v[:3])):
            if not (p != p and q != q or p == q or abs(p - q) <= 1e-9 * max(abs(p), abs(q)) + 1e-9):
                return False
    return True
