"""C06: filling does not depend on batches or order; merging equals filling."""
import histbook

from hbv import gen, model, observe

QUICK, THOROUGH = 4000, 150000
RULE = "a case = events divided among fills, orders, histograms merged by + and +=, and books; distinct = (axis kinds, weighted, profiles, plan)"
REQUIRED = ["partitions", "empty_batches", "permutations", "sums", "inplace_sums", "books", "exact_equalities", "no_axes", "bare_in_book"]


def split(rng, n):
    """A random partition of range(n) into consecutive or scattered parts, some empty."""
    k = rng.choice([1, 2, 2, 3, 4, 6])
    parts = [[] for _ in range(k)]
    if rng.random() < 0.5:
        cuts = sorted(rng.randrange(n + 1) for _ in range(k - 1))
        for i, (a, b) in enumerate(zip([0] + cuts, cuts + [n])):
            parts[i] = list(range(a, b))
    else:
        for i in range(n):
            parts[rng.randrange(k)].append(i)
    return parts


def run_case(ctx, rng, index):
    nh = rng.choice([1, 2, 3])
    specs = [gen.gen_spec(rng, maxgroup=rng.choice([0, 1, 2])) for _ in range(nh)]
    bare = None
    if rng.random() < 0.15:
        k = rng.randrange(nh)
        s = gen.gen_spec(rng, axes=[], weight=0.6, filter=0.4, profiles=0.5)
        if s.fields():
            specs[k] = s
            ctx.seen("no_axes")
    if all(s.fields() and s.weight != 0 for s in specs) and rng.random() < 0.3:      # a weight of zero makes all fields unnecessary
        bare = gen.gen_spec(rng, axes=[], weight=0, filter=0, profiles=0)   # Hist(): in a book, it counts the events
    data = gen.gen_data(rng, specs, n=rng.choice([1, 5, 20, 50]), nanweight=False, large=0.01)
    for s in specs:
        ctx.log(str(s))
    wants = [model.fill(s, data.entries()) for s in specs]
    spec, want = specs[0], wants[0]
    ctx.log("data {0}", data.show())
    ref = ctx.do("ref", spec.make)
    gen.fill_hist(ctx, ref, data, "ref")
    observe.check(ctx, ref, spec, want, "filled at once")
    exact = not spec.weighted and not spec.profiles and sum(a["k"] in ("groupby", "groupbin") for a in spec.axes) <= 1
    plan = []

    def agree(h, what):
        observe.check(ctx, h, spec, want, what)
        if exact:
            ctx.check(h == ref, "{0} is not equal to the histogram that was filled at once", what)
            ctx.check(not (h != ref), "{0} is != to the histogram that was filled at once", what)
            ctx.seen("exact_equalities")

    for _ in range(2):
        parts = split(rng, len(data))
        ctx.log("parts {0}", parts)
        # successive fills of one histogram
        h = ctx.do("h", spec.make)
        for p in parts:
            gen.fill_hist(ctx, h, data.take(p))
            if not p:
                ctx.seen("empty_batches")
            if rng.random() < 0.2:
                ctx.do("h.table()", h.table)
        agree(h, "filled in batches")
        ctx.seen("partitions")
        # another order
        order = list(range(len(data)))
        rng.shuffle(order)
        h = ctx.do("h", spec.make)
        gen.fill_hist(ctx, h, data.take(order))
        agree(h, "filled in another order")
        ctx.seen("permutations")
        # merging
        pool = []
        for p in parts:
            x = ctx.do("part", spec.make)
            if p or rng.random() < 0.5:
                gen.fill_hist(ctx, x, data.take(p), "part")
            pool.append(x)
        while len(pool) > 1:
            one = pool.pop(rng.randrange(len(pool)))
            two = pool.pop(rng.randrange(len(pool)))
            if rng.random() < 0.5:
                one = ctx.do("one + two", lambda: one + two)
                ctx.seen("sums")
                plan.append("+")
            else:
                def iadd(one, two):
                    one += two
                    return one
                one = ctx.do("one += two", iadd, one, two)
                ctx.seen("inplace_sums")
                plan.append("+=")
            pool.insert(rng.randrange(len(pool) + 1), one)
        agree(pool[0], "merged by " + " ".join(plan))
    ctx.signature(tuple(a["k"] for a in spec.axes), spec.weighted, len(spec.profiles), len(plan))

    if rng.random() < 0.6:
        # the same for a book
        ctx.seen("books")
        parts = split(rng, len(data))

        def newbook():
            b = histbook.Book(dict(("h%d" % i, s.make()) for i, s in enumerate(specs[:2])))
            if len(specs) > 2:
                b["sub/h2"] = specs[2].make()
            if bare is not None:
                b["bare"] = bare.make()
            return b
        names = ["h0", "h1", "sub/h2"][:nh]
        if bare is not None:
            names, specs, wants = names + ["bare"], specs + [bare], wants + [model.fill(bare, data.entries())]
            ctx.seen("bare_in_book")
        one = ctx.do("book", newbook)
        for p in parts:
            ctx.do("book.fill", one.fill, dict(data.take(p).arrays))
        books = []
        for p in parts:
            b = ctx.do("book", newbook)
            ctx.do("book.fill", b.fill, dict(data.take(p).arrays))
            books.append(b)
        while len(books) > 1:
            x, y = books.pop(), books.pop()
            if rng.random() < 0.5:
                x = ctx.do("book + book", lambda: x + y)
            else:
                def biadd(x, y):
                    x += y
                    return x
                x = ctx.do("book += book", biadd, x, y)
            books.append(x)
        for what, b in (("book filled in batches", one), ("merged books", books[0])):
            for n, s, w in zip(names, specs, wants):
                observe.check(ctx, ctx.do("b[...]", lambda: b[n]), s, w, what + " " + n)
