"""C13: group keeps each source's contents under its own key."""
import numpy
import histbook

from hbv import gen, model, observe

QUICK, THOROUGH = 5000, 70000
RULE = "a case = one to four histograms (or books) grouped under keys, compared with the events filled with an additional field holding the key; then selected, indexed, projected, added to with togroup and filled further; distinct = (kinds of axes, weighting, profiles, keys, operations)"
REQUIRED = ["groups", "single_source", "unfilled_source", "different_weights", "filtered_sources", "selected", "indexed", "projected", "togroup_existing", "togroup_new", "refilled", "refused_existing_axis", "refused_types", "refused_empty", "books", "books_different_names", "nested_books", "sources_with_groups", "grouped_twice", "profiles"]
KEYS = ["one", "two", "three", "A", "z9", "a b", u"\u00e9", "1"]


def tagged(key, entries, by):
    return [(dict(r, **{by: key}), f) for r, f in entries]


def content(spec, parts, by):
    """Model content of a group: parts is [(key, source spec, entries)]."""
    out = {}
    for key, s, entries in parts:
        c = model.fill(s, entries)
        out = model.addbins(out, dict(((("g", key),) + k, b) for k, b in c.items()))
    return out


def run_case(ctx, rng, index):
    spec = gen.gen_spec(rng, naxes=rng.choice([0, 1, 1, 2, 2, 3]), weight=0.4, filter=0.2, profiles=0.35, maxgroup=1)
    if not spec.axes and not spec.profiles:
        spec.profiles = ["a"]           # how many events a histogram without fields is filled with is not claimed
    by = rng.choice(["source", "source", "src", "sample"])
    keys = rng.sample(KEYS, rng.choice([1, 2, 2, 3, 4]))
    parts, hs = [], {}
    for key in keys:
        s = spec
        if spec.weighted and rng.random() < 0.3:
            s = spec.replace(weight=rng.choice(gen.WEIGHTS))
            ctx.seen("different_weights")
        ctx.log("{0!r}: {1}", key, s)
        h = ctx.do("construct", s.make)
        ents = []
        if rng.random() < 0.9:
            data = gen.gen_data(rng, s, n=rng.choice([0, 3, 10, 25]), large=0.01)
            gen.fill_hist(ctx, h, data, key)
            ents = data.entries()
        else:
            ctx.seen("unfilled_source")
        if rng.random() < 0.15:
            h = h * 2
            ents = [(r, 2.0) for r, f in ents]
        parts.append((key, s, ents))
        hs[key] = h
    if len(keys) == 1:
        ctx.seen("single_source")
    if spec.filter is not None:
        ctx.seen("filtered_sources")
    if spec.profiles:
        ctx.seen("profiles")
    if any(a["k"].startswith("group") for a in spec.axes):
        ctx.seen("sources_with_groups")
    gspec = model.Spec([model.axis("groupby", by)] + spec.ordered, spec.profiles, "w" if spec.weighted else None, None, spec.defs)
    before = dict((k, repr(observe.content(h))) for k, h in hs.items())
    g = ctx.do("Hist.group(by={0!r}, {1})".format(by, keys), histbook.Hist.group, by=by, **hs)
    ctx.seen("groups")

    def chk(g, parts, what):
        observe.check(ctx, g, gspec, content(gspec, parts, by), what)
        ctx.check(set(g.groupkeys(by)) == set(p[0] for p in parts), "{0}: keys are {1}", what, g.groupkeys(by))
        ax = list(g.axis)
        ctx.check(type(ax[0]) is histbook.groupby and ax[0].expr == by and ax[1:] == list(hs[keys[0]].axis), "{0}: axes are {1}", what, ax)

    chk(g, parts, "group")
    ops = []
    for k in keys:
        key, s, ents = [p for p in parts if p[0] == k][0]
        # indexing
        tab = g.table(*observe.axes(g)[2], count=True, effcount=True, error=True, recarray=False)
        group, fixed, prof = observe.axes(hs[k])
        sub = observe.flatten(tab[k], group, fixed, 3 + 2 * len(prof))
        ctx.check(repr(sorted(sub.items())) == repr(sorted(observe.content(hs[k]).items())), "the part of the table under {0!r} differs from the table of the source", k)
        node = g[k]
        if not group:
            mine = hs[k].copy()
            same = repr(numpy.asarray(node).tolist()) == repr(numpy.asarray(mine[()]).tolist())
            ctx.check(same, "group[{0!r}] differs from the source's contents", k)
        ctx.seen("indexed")
        # selecting
        if True:
            x = ctx.do("select {0} == {1!r}".format(by, k), g.select, "{0} == {1!r}".format(by, k))
            got = observe.content(x)
            want = content(gspec, [(key, s, ents)], by)
            observe.compare(got, want, spec.weighted, len(spec.profiles), "selection of {0!r}".format(k))
            y = ctx.do("project", x.project, *[a for a in x.axis if not isinstance(a, histbook.profile) and a.expr != by])
            if spec.axes:
                observe.check(ctx, y, s if s.weighted == spec.weighted else spec, model.fill(s, counted(s, ents)), "selection of {0!r} projected".format(k))
            ctx.seen("selected")
    # projecting the new axis out gives the sum
    if spec.axes:
        x = ctx.do("project out", g.project, *[a for a in list(g.axis)[1:] if not isinstance(a, histbook.profile)])
        total = {}
        for key, s, ents in parts:
            total = model.addbins(total, model.fill(s, ents))
        observe.check(ctx, x, spec, total, "projection of the group")
        ctx.seen("projected")
    # and onto the new axis
    x = ctx.do("project onto", g.project, by)
    ctx.check(set(x.groupkeys(by)) == set(keys), "projected keys are {0}", x.groupkeys(by))

    # togroup
    if rng.random() < 0.7:
        for _ in range(rng.choice([1, 2])):
            more = {}
            for k in rng.sample(KEYS, rng.choice([1, 1, 2])):
                s = spec if not spec.weighted or rng.random() < 0.7 else spec.replace(weight=rng.choice(gen.WEIGHTS))
                h = s.make()
                data = gen.gen_data(rng, s, n=rng.choice([0, 5, 12]))
                if rng.random() < 0.9:
                    gen.fill_hist(ctx, h, data, "more " + k)
                else:
                    data = data.take([])
                more[k] = (h, s, data.entries())
                known = [p[0] for p in parts]
                ctx.seen("togroup_existing" if k in known else "togroup_new")
            ctx.do("togroup({0})".format(sorted(more)), g.togroup, **dict((k, v[0]) for k, v in more.items()))
            parts = parts + [(k, v[1], v[2]) for k, v in more.items()]
            ops.append(tuple(sorted(more)))
            chk(g, parts, "after togroup")
            for k, v in more.items():
                observe.check(ctx, v[0], v[1], model.fill(v[1], v[2]), "source given to togroup")
    for k, h in hs.items():
        ctx.check(repr(observe.content(h)) == before[k], "source {0!r} changed", k)

    # fill the group further
    if spec.filter is None and all(p[1].weight == spec.weight for p in parts):
        data = gen.gen_data(rng, spec, n=10)
        tags = [rng.choice(keys + ["brandnew"]) for _ in range(len(data))]
        arrays = dict(data.arrays)
        arrays[by] = numpy.array(tags) if tags else numpy.array([], dtype="U3")
        ctx.log("fill the group: {0} {1}={2}", data.show(), by, tags)
        ctx.do("fill", g.fill, arrays)
        parts = parts + [(t, spec, [(r, 1.0)]) for t, r in zip(tags, data.rows)]
        chk(g, parts, "group filled further")
        ctx.seen("refilled")

    # refusals
    ctx.must_refuse("group by existing groupby", (ValueError, TypeError), histbook.Hist.group, by=by, x=g)
    ctx.seen("refused_existing_axis")
    ctx.must_refuse("group of a book", (ValueError, TypeError), histbook.Hist.group, by="other", x=histbook.Book(hs[keys[0]]))
    ctx.must_refuse("group of a number", (ValueError, TypeError), histbook.Hist.group, by="other", x=3)
    ctx.seen("refused_types")
    ctx.must_refuse("group of nothing", (ValueError, TypeError), histbook.Hist.group, by="other")
    ctx.seen("refused_empty")
    if not (spec.ordered and spec.ordered[0]["k"] == "groupby"):
        ctx.must_refuse("togroup without a group", (ValueError, TypeError), hs[keys[0]].togroup, x=hs[keys[0]])
    ctx.must_refuse("togroup of a group", (ValueError, TypeError), g.togroup, x=g)
    chk(g, parts, "after refusals")

    # a group of groups
    if rng.random() < 0.3:
        gg = ctx.do("group of groups", histbook.Hist.group, by="outer", x=g, y=g)
        tot = content(gspec, parts, by)
        want = {}
        for o in ("x", "y"):
            want.update(dict(((("g", o),) + k, b) for k, b in tot.items()))
        got = observe.content(gg)
        observe.compare(got, want, spec.weighted, len(spec.profiles), "group of groups")
        ctx.seen("grouped_twice")
    ctx.signature(tuple(a["k"] for a in spec.ordered), spec.weighted, len(spec.profiles), tuple(keys), tuple(ops))

    # books, name by name
    if rng.random() < 0.4:
        nested = rng.random() < 0.5
        ctx.seen("nested_books" if nested else "books")
        p = "n/" if nested else ""
        books = {}
        for k, s, ents in parts[:len(keys)]:
            b = books[k] = histbook.Book()
            b["x"] = hs[k]
            b[p + "y"] = hs[k] * 3
            if rng.random() < 0.4:
                b["only"] = hs[k]
                ctx.seen("books_different_names")
        notes = {}
        for k, b in books.items():
            if rng.random() < 0.4:
                for n in rng.sample(["note", "other", k], 2):
                    b.attach(n, [k, n])
                    notes[n] = [k, n]
        gb = ctx.do("Book.group", histbook.Book.group, by=by, **books)
        names = set(n for b in books.values() for n in b.allkeys(onlyhist=True))
        ctx.check(set(gb.allkeys(onlyhist=True)) == names, "names of the grouped book are {0}, expected {1}", gb.allkeys(onlyhist=True), names)
        for n in names:
            pp = [(k, s, [(r, f * (3.0 if n == p + "y" else 1.0)) for r, f in ents]) for k, s, ents in parts[:len(keys)] if n in books[k]]
            observe.check(ctx, gb[n], gspec, content(gspec, pp, by), "grouped book at {0}".format(n))
            ctx.check(set(gb[n].groupkeys(by)) == set(x[0] for x in pp), "keys of the grouped book at {0} are {1}", n, gb[n].groupkeys(by))
        ctx.check(gb.attachment == notes, "attachment of the grouped book is {0}, expected {1}", gb.attachment, notes)
        bad = histbook.Book(x=histbook.Book(hs[keys[0]]))
        ctx.must_refuse("Book.group of a book and a histogram", (ValueError, TypeError), histbook.Book.group, by=by, one=books[keys[0]], two=bad)
        ctx.must_refuse("Book.group of histograms", (ValueError, TypeError), histbook.Book.group, by=by, one=hs[keys[0]])


def counted(s, ents):
    return [(r, f) for r, f in ents if model.locate(s, r) is not None]
