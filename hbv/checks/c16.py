"""C16: books follow an ordered-mapping model of slash-separated paths."""
import collections
import fnmatch

import numpy
import histbook
import histbook.book
import histbook.hist

from hbv import observe

QUICK, THOROUGH = 32400, 250000
RULE = "a case = a random history of assignments, deletions, lookups, listings and views on nested books (or sample and systematics books); after every step all listings are compared with the model; distinct = sequence of operations and outcomes"
REQUIRED = ["set_top", "set_nested", "set_creates_books", "set_replaces", "set_through_hist_refused", "set_book", "set_through_inner", "del_hist", "del_book", "del_missing_refused", "del_wild", "del_wild_inside_deleted", "get_missing_refused", "get_wild",
            "get_wild_book", "get_wild_empty", "type_errors", "listings_compared", "deep", "constructors", "view", "view_fill", "view_nothing", "samples", "samples_fill", "systematics_accepted", "systematics_refused_binning", "systematics_refused_unlabelled",
            "systematics_refused_nested", "systematics_refused_by_path", "attachments", "view_attachments", "live_inner", "copies", "pops"]

NAMES = ["a", "b", "c", "aa", "ab", "x1", "x2", "A", "a.b", "h"]
PATTERNS = ["*", "?", "a*", "*b", "x?", "x[12]", "x[!1]", "[ab]", "a/*", "*/h", "*/*", "?/?", "b/*/a", "*a*", "[A-Z]", "a.?", "*/x[2-9]", "zz*", "h*", "*c/*"]


def newhist():
    return histbook.Hist(histbook.bin("x", 2, 0, 2))


class Tree(object):
    """Model of a book: an ordered dict of Hists and Trees, with the book object that it models."""
    def __init__(self, obj=None):
        self.kids = collections.OrderedDict()
        self.obj = obj

    def walk(self, prefix=None):
        for n, x in self.kids.items():
            p = n if prefix is None else prefix + "/" + n
            yield p, x
            if isinstance(x, Tree):
                for y in x.walk(p):
                    yield y

    def find(self, path):
        node = self
        for part in path.split("/"):
            if not isinstance(node, Tree) or part not in node.kids:
                return None
            node = node.kids[part]
        return node

    def blocked(self, path):
        """Whether the path leads through a histogram."""
        node = self
        for part in path.split("/")[:-1]:
            if not isinstance(node, Tree):
                return True
            node = node.kids.get(part)
            if node is None:
                return False
        return not isinstance(node, Tree)

    def put(self, path, value):
        """Returns paths of the books that were created."""
        node, made = self, []
        parts = path.split("/")
        for i, part in enumerate(parts[:-1]):
            if part not in node.kids:
                node.kids[part] = Tree()
                made.append("/".join(parts[:i + 1]))
            node = node.kids[part]
        node.kids[parts[-1]] = value
        return made

    def remove(self, path):
        parent, _, last = path.rpartition("/")
        node = self.find(parent) if parent else self
        del node.kids[last]


def obj_of(x):
    return x.obj if isinstance(x, Tree) else x


def same(ctx, what, got, want):
    """Paths equal and objects identical."""
    ctx.check([n for n, _ in got] == [n for n, _ in want], "{0}: paths {1}, expected {2}", what, [n for n, _ in got], [n for n, _ in want])
    for (n, x), (_, y) in zip(got, want):
        ctx.check(x is obj_of(y), "{0}: {1} is not the object that was put there", what, n)


def compare(ctx, rng, tree, what):
    """All listings of the book agree with the model."""
    book = tree.obj
    ctx.seen("listings_compared")
    # books created on the way get known by identity when first seen
    for p, x in tree.walk():
        if isinstance(x, Tree) and x.obj is None:
            x.obj = ctx.do("book[{0!r}]".format(p), book.__getitem__, p)
            ctx.check(isinstance(x.obj, histbook.Book), "{0}: {1} is {2}, expected a Book", what, p, type(x.obj))
    everything = list(tree.walk())
    hists = [(n, x) for n, x in everything if not isinstance(x, Tree)]
    top = list(tree.kids.items())
    tophists = [(n, x) for n, x in top if not isinstance(x, Tree)]
    if any(n.count("/") >= 2 for n, _ in hists):
        ctx.seen("deep")
    ctx.check(len(book) == len(top), "{0}: len is {1}, expected {2}", what, len(book), len(top))
    for rec, only, want in ((False, False, top), (True, False, everything), (False, True, tophists), (True, True, hists)):
        opts = {"recursive": rec, "onlyhist": only}
        if rng.random() < 0.3:
            opts = dict((n, x) for n, x in opts.items() if x)
        which = rng.randrange(4)
        w = "{0}: {1}({2})".format(what, ["items", "iteritems", "keys/values", "iterkeys/itervalues"][which], opts)
        if which == 0:
            same(ctx, w, book.items(**opts), want)
        elif which == 1:
            same(ctx, w, list(book.iteritems(**opts)), want)
        elif which == 2:
            same(ctx, w, list(zip(book.keys(**opts), book.values(**opts))), want)
            ctx.check(len(book.keys(**opts)) == len(book.values(**opts)), "{0}: keys and values have different lengths", w)
        else:
            k, v = list(book.iterkeys(**opts)), list(book.itervalues(**opts))
            same(ctx, w, list(zip(k, v)), want)
            ctx.check(len(k) == len(v), "{0}: keys and values have different lengths", w)
    which = rng.randrange(3)
    for only, want in ((False, everything), (True, hists)):
        opts = {"onlyhist": True} if only else {}
        w = "{0}: all...({1})".format(what, opts)
        if which == 0:
            same(ctx, w, book.allitems(**opts), want)
        else:
            same(ctx, w, list(zip(book.allkeys(**opts), book.allvalues(**opts))), want)
    same(ctx, what + ": iteration", list(book), hists)
    for n, x in everything:
        ctx.check(book[n] is obj_of(x), "{0}: book[{1!r}] is not the object that was put there", what, n)
        ctx.check(n in book, "{0}: {1!r} not in book", what, n)


def path_of(rng):
    return "/".join(rng.choice(NAMES) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])))


def fillall(ctx, rng, obj, marks, hists):
    """Fill with a count that identifies this fill; marks: id(hist) -> expected count in its first finite bin."""
    n = rng.choice([1, 2, 3, 5])
    ctx.do("fill {0} events".format(n), obj.fill, x=numpy.array([0.5] * n))
    for h in hists:
        marks[id(h)] = marks.get(id(h), 0) + n


def counts(h):
    return float(sum(x[0] for x in h.table(recarray=False).tolist()))


def checkmarks(ctx, marks, hists, what):
    for n, h in hists:
        ctx.check(counts(h) == marks.get(id(h), 0), "{0}: histogram {1} has {2} events, expected {3}", what, n, counts(h), marks.get(id(h), 0))


def books_case(ctx, rng, cls):
    ops = []
    keep = []       # removed things, watched for later changes
    tree = Tree()
    # construction
    r = rng.randrange(4)
    init = [newhist() for _ in range(rng.randrange(0, 4))]
    if r == 0 or not init:
        d = collections.OrderedDict((n, x) for n, x in zip(rng.sample(NAMES, len(init)), init))
        tree.obj = ctx.do("{0}({1})".format(cls.__name__, list(d)), cls, d)
        for n, x in d.items():
            tree.put(n, x)
    elif r == 1:
        tree.obj = ctx.do("{0}({1} histograms)".format(cls.__name__, len(init)), cls, *init)
        for i, x in enumerate(init):
            tree.put(str(i), x)
    elif r == 2:
        names = rng.sample([n for n in NAMES if "." not in n], len(init))
        tree.obj = ctx.do("{0}(**{1})".format(cls.__name__, names), lambda: cls(**dict(zip(names, init))))
        for n, x in zip(names, init):
            tree.put(n, x)
    else:
        names = ["a/b", "a/c/h", "b"][:len(init)]
        d = collections.OrderedDict(zip(names, init))
        extra = newhist()
        tree.obj = ctx.do("{0}({1}, x1=...)".format(cls.__name__, names), lambda: cls(d, x1=extra))
        for n, x in d.items():
            tree.put(n, x)
        tree.put("x1", extra)
        ctx.must_refuse("dict and another positional argument", TypeError, cls, d, newhist())
    ctx.check(type(tree.obj) is cls, "constructor made {0}", type(tree.obj))
    ctx.seen("constructors")
    compare(ctx, rng, tree, "constructed")

    for step in range(rng.choice([3, 6, 9, 12])):
        op = rng.choice(["set", "set", "set", "set", "setbook", "inner", "del", "del", "delwild", "get", "getwild", "types", "attach", "copies", "pop"])
        everything = list(tree.walk())
        if op in ("set", "setbook"):
            path = path_of(rng)
            if everything and rng.random() < 0.35:
                path = rng.choice(everything)[0] + ("" if rng.random() < 0.6 else "/" + rng.choice(NAMES))
            if op == "set":
                value = newhist()
                model = value
            else:
                value = rng.choice([histbook.Book, histbook.Book, histbook.book.ChannelsBook])()
                model = Tree(value)
                for n in rng.sample(NAMES, rng.randrange(0, 3)):
                    model.kids[n] = newhist()
                    value[n] = model.kids[n]
            w = "book[{0!r}] = {1}".format(path, type(value).__name__)
            if tree.blocked(path):
                ctx.must_refuse(w + " (through a histogram)", KeyError, tree.obj.__setitem__, path, value)
                ctx.seen("set_through_hist_refused")
                ops.append("refused")
            else:
                if tree.find(path) is not None:
                    ctx.seen("set_replaces")
                ctx.do(w, tree.obj.__setitem__, path, value)
                made = tree.put(path, model)
                if made:
                    ctx.seen("set_creates_books")
                ctx.seen("set_nested" if "/" in path else "set_top")
                if op == "setbook":
                    ctx.seen("set_book")
                ops.append(op)
        elif op == "inner":
            books = [(n, x) for n, x in everything if isinstance(x, Tree)]
            if not books:
                continue
            n, x = rng.choice(books)
            if x.obj is None:
                continue
            name = rng.choice(NAMES)
            if x.kids and rng.random() < 0.4:
                name = rng.choice(list(x.kids))
                ctx.do("del book[{0!r}][{1!r}]".format(n, name), x.obj.__delitem__, name)
                del x.kids[name]
                ctx.seen("live_inner")
            else:
                h = newhist()
                ctx.do("book[{0!r}][{1!r}] = Hist".format(n, name), x.obj.__setitem__, name, h)
                x.kids[name] = h
                ctx.seen("set_through_inner")
            ops.append(op)
        elif op == "del":
            path = path_of(rng)
            if everything and rng.random() < 0.7:
                path = rng.choice(everything)[0]
            x = tree.find(path)
            if x is None:
                ctx.must_refuse("del book[{0!r}] (missing)".format(path), KeyError, tree.obj.__delitem__, path)
                ctx.seen("del_missing_refused")
            else:
                ctx.do("del book[{0!r}]".format(path), tree.obj.__delitem__, path)
                tree.remove(path)
                keep.append((obj_of(x), x))
                ctx.seen("del_book" if isinstance(x, Tree) else "del_hist")
            ops.append(op)
        elif op == "delwild":
            if rng.random() < 0.5:
                continue
            pat = rng.choice(PATTERNS)
            match = [n for n, _ in everything if fnmatch.fnmatchcase(n, pat)]
            ctx.do("del book[{0!r}] (matches {1})".format(pat, match), tree.obj.__delitem__, pat)
            for n in match:
                if tree.find(n) is not None:
                    tree.remove(n)
                else:
                    ctx.seen("del_wild_inside_deleted")
            if match:
                ctx.seen("del_wild")
            ops.append("delwild%d" % min(2, len(match)))
        elif op == "get":
            path = path_of(rng)
            if everything and rng.random() < 0.5:
                path = rng.choice(everything)[0] + rng.choice(["/" + rng.choice(NAMES), "x", "/", "/h"])
            if tree.find(path) is None:
                ctx.must_refuse("book[{0!r}] (missing)".format(path), KeyError, tree.obj.__getitem__, path)
                ctx.check(path not in tree.obj, "{0!r} in book although it is not", path)
                ctx.seen("get_missing_refused")
        elif op == "getwild":
            pat = rng.choice(PATTERNS)
            match = [(n, x) for n, x in everything if fnmatch.fnmatchcase(n, pat)]
            got = ctx.do("book[{0!r}]".format(pat), tree.obj.__getitem__, pat)
            ctx.check(isinstance(got, list), "wildcard lookup gives {0}", type(got))
            ctx.check(len(got) == len(match) and all(x is obj_of(y) for x, (n, y) in zip(got, match)), "book[{0!r}] gives {1} objects, expected {2} in this order", pat, len(got), [n for n, _ in match])
            ctx.seen("get_wild" if match else "get_wild_empty")
            if any(isinstance(x, Tree) for _, x in match):
                ctx.seen("get_wild_book")
        elif op == "types":
            ctx.must_refuse("book[0]", TypeError, tree.obj.__getitem__, 0)
            ctx.must_refuse("book[0] = Hist", TypeError, tree.obj.__setitem__, 0, newhist())
            ctx.must_refuse("del book[0]", TypeError, tree.obj.__delitem__, 0)
            for bad in (3, None, {"a": newhist()}, "x", [newhist()]):
                ctx.must_refuse("book['b'] = {0!r}".format(bad), TypeError, tree.obj.__setitem__, rng.choice(["b", "a/b", "new"]), bad)
            ctx.seen("type_errors")
        elif op == "attach":
            k = rng.choice(["k", "l"])
            ctx.check(ctx.do("attach", tree.obj.attach, k, step) is tree.obj, "attach does not return the book")
            ctx.check(tree.obj.has(k) and tree.obj.get(k) == step and tree.obj.get(k, None) == step and tree.obj.attachment[k] == step, "attachment {0} is not {1}", k, step)
            ctx.do("detach", tree.obj.detach, k)
            ctx.check(not tree.obj.has(k) and tree.obj.get(k, "no") == "no", "attachment {0} still there", k)
            ctx.must_refuse("get of a missing attachment", KeyError, tree.obj.get, k)
            ctx.must_refuse("detach of a missing attachment", KeyError, tree.obj.detach, k)
            ctx.seen("attachments")
        elif op == "copies":
            how = rng.choice(["copy", "copyonfill", "cleared"])
            other = ctx.do("book.{0}()".format(how), getattr(tree.obj, how))
            ctx.check(type(other) is type(tree.obj), "{0} is a {1}", how, type(other))
            want = [(n, type(obj_of(x) if not isinstance(x, Tree) or x.obj is not None else tree.obj[n])) for n, x in everything]
            ctx.check([(n, type(x)) for n, x in other.allitems()] == want, "{0} has {1}, expected {2}", how, other.allitems(), want)
            mine = set(id(x) for x in tree.obj.allvalues()) | set([id(tree.obj)])
            ctx.check(not any(id(x) in mine for x in other.allvalues()), "{0} shares an object with its source", how)
            for n in list(other.keys()):
                ctx.do("del copy[{0!r}]".format(n), other.__delitem__, n)
            other["extra"] = newhist()
            ctx.seen("copies")
        elif op == "pop":
            if everything and rng.random() < 0.7:
                path = rng.choice(everything)[0]
                x = tree.find(path)
                got = ctx.do("book.pop({0!r})".format(path), tree.obj.pop, path)
                ctx.check(got is obj_of(x) or (isinstance(x, Tree) and x.obj is None), "pop({0!r}) gives another object", path)
                tree.remove(path)
            else:
                path = "no/such"
                if tree.find(path) is None:
                    ctx.must_refuse("pop of a missing path", KeyError, tree.obj.pop, path)
                    ctx.check(tree.obj.pop(path, 12) == 12, "pop with a default")
            ctx.seen("pops")
        compare(ctx, rng, tree, "after {0}".format(ctx.trace[-1] if ctx.trace else op))
        for obj, x in keep:
            if isinstance(x, Tree) and x.obj is not None:
                ctx.check(len(x.obj) == len(x.kids), "a book that was removed from its parent has changed")

    # filling reaches exactly the histograms there
    if cls is histbook.Book:
        hists = [(n, x) for n, x in tree.walk() if not isinstance(x, Tree)]
        marks = {}
        if hists:
            fillall(ctx, rng, tree.obj, marks, [x for _, x in hists])
            checkmarks(ctx, marks, hists, "book fill")
        for obj, x in keep:
            if not isinstance(x, Tree) and not any(x is y for _, y in hists):
                ctx.check(counts(x) == 0, "a removed histogram was filled")
    else:
        views(ctx, rng, tree)
    ctx.signature(cls.__name__, tuple(ops))


def views(ctx, rng, tree):
    marks = {}
    hists = [(n, x) for n, x in tree.walk() if not isinstance(x, Tree)]
    for _, h in hists:
        marks[id(h)] = counts(h)
    for n, x in [("", tree)] + [(n, x) for n, x in tree.walk() if isinstance(x, Tree)]:
        if rng.random() < 0.4:
            x.obj.attach("k", n)
    for _ in range(3):
        pat = rng.choice(PATTERNS + [n for n, _ in hists] * 2)
        match = [(n, x) for n, x in hists if fnmatch.fnmatchcase(n, pat)]
        if not match:
            ctx.must_refuse("view({0!r}) (nothing matches)".format(pat), ValueError, tree.obj.view, pat)
            ctx.seen("view_nothing")
            continue
        v = ctx.do("view({0!r})".format(pat), tree.obj.view, pat)
        same(ctx, "view({0!r})".format(pat), list(v), match)
        ctx.seen("view")
        def attachments(node, view, path):
            ctx.check(dict(view.attachment) == dict(node.attachment), "view({0!r}): attachment of {1!r} is {2}, not {3}", pat, path, view.attachment, node.attachment)
            for n in view.keys():
                if not isinstance(view[n], histbook.Hist):
                    attachments(node[n], view[n], path + "/" + n)
        attachments(tree.obj, v, "")
        ctx.seen("view_attachments")
        fillall(ctx, rng, v, marks, [x for _, x in match])
        checkmarks(ctx, marks, hists, "fill of view({0!r})".format(pat))
        ctx.seen("view_fill")
        if rng.random() < 0.5:
            # live: what is filled into the original is seen in the view
            n, h = rng.choice(match)
            fillall(ctx, rng, h, marks, [h])
            ctx.check(counts(v[n]) == marks[id(h)], "view is not live")
    ctx.must_refuse("view(0)", TypeError, tree.obj.view, 0)
    compare(ctx, rng, tree, "after views")


def samples_case(ctx, rng):
    names = rng.sample(["sig", "bkg", "data", "s/t", "u"], rng.choice([1, 2, 3]))
    hs = dict((n, newhist()) for n in rng.sample(["one", "two", "d/three"], rng.choice([1, 2, 3])))
    pre = {}
    for h in hs.values():
        if rng.random() < 0.4:
            fillall(ctx, rng, h, pre, [h])
    r = rng.random()
    if r < 0.5:
        s = ctx.do("SamplesBook({0}, {1})".format(names, list(hs)), histbook.book.SamplesBook, names, collections.OrderedDict(hs))
    else:
        kw = dict((n, h) for n, h in hs.items() if "/" not in n) or {"one": newhist()}
        hs = kw
        s = ctx.do("SamplesBook({0}, **{1})".format(names, list(hs)), lambda: histbook.book.SamplesBook(names, **kw))
    ctx.seen("samples")
    allhists = list(s)
    ctx.check(sorted(n for n, _ in allhists) == sorted(a + "/" + b for a in names for b in hs), "SamplesBook has {0}", [n for n, _ in allhists])
    ctx.check(len(set(id(h) for _, h in allhists)) == len(allhists) and not any(h is x for _, h in allhists for x in hs.values()), "samples share histograms")
    marks = {}
    for n, h in allhists:
        base = [b for b in hs if n.endswith("/" + b)]
        start = pre.get(id(hs[max(base, key=len)]), 0)
        ctx.check(counts(h) == start, "{0} starts with {1} events, expected {2}", n, counts(h), start)
        marks[id(h)] = start
    tmpl = [("template " + n, h) for n, h in hs.items()]
    for n, h in tmpl:
        marks[id(h)] = pre.get(id(h), 0)
    for _ in range(rng.choice([2, 4])):
        r = rng.random()
        if r < 0.5:
            n = rng.choice(names)
            fillall(ctx, rng, s[n], marks, [h for k, h in allhists if k.startswith(n + "/")])
        elif r < 0.7:
            n, h = rng.choice(allhists)
            fillall(ctx, rng, h, marks, [h])
        elif r < 0.8:
            n, h = rng.choice(tmpl)
            fillall(ctx, rng, h, marks, [h])
        else:
            pat = rng.choice(["*", "*/one", names[0] + "/*", "*o*"])
            match = [h for k, h in allhists if fnmatch.fnmatchcase(k, pat)]
            if match:
                fillall(ctx, rng, ctx.do("view", s.view, pat), marks, match)
        checkmarks(ctx, marks, allhists + tmpl, "SamplesBook after " + ctx.trace[-1])
        ctx.seen("samples_fill")
    ctx.signature("samples", len(names), len(hs))


AXES = [lambda: [histbook.bin("x", 2, 0, 2)], lambda: [histbook.bin("y", 2, 0, 2)], lambda: [histbook.bin("x", 3, 0, 2)], lambda: [histbook.bin("x", 2, 0, 2, underflow=False)], lambda: [histbook.split("x", [0, 1, 2])],
        lambda: [histbook.bin("x", 2, 0, 2), histbook.cut("p")], lambda: [histbook.bin("x", 2, 0, 2), histbook.profile("z")], lambda: [histbook.groupby("s"), histbook.bin("x", 2, 0, 2)]]
BINNING = [0, 0, 2, 3, 4, 5, 0, 7]      # class of compatible binning of each


def systematics_case(ctx, rng):
    """Flat or one-level nested members with systematic labels; a model of what is in the book."""
    s = ctx.do("SystematicsBook()", histbook.book.SystematicsBook)
    model = collections.OrderedDict()
    nested = rng.random() < 0.4
    for step in range(rng.choice([3, 5, 8])):
        name = rng.choice(["nom", "up", "down", "more"])

        def make(which, label):
            h = histbook.Hist(*AXES[which]())
            return h.systematic((float(step),)) if label else h
        which = rng.choice([0, 0, 0, 1, 6]) if rng.random() < 0.6 else rng.randrange(len(AXES))
        label = rng.random() < 0.75
        if nested:
            kids = collections.OrderedDict((n, (which if rng.random() < 0.85 else rng.randrange(len(AXES)), label or rng.random() < 0.5)) for n in rng.sample(["f", "g"], rng.choice([1, 2, 2, 2])))
            value = histbook.Book()
            for n, (w, l) in kids.items():
                value[n] = make(w, l)
            shape = ("book", tuple(sorted((n, BINNING[w]) for n, (w, l) in kids.items())))
            labelled = all(l for w, l in kids.values())
        else:
            value = make(which, label)
            shape = ("hist", BINNING[which])
            labelled = label
        others = [x[0] for n, x in model.items() if n != name]
        ok = all(x == shape for x in others)
        if rng.random() < 0.15 and model:
            d = rng.choice(list(model))
            ctx.do("del book[{0!r}]".format(d), s.__delitem__, d)
            del model[d]
        elif ok and labelled:
            ctx.do("book[{0!r}] = {1} {2}".format(name, shape, "labelled"), s.__setitem__, name, value)
            model[name] = (shape, value)
            ctx.seen("systematics_accepted")
        else:
            ctx.must_refuse("book[{0!r}] = {1} labelled={2}".format(name, shape, labelled), ValueError, s.__setitem__, name, value)
            ctx.seen("systematics_refused_binning" if not ok else "systematics_refused_unlabelled")
            if nested:
                ctx.seen("systematics_refused_nested")
        if nested and model and rng.random() < 0.5:
            n = rng.choice(list(model))
            path = n + "/" + rng.choice([k for k, _ in model[n][0][1]])
            before = [(k, id(x)) for k, x in s.allitems()]
            if rng.random() < 0.5 or len(model) == 1:
                bad = make(0, False)
            else:
                bad = make(rng.choice([k for k in range(len(AXES)) if BINNING[k] != dict(model[n][0][1])[path.split("/")[1]]]), True)
            ctx.must_refuse("book[{0!r}] = {1}".format(path, bad), ValueError, s.__setitem__, path, bad)
            ctx.check([(k, id(x)) for k, x in s.allitems()] == before, "a refused assignment to {0} changed the SystematicsBook", path)
            ctx.seen("systematics_refused_by_path")
        ctx.check([(n, id(x)) for n, x in s.items()] == [(n, id(x[1])) for n, x in model.items()], "SystematicsBook holds {0}, expected {1}", s.keys(), list(model))
    # all at once
    bad = collections.OrderedDict([("nom", histbook.Hist(*AXES[0]()).systematic((0.0,))), ("up", histbook.Hist(*AXES[rng.choice([2, 3, 4, 5])]()).systematic((1.0,)))])
    ctx.must_refuse("SystematicsBook(incompatible)", ValueError, histbook.book.SystematicsBook, bad)
    ctx.must_refuse("SystematicsBook(unlabelled)", ValueError, histbook.book.SystematicsBook, {"nom": newhist()})
    good = collections.OrderedDict([("nom", histbook.Hist(*AXES[0]()).systematic((0.0,))), ("up", histbook.Hist(*AXES[1]()).systematic((1.0,)))])
    b = ctx.do("SystematicsBook(compatible)", histbook.book.SystematicsBook, good)
    marks = {}
    ctx.do("fill", b.fill, x=numpy.array([0.5] * 3), y=numpy.array([0.5] * 3))
    ctx.check(counts(b["nom"]) == 3 and counts(b["up"]) == 3, "SystematicsBook fill")
    ctx.signature("systematics", nested, len(model))


def run_case(ctx, rng, index):
    kind = index % 8
    if kind == 6:
        samples_case(ctx, rng)
    elif kind == 7:
        systematics_case(ctx, rng)
    else:
        books_case(ctx, rng, [histbook.Book, histbook.Book, histbook.Book, histbook.book.ChannelsBook, histbook.Book, histbook.book.ChannelsBook][kind])
