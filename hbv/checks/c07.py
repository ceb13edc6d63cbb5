"""C07: filling a book equals filling each of its histograms separately, through any history of edits."""
import histbook

from hbv import gen, model, observe

QUICK, THOROUGH = 10400, 150000
RULE = "a case = a history of edits and fills of a nested book whose histograms share expressions, binnings, weights and filters or nearly; distinct = (operations, axis kinds)"
REQUIRED = ["book_fills", "fills_after_nested_edit", "deletions", "replacements", "removed_histograms_checked", "nested_fills", "single_fills", "shared_axes", "aliased_fills"]

BASE = ["x", "y", "a", "b", "a + b", "b + a", "a*b", "a - b", "2*a", "a + b + c", "i"]
CUTS = ["p", "q", "p and q", "a > b", "b < a", "a <= b", "not p"]


def variants(rng, a):
    """A near copy of an axis: same, or one parameter different."""
    a = dict(a)
    r = rng.random()
    if r < 0.35:
        return a
    flags = [n for n in ("u", "o", "nan", "cl") if n in a]
    if r < 0.6 and flags:
        n = rng.choice(flags)
        a[n] = not a[n]
        if a["k"] == "split" and len(a["edges"]) == 1 and not (a["u"] or a["o"] or a["nan"]):
            a["o"] = True
    elif r < 0.8:
        if a["k"] == "bin":
            a["n"] *= 2
        elif a["k"] == "split":
            a["edges"] = a["edges"] + (a["edges"][-1] + 0.5,)
        elif a["k"] == "groupbin":
            a["bw"] *= 2
        elif a["k"] == "intbin":
            a["max"] += 1
    elif a["k"] in ("bin", "split", "groupbin"):
        a["expr"] = rng.choice(BASE)
    elif a["k"] == "cut":
        a["expr"] = rng.choice(CUTS)
    return a


def run_case(ctx, rng, index):
    pool = [gen.gen_axis(rng, k, expr=rng.choice(BASE) if k in ("bin", "split", "groupbin") else rng.choice(CUTS) if k == "cut" else None)
            for k in ("bin", "bin", "split", "intbin", "cut", "groupby", "groupbin")]
    weights = [None, None, "w", "w", "2*a", 2, 2.0]
    filters = [None, None, "p and q", "a > b", "b < a"]

    def newspec():
        axes = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            a = variants(rng, rng.choice(pool))
            if any(a["expr"] == x["expr"] for x in axes):
                continue
            axes.append(a)
        if rng.random() < 0.6:
            pool.append(dict(rng.choice(axes)))
        return model.Spec(axes, rng.sample(["a", "a + b", "b + a", "y"], rng.choice([0, 0, 1, 2])), rng.choice(weights), rng.choice(filters))

    class Item(object):
        def __init__(self, spec):
            self.spec, self.h, self.want = spec, ctx.do(str(spec), spec.make), {}

    book = ctx.do("book", histbook.Book)
    nested = {}          # path -> Book object
    live = {}            # path -> Item
    gone = []
    ops = []

    def target():
        depth = rng.choice([0, 0, 0, 1, 1, 2])
        return "/".join([rng.choice(["u", "v"]) for _ in range(depth)] + [rng.choice(["f", "g", "h", "k"])])

    def data_for(items):
        return gen.gen_data(rng, [x.spec for x in list(live.values()) + gone], n=rng.choice([0, 1, 5, 15, 30]), large=0.004)

    def filled(items, data):
        distinct = []
        for x in items:
            if any(x is y for y in distinct):
                ctx.seen("aliased_fills")   # one histogram with two names is still one histogram
            else:
                distinct.append(x)
        for x in distinct:
            x.want = model.addbins(x.want, model.fill(x.spec, data.entries()))

    def checkall(what):
        for path, x in live.items():
            observe.check(ctx, x.h, x.spec, x.want, "{0}: histogram {1}".format(what, path))
        for x in gone:
            if any(x is y for y in live.values()):
                continue
            observe.check(ctx, x.h, x.spec, x.want, "{0}: histogram that is no longer in the book".format(what))
            ctx.seen("removed_histograms_checked")

    justnested = False
    for step in range(rng.choice([4, 6, 8, 10])):
        op = rng.choice(["set", "set", "set", "nestedset", "del", "fill", "fill", "fill", "fillnested", "fillone", "delnested"])
        if not live:
            op = "set"
        ops.append(op)
        if op in ("set", "nestedset"):
            path = target()
            parts = path.split("/")
            if any("/".join(parts[:i]) in live for i in range(1, len(parts))):
                continue
            it = rng.choice(list(live.values()) + gone) if live and rng.random() < 0.15 else Item(newspec())
            if path in live:
                gone.append(live.pop(path))
                ctx.seen("replacements")
            parent = "/".join(parts[:-1])
            if op == "nestedset" and parent in nested:
                ctx.log("book[{0!r}][{1!r}] = hist (through the nested book)", parent, parts[-1])
                ctx.do("set", nested[parent].__setitem__, parts[-1], it.h)
                justnested = True
            else:
                ctx.log("book[{0!r}] = hist", path)
                ctx.do("set", book.__setitem__, path, it.h)
            live[path] = it
            for i in range(1, len(parts)):
                pp = "/".join(parts[:i])
                nested[pp] = ctx.do("get", lambda: book[pp])
            if any(a == b for x in live.values() if x is not it for a in x.spec.axes for b in it.spec.axes):
                ctx.seen("shared_axes")
        elif op in ("del", "delnested"):
            path = rng.choice(sorted(live))
            parent, _, last = path.rpartition("/")
            ctx.seen("deletions")
            gone.append(live.pop(path))
            if op == "delnested" and parent in nested:
                ctx.log("del book[{0!r}][{1!r}]", parent, last)
                ctx.do("del", nested[parent].__delitem__, last)
                justnested = True
            else:
                ctx.log("del book[{0!r}]", path)
                ctx.do("del", book.__delitem__, path)
        elif op == "fill":
            data = data_for(live)
            ctx.log("book.fill({0})", data.show())
            ctx.do("book.fill", book.fill, dict(data.arrays))
            filled(live.values(), data)
            ctx.seen("book_fills")
            ctx.seen("events_filled", len(data))
            if justnested:
                ctx.seen("fills_after_nested_edit")
                justnested = False
            checkall("book.fill")
        elif op == "fillnested":
            inside = [p for p in nested if any(k.startswith(p + "/") for k in live)]
            if not inside:
                continue
            pp = rng.choice(sorted(inside))
            data = data_for(live)
            ctx.log("book[{0!r}].fill({1})", pp, data.show())
            ctx.do("nested fill", nested[pp].fill, dict(data.arrays))
            filled([x for k, x in live.items() if k.startswith(pp + "/")], data)
            ctx.seen("nested_fills")
            checkall("fill of nested book " + pp)
        elif op == "fillone":
            path = rng.choice(sorted(live))
            data = data_for(live)
            ctx.log("book[{0!r}].fill({1})", path, data.show())
            ctx.do("fill one", live[path].h.fill, dict(data.arrays))
            filled([live[path]], data)
            ctx.seen("single_fills")
            checkall("fill of histogram " + path)
    checkall("at the end")
    ctx.signature(tuple(ops), tuple(sorted(set(a["k"] for x in live.values() for a in x.spec.axes))))
