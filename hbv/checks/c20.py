"""C20: fields lists exactly what fill needs, and every way of passing it is equivalent."""
import collections

import numpy
import histbook

from hbv import gen, model, observe
from hbv.checks import c11

QUICK, THOROUGH = 3000, 80000
RULE = "a case = a histogram or nested book, whose fields are compared with the names in its expressions, filled with the same data passed in many ways (and with any one field missing, and with additional ones); distinct = (kind of axes, what is filled, ways of passing)"
CONSTANTS = set(["pi", "e", "inf", "nan"])
WAYS = ["dict", "keywords", "both", "lists", "tuples", "strided", "reversed", "fortran", "readonly", "record", "subclass", "othermapping", "ordered", "dataframe", "objects", "native", "extra", "onemore", "mixed", "memoryview", "unusedbad"]
REQUIRED = ["way_" + w for w in WAYS] + ["hists", "books", "fields_compared", "missing_refused", "constants_passed", "all_constants", "string_constants", "zerodim", "numpyscalar", "bytes_constants", "definitions", "constant_names", "projected_fields", "book_changed", "nested_changed", "keywords_with_dataframe_refused", "arrays_unmodified", "unusual_names", "empty", "constructor_dict", "constructor_array", "constructor_refused"]


class Series(object):
    def __init__(self, values):
        self.values = values


class DataFrame(object):
    """Stands for the class in Pandas."""
    def __init__(self, arrays):
        self._arrays = arrays

    @property
    def columns(self):
        return list(self._arrays)

    def __getitem__(self, n):
        return Series(self._arrays[n])

    def __len__(self):
        return len(next(iter(self._arrays.values()), ()))


DataFrame.__module__ = "pandas.core.frame"


class Lookup(object):
    """Can only be asked for items."""
    def __init__(self, arrays):
        self._arrays = arrays

    def __getitem__(self, n):
        return self._arrays[n]


class Sub(numpy.ndarray):
    pass


def objects(values):
    out = numpy.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    return out


def passing(ctx, rng, way, arrays, specs):
    """(args, kwargs) to pass the arrays that way."""
    if way == "dict":
        return (dict(arrays),), {}
    elif way == "keywords":
        return (), dict(arrays)
    elif way == "both":
        names = sorted(arrays)
        some = set(n for n in names if rng.random() < 0.5)
        return (dict((n, x) for n, x in arrays.items() if n in some),), dict((n, x) for n, x in arrays.items() if n not in some)
    elif way in ("lists", "tuples"):
        conv = list if way == "lists" else tuple
        return (dict((n, conv(x.tolist()) if len(x) else x) for n, x in arrays.items()),), {}
    elif way == "strided":
        out = {}
        for n, x in arrays.items():
            y = numpy.empty(3 * len(x), dtype=x.dtype)
            y[:] = x[0] if len(x) else 0
            y[1::3] = x
            out[n] = y[1::3]
        return (out,), {}
    elif way == "reversed":
        return (dict((n, numpy.ascontiguousarray(x[::-1])[::-1]) for n, x in arrays.items()),), {}
    elif way == "fortran":
        out = {}
        for n, x in arrays.items():
            y = numpy.empty((len(x), 2), dtype=x.dtype)
            y[:, 0] = x
            y[:, 1] = x
            out[n] = y[:, 0]
        return (out,), {}
    elif way == "readonly":
        out = {}
        for n, x in arrays.items():
            out[n] = x.copy()
            out[n].flags.writeable = False
        return (out,), {}
    elif way == "record":
        n = len(next(iter(arrays.values()))) if arrays else 0
        if any(x.dtype.kind == "O" for x in arrays.values()):
            return (dict(arrays),), {}
        rec = numpy.empty(n, dtype=[(str(k), x.dtype) for k, x in sorted(arrays.items())])
        for k, x in arrays.items():
            rec[k] = x
        return (dict((k, rec[k]) for k in arrays),), {}
    elif way == "subclass":
        return (dict((n, x.view(Sub)) for n, x in arrays.items()),), {}
    elif way == "othermapping":
        return (Lookup(dict(arrays)),), {}
    elif way == "ordered":
        items = sorted(arrays.items())
        rng.shuffle(items)
        return (collections.OrderedDict(items),), {}
    elif way == "dataframe":
        extra = dict(arrays)
        extra["unused column"] = numpy.zeros(len(next(iter(arrays.values()))) if arrays else 0)
        return (DataFrame(extra),), {}
    elif way == "objects":
        # categories as objects
        out = dict(arrays)
        for n in arrays:
            if arrays[n].dtype.kind in "UO":
                out[n] = objects(arrays[n].tolist())
        return (out,), {}
    elif way == "native":
        # the other byte order of every number
        return (dict((n, x.astype(x.dtype.newbyteorder())) if x.dtype.kind in "iuf" else (n, x) for n, x in arrays.items()),), {}
    elif way in ("extra", "onemore", "unusedbad"):
        out = dict(arrays)
        n = len(next(iter(arrays.values()))) if arrays else 0
        if way == "extra":
            out["unused"] = numpy.arange(n)
            out["unused2"] = numpy.array(["x"] * n)
        elif way == "onemore":
            out["unused"] = numpy.arange(n + 1)
        else:
            out["unused"] = rng.choice([None, object(), "a string", [[1, 2], [3]], {}])
        if rng.random() < 0.5:
            return (dict(arrays),), dict((k, v) for k, v in out.items() if k not in arrays)
        return (out,), {}
    elif way == "mixed":
        return (dict((n, x if rng.random() < 0.5 else x.tolist() if len(x) else x) for n, x in arrays.items()),), {}
    elif way == "memoryview":
        out = dict(arrays)
        for n, x in arrays.items():
            if x.dtype.str in ("<f8", "<i8", "<f4", "<i4") and len(x):
                out[n] = memoryview(x)
        return (out,), {}
    raise AssertionError(way)


def gen_one(ctx, rng):
    spec = gen.gen_spec(rng, defs=0, naxes=rng.choice([1, 1, 2, 3]), weight=0.4, filter=0.25, profiles=0.4, maxgroup=2)
    if spec.filter is not None and spec.weight == 0:
        spec.filter = None
    r = rng.random()
    if r < 0.2:
        # definitions stand for other fields
        defs = {}
        axes = []
        for i, a in enumerate(spec.axes):
            if a["k"] in ("bin", "split", "groupbin") and not model.bareref(a["expr"]) and rng.random() < 0.8:
                n = "def{0}".format(i)
                defs[n] = a["expr"]
                a = dict(a, expr=n)
                ctx.seen("definitions")
            axes.append(a)
        spec = spec.replace(axes=axes, defs=defs)
    elif r < 0.3:
        spec = spec.replace(axes=spec.axes + [model.splitaxis(rng.choice(["pi*a", "a + pi"]), [-3.0, -1.0, 1.0, 3.0])])
        ctx.seen("constant_names")
    elif r < 0.36:
        # names that resemble functions, Python or internal names
        name = rng.choice(["self", "arrays", "numpy", "index", "sqrt2", "weight", "fill", "_x", "x1", "True_", "content", "length", "a_b", "X"])
        axes = [dict(a, expr=name) if a["k"] in ("bin", "split", "groupbin") and model.bareref(a["expr"]) else a for a in spec.axes]
        if sum(1 for a in axes if a["expr"] == name) == 1:
            spec = spec.replace(axes=axes)
            ctx.seen("unusual_names")
    return spec


def wanted(specs):
    out = set()
    for s in specs:
        out.update(s.fields())
    return out


def check_fields(ctx, obj, specs, what):
    got = ctx.do("{0}.fields".format(what), lambda: list(obj.fields))
    ctx.check(len(set(got)) == len(got) and set(got) - CONSTANTS == wanted(specs), "{0}.fields is {1}, expected {2}", what, got, sorted(wanted(specs)))
    ctx.seen("fields_compared")


def constants(ctx, rng, data, fields):
    """The same data with some columns constant, and how to pass those."""
    n = len(data)
    names = sorted(f for f in data.arrays)
    chosen = [f for f in names if rng.random() < 0.5]
    everything = n == 1 and rng.random() < 0.7
    if everything:
        chosen = names
        ctx.seen("all_constants")
    elif chosen == names and chosen:
        chosen = chosen[1:]
    full, given = {}, {}
    for f in names:
        x = data.arrays[f]
        if f not in chosen or n == 0:
            full[f] = given[f] = x
            continue
        v = x[0]
        full[f] = numpy.array([v] * n) if x.dtype.kind != "O" else objects([v] * n)
        r = rng.random()
        if isinstance(v, numpy.generic) and r < 0.3:
            given[f] = v
            ctx.seen("numpyscalar")
        elif isinstance(v, numpy.generic) and r < 0.5:
            given[f] = numpy.array(v)
            ctx.seen("zerodim")
        else:
            given[f] = v.item() if isinstance(v, numpy.generic) else v
        if isinstance(v, str):
            ctx.seen("string_constants")
        ctx.seen("constants_passed")
    return full, given


def run_case(ctx, rng, index):
    isbook = rng.random() < 0.4
    specs = [gen_one(ctx, rng) for _ in range(rng.choice([2, 3]) if isbook else 1)]
    places = ["one", "n/two", "n/deep/three"]

    def make():
        if not isbook:
            return specs[0].make(), lambda b: [b]
        b = histbook.Book()
        for p, s in zip(places, specs):
            b[p] = s.make()
        return b, lambda b: [b[p] for p in places[:len(specs)]]
    what = "book" if isbook else "h"
    ctx.seen("books" if isbook else "hists")
    for p, s in zip(places, specs):
        ctx.log("{0} = {1}", p if isbook else "h", s)
    obj, hists = make()
    check_fields(ctx, obj, specs, what)
    fields = sorted(wanted(specs))
    if not fields:
        return
    data = gen.gen_data(rng, specs, n=rng.choice([0, 1, 1, 3, 8, 20]), objects=False)
    if len(data) == 0:
        ctx.seen("empty")
    ctx.log("data: {0}", data.show())
    want = [model.fill(s, data.entries()) for s in specs]
    sig = []

    def verify(b, what, want):
        for h, s, w in zip(hists(b), specs, want):
            observe.check(ctx, h, s, w, what)

    # just the fields
    reference = None
    for way in ["dict"] + rng.sample(WAYS, 5):
        b, _ = make()
        if rng.random() < 0.3:
            b.fields
        copies = dict((n, x.copy()) for n, x in data.arrays.items())
        args, kwargs = passing(ctx, rng, way, copies, specs)
        if "self" in kwargs or "arrays" in kwargs:
            continue
        ctx.do("{0}.fill as {1}".format(what, way), b.fill, *args, **kwargs)
        ctx.seen("way_" + way)
        sig.append(way)
        verify(b, "filled as " + way, want)
        prints = [c11.fingerprint(h) for h in hists(b)]
        if reference is None:
            reference = prints
        elif way not in ("lists", "tuples", "mixed", "objects"):
            ctx.check(prints == reference, "filled as {0}: {1}, as a dict: {2}", way, prints, reference)
        for n, x in data.arrays.items():
            ctx.check(x.tobytes() == copies[n].tobytes() or x.dtype.kind == "O", "filling as {0} changed the array of {1}", way, n)
        ctx.seen("arrays_unmodified")
        check_fields(ctx, b, specs, "filled " + what)
    if rng.random() < 0.1:
        ctx.must_refuse("DataFrame and keywords", (TypeError,), make()[0].fill, DataFrame(dict(data.arrays)), another=data.arrays[fields[0]])
        ctx.seen("keywords_with_dataframe_refused")

    # given to the constructor
    if not isbook:
        way = rng.choice(["dict", "lists", "strided", "extra", "ordered", "readonly", "native"])
        args, kwargs = passing(ctx, rng, way, dict(data.arrays), specs)
        h = ctx.do("Hist(..., fill=) as {0}".format(way), specs[0].make, fill=dict(args[0], **kwargs))
        verify(h, "filled by the constructor", want)
        ctx.seen("constructor_dict")
        if len(fields) == 1:
            x = data.arrays[fields[0]]
            h = ctx.do("Hist(..., fill=array)", specs[0].make, fill=x.tolist() if len(x) and rng.random() < 0.5 else x)
            verify(h, "filled by the constructor with an array", want)
            ctx.seen("constructor_array")
        else:
            ctx.must_refuse("Hist(..., fill=array) with fields {0}".format(fields), (TypeError, ValueError), specs[0].make, fill=data.arrays[fields[0]])
            ctx.seen("constructor_refused")

    # constants
    full, given = constants(ctx, rng, data, fields)
    if len(data):
        rows = gen.rows_of(full)
        if all(model.unambiguous(s, r) for s in specs for r in rows) and all(gen.nonan(specs, r) for r in rows):
            b, _ = make()
            ctx.log("given {0}", given)
            if rng.random() < 0.5 and not set(("self", "arrays")) & set(given):
                ctx.do("fill with constants", b.fill, **given)
            else:
                ctx.do("fill with constants", b.fill, dict(given))
            verify(b, "constants for columns", [model.fill(s, [(r, 1.0) for r in rows]) for s in specs])
    if rng.random() < 0.1:
        h = histbook.Hist(histbook.groupby("s"), histbook.bin("x", 2, 0, 2))
        v = rng.choice([b"abc", numpy.bytes_(b"xyzw"), numpy.array(b"q")])
        ctx.do("bytes", h.fill, s=v, x=numpy.array([0.5, 1.5, 1.5]))
        ctx.check([bytes(k) for k in h.groupkeys("s")] == [bytes(numpy.asarray(v).tolist())] and numpy.asarray(h[list(h.groupkeys("s"))[0]])[1:3, 0].tolist() == [1.0, 2.0], "text as bytes: {0}", h.groupkeys("s"))
        ctx.seen("bytes_constants")

    # one missing
    for f in fields:
        b, _ = make()
        arrays = dict((n, x) for n, x in data.arrays.items() if n != f)
        way = rng.choice(["dict", "keywords", "both", "ordered", "dataframe", "extra"])
        args, kwargs = passing(ctx, rng, way, arrays, specs)
        if "self" in kwargs or "arrays" in kwargs:
            continue
        ctx.must_refuse("fill without {0} as {1}".format(f, way), (ValueError, KeyError, TypeError), b.fill, *args, **kwargs)
        ctx.seen("missing_refused")
        verify(b, "after a refused fill", [{} for _ in specs])

    # what is derived needs the fields of what is left
    s = specs[0]
    if not isbook and len(s.axes) > 1:
        keep = sorted(rng.sample(range(len(s.axes)), rng.randrange(1, len(s.axes))))
        sub = s.replace(axes=[s.axes[i] for i in keep])
        mine = s.make()
        ours = [a for a in mine.axis if not isinstance(a, histbook.profile)]
        order = [s.ordered.index(x) for x in sub.ordered]
        p = ctx.do("project onto {0}".format([model.show_axis(x) for x in sub.axes]), mine.project, *[ours[i] for i in order])
        check_fields(ctx, p, [sub], "projection")
        ctx.seen("projected_fields")
        if s.profiles:
            d = ctx.do("drop", mine.drop, s.profiles[0]) if sum(1 for a in mine.axis if a.expr == s.profiles[0]) == 1 else None
            if d is not None:
                check_fields(ctx, d, [s.replace(profiles=s.profiles[1:])], "histogram without a profile")
    for derived, name in ((lambda x: x.copy(), "copy"), (lambda x: x + x, "sum"), (lambda x: x * 2, "multiple"), (lambda x: x.cleared(), "cleared")):
        if rng.random() < 0.25:
            check_fields(ctx, ctx.do(name, derived, obj), specs, name)

    # fields of a book follow its contents
    if isbook:
        b, _ = make()
        b.fields
        extra = gen_one(ctx, rng)
        ctx.log("b[...] = {0}", extra)
        now = list(specs)
        r = rng.random()
        if r < 0.3:
            b["more"] = extra.make()
            now.append(extra)
        elif r < 0.6:
            b["n"]["more"] = extra.make()
            now.append(extra)
            ctx.seen("nested_changed")
        elif r < 0.8:
            b["one"] = extra.make()
            now[0] = extra
        else:
            del b["n"]["two"]
            now.pop(1)
            ctx.seen("nested_changed")
        check_fields(ctx, b, now, "changed book")
        fs = sorted(wanted(now))
        data = gen.gen_data(rng, now, n=4, objects=False)
        if fs:
            ctx.do("fill the changed book", b.fill, dict(data.arrays))
            f = rng.choice(fs)
            ctx.must_refuse("fill the changed book without {0}".format(f), (ValueError, KeyError), b.fill, dict((n, x) for n, x in data.arrays.items() if n != f))
        ctx.seen("book_changed")
    ctx.signature(tuple(tuple(a["k"] for a in s.axes) for s in specs), isbook, tuple(sorted(set(sig))))
